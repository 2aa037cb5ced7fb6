"""Stage 1 properties C08, C09 (MCScatter, TraceScatter)."""
import math
from common import *
import gen, stage2
import fam_stage2

ERRV = 3000000
NOVAL = 1000000


def fl(x):
    return stage2.fl(x)


def pt(p):
    return tuple(fl(x) + 0.0 for x in p)


def d2(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s += (x - y) * (x - y)
    return s


def ranks(vals, tol=1e-11):
    """value -> rank; values closer than rounding share one"""
    r, out, last = 0, {}, None
    for v in sorted(set(vals)):
        if last is None or not (v == last or v - last <= tol * max(abs(v), abs(last), 1e-300)):
            r += 1
        out[v] = r
        last = v
    return out


class Bag:
    """Multiset of points: take(p) removes one occurrence and returns its index"""
    def __init__(self, pts):
        self.m = {}
        for i, p in enumerate(pts):
            self.m.setdefault(p, []).append(i)

    def take(self, p):
        l = self.m.get(p)
        return l.pop(0) if l else None


def near(a, b, scale, tol=1e-9):
    return all(x == y or abs(x - y) <= tol * s for x, y, s in zip(a, b, scale))


def same_value(got, p, values):
    """the objective recorded at p (undefined stays undefined)"""
    w = values.get(p)
    if w is None:
        return False
    return (math.isnan(got) and any(math.isnan(x) for x in w)) or got in w


def greedy_order(d, nreq, mem):
    """An order in which farthest-first can add the members (the witness TLC checks); any order if there is none"""
    n = len(d)
    budget = [2000]
    def go(order, md, left):
        if not left:
            return order
        budget[0] -= 1
        if budget[0] < 0:
            return None
        top = max(md[c] for c in range(1, n + 1) if c not in done)
        for c in sorted(left):
            if md[c] == top:
                done.add(c)
                r = go(order + [c], {e: min(md[e], d[e - 1][nreq + c - 1]) for e in md}, left - {c})
                if r:
                    return r
                done.discard(c)
        return None
    done = set()
    md0 = {c: min(d[c - 1][:nreq], default=2000000000) for c in range(1, n + 1)}
    r = go([], md0, set(mem))
    if r is None and budget[0] < 0:
        return []
    return r or mem


def explain(L, pairs, trials, bounds, width, scale):
    """How each trial can have come about: [pair, slot]"""
    exs = []
    clamp = lambda p: tuple(min(max(x, a), b) for x, (a, b) in zip(p, bounds))
    combos, alt = [], []
    for (i, j) in pairs:
        a, b = L[i], L[j]
        cs = [clamp([x * w + y * (1 - w) for x, y in zip(a, b)]) for w in (0.25, 0.5, 0.75, 1.25)]
        # the same without overflow of the products
        alt.append([clamp([4 * (x / 4 * w + y / 4 * (1 - w)) for x, y in zip(a, b)]) for w in (0.25, 0.5, 0.75, 1.25)])
        combos.append((cs, [x / 2 + y / 2 for x, y in zip(a, b)]))
    for p in trials:
        ex = []
        for n, (cs, m) in enumerate(combos):
            for q, c in enumerate(cs):
                if near(p, c, scale) or near(p, alt[n][q], scale):
                    ex.append([n + 1, q + 1])
            if all(min(max(x - 0.1 * w, a), b) - 1e-9 * sc <= y <= min(max(x + 0.1 * w, a), b) + 1e-9 * sc
                   for x, y, w, (a, b), sc in zip(m, p, width, bounds, scale)):
                ex.append([n + 1, 5])
        exs.append(ex)
    return exs


def translate(tid, s, r):
    bounds = [[fl(a), fl(b)] for a, b in s["world"]["bounds"]]
    width = [b - a for a, b in bounds]
    scale = [max(abs(a), abs(b), w) for (a, b), w in zip(bounds, width)]
    inb = lambda p: all(a <= x <= b for x, (a, b) in zip(p, bounds))
    pop = s["params"]["population"]
    cons = bool(s["world"].get("cons"))
    batches = [[(pt(p), f) for p, f in b] for b in r["samples"]]
    nf = [sum(f for _, f in b) for b in batches]
    base = {"id": tid, "pop": pop, "cons": cons, "nf": nf, "nreq": 0, "d": [], "mem": [], "err": False}
    mid = lambda: [tuple(a / 2 + b / 2 for a, b in bounds)]
    if "init" in r:
        if r["init"]["err"] != "NoFeasibleCandidates":
            raise stage2.Skip("initialisation failed: " + r["init"]["err"])
        from_req = required(s, r, bounds)
        base.update(err=True, nreq=len(from_req))
        return base
    req = [(pt(p), f) for p, f in r["required"]]
    need = [p for p, f in req if f]
    full, oi = r["full"], r["only_init"]
    if "set" not in full or "set" not in oi:
        raise stage2.Skip("no set")
    init = [(pt(p), fl(v)) for p, v in oi["set"]]
    new = [(pt(p), fl(v)) for p, v in full["set"]]
    n0 = len(init)
    # values at points, as the problem returned them
    values = {}
    for src in (r["init_calls"], r["upd_calls"], full["calls"], oi["calls"]):
        for p, v in src:
            if v != "err":
                values.setdefault(pt(p), set()).add(fl(v))
    # required points: exact, except the midpoint whose rounding is free
    bag = Bag([p for p, _ in init])
    reqin, used = [], []
    for p in need:
        i = bag.take(p)
        if i is None:
            for q in list(bag.m):
                if bag.m[q] and near(p, q, scale, 1e-14):
                    i = bag.take(q)
                    break
        reqin.append(i is not None)
        if i is not None:
            used.append(i)
    rest = [i for i in range(n0) if i not in set(used)]
    # candidates in the order in which they become available
    cand = []
    for k, b in enumerate(batches):
        if k > 0 and len(cand) >= pop:
            break
        cand += [p for p, f in b if f]
    cb = Bag(cand)
    mem, extra = [], 0
    for i in rest:
        c = cb.take(init[i][0])
        if c is None:
            extra += 1
        else:
            mem.append(c + 1)
    base["nreq"] = len(need)
    if extra == 0 and all(reqin) and cand and mem and len(cand) * len(mem) <= 3000:
        nodes = [init[i][0] for i in used] + cand
        rows = [[d2(c, x) for x in nodes] for c in cand]
        rk = ranks([x for row in rows for x in row])
        base["d"] = [[rk[x] for x in row] for row in rows]
        base["mem"] = greedy_order(base["d"], len(need), mem)
    elif extra:
        # other samples than the generator's: only judge that they are points of the box
        extra = sum(1 for i in rest if not inb(init[i][0]))
    # objective ranks
    trials = [(pt(p), f) for p, f in r["trials"]]
    ups = [(pt(p), v) for p, v in r["upd_calls"]]
    tb = Bag([p for p, _ in trials])
    ev = [None] * len(trials)
    stray = len(r["gen_calls"])
    for p, v in ups:
        i = tb.take(p)
        if i is None:
            stray += 1
        else:
            ev[i] = v
    vals = [v for _, v in init] + [math.nan if e in (None, "err") else fl(e) for e in ev]
    allv = [v for v in vals + [v for _, v in new] if not math.isnan(v)]
    rk = ranks(allv, 0.0)
    rank = lambda v: NOVAL if math.isnan(v) else rk[v]
    vals = [rank(v) for v in vals]
    # the leading points
    srt = all(vals[i] <= vals[i + 1] for i in range(n0 - 1))
    k = min(max(2, math.isqrt(n0)), n0)
    order = list(range(n0))
    ordered = True
    if not srt:
        order.sort(key=lambda i: vals[i])
        m = min(max(k + 1, 5), n0)
        lead = [vals[i] for i in order[:m + 1]]
        ordered = len(set(lead)) == len(lead)
    L = [init[i][0] for i in order]
    pairs = [(i, j) for i in range(k) for j in range(i + 1, k)]
    exs = explain(L, pairs, [p for p, _ in trials], bounds, width, scale)
    # a further round combines the best points of the new set
    v2 = [rank(v) for _, v in new]
    k2 = min(max(2, math.isqrt(len(new))), len(new))
    ord2 = sorted(range(len(new)), key=lambda i: v2[i])
    if all(v2[i] <= v2[j] for i in range(k2) for j in range(i + 1, len(new))):
        ord2 = list(range(len(new)))
        ok2 = True
    else:
        top = [v2[i] for i in ord2[:k2 + 1]]
        ok2 = len(set(top)) == len(top)
    exs2 = []
    if ok2:
        N = [new[i][0] for i in ord2]
        exs2 = explain(N, [(i, j) for i in range(k2) for j in range(i + 1, k2)], [pt(p) for p, _ in r["trials2"]], bounds, width, scale)
    thr = 0.0
    if n0 >= 2:
        thr = sum(d2(L[i], L[(i + 1) % n0]) for i in range(k)) / k * 0.1
    mds = [min(d2(p, q) for q in L[:5]) for p, _ in trials]
    rd = ranks(mds + [thr], 1e-9)
    tr = [{"ex": ex, "f": bool(f), "md": rd[m], "ev": e is not None, "ok": e not in (None, "err")}
          for ex, (p, f), m, e in zip(exs, trials, mds, ev)]
    # where the new points come from
    nb = {}
    for i, (p, _) in enumerate(init):
        nb.setdefault(p, []).append(i + 1)
    for i, (p, _) in enumerate(trials):
        if ev[i] not in (None, "err"):
            nb.setdefault(p, []).append(n0 + i + 1)
    ids = []
    for p, v in new:
        l = nb.get(p) or []
        ids.append(l.pop(0) if l else 0)
    fb, sb = pt(full["best"]), pt(r["best"])
    bv = lambda p: min([rank(v) for q, v in new if q == p], default=-1)
    once = sorted(p for p, _ in init) == sorted(pt(p) for p, _ in r["init_calls"])
    base.update(
        n0=n0, reqin=reqin, extra=extra, inb=[inb(p) for p, _ in init], feas=[bool(f) for f in oi["feas"]],
        vok=[same_value(v, p, values) for p, v in init], evonce=once, bestv=bv(fb), bestv2=bv(sb),
        v=vals, trials=tr, thr=rd[thr], new=ids, ordered=ordered, ex2=exs2, ok2=ok2, stray=stray, tinb=[inb(p) for p, _ in trials],
        inb2=[inb(p) for p, _ in new], feas2=[bool(f) for f in full["feas"]], vok2=[same_value(v, p, values) for p, v in new])
    return base


def required(s, r, bounds):
    """feasible seeds and user points, computed here (the harness had no set to report them with)"""
    lo, up = tuple(a for a, _ in bounds), tuple(b for _, b in bounds)
    mid = tuple(a / 2 + b / 2 for a, b in bounds)
    pts = [lo, up, mid] + [tuple(map(fl, p)) for p in s.get("points") or []]
    return [p for p in pts if all(cons_ok(c, p) for c in s["world"].get("cons") or [])]


def cons_ok(c, x):
    if c["t"] == "lin":
        return sum(a * y for a, y in zip(c["a"], x)) + c["b"] >= 0
    if c["t"] == "sqrt":
        return x[0] - c["c"] >= 0
    q = sum((y - a) * (y - a) for a, y in zip(c["c"], x))
    return (c["r2"] - q >= 0) if c["t"] == "ball" else (q - c["r2"] >= 0)


# ---------------------------------------------------------------- generation
LEVELS = [[0, 1], [0, 1, 2, 3], [-1.5, 0, "inf", "nan"], [0, "-inf", 2], ["nan", 1, 2], ["-nan", "nan", -3, 7], ["nan"],
          [5], ["inf", "-nan", 0], [-0.0, 0.0, 1.0], list(range(20)), [i / 7 for i in range(60)]]


def constraints(rng, b):
    dim = len(b)
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        c = [rng.uniform(*x) for x in b]
        w = [x[1] - x[0] for x in b]
        if r < 0.35:
            a = [rng.choice([-1.0, 1.0, 0.0, 0.5]) for _ in b]
            out.append({"t": "lin", "a": a, "b": rng.choice([0.0, 0.25, -0.5, -1.0]) * max(w)})
        elif r < 0.6:
            out.append({"t": "ball", "c": c, "r2": (rng.choice([0.02, 0.2, 0.5, 0.9]) * max(w)) ** 2})
        elif r < 0.8:
            out.append({"t": "out", "c": c, "r2": (rng.choice([0.1, 0.3, 0.5]) * max(w)) ** 2})
        else:
            out.append({"t": "sqrt", "c": b[0][0] + rng.choice([0.0, 0.1, 0.5, 0.9]) * w[0]})
    return out


def scenario(rng, i):
    r = rng.random()
    if r < 0.25:
        w = gen.named_world(rng)
    elif r < 0.45:
        w = gen.basin_world(rng)
    else:
        dim = rng.choice([1, 1, 2, 3, 5])
        lv = rng.choice(LEVELS)
        w = {"kind": "hash", "seed": str(rng.randrange(2**40)), "levels": lv,
             "bounds": [rng.choice([[-1.0, 1.0], [0.0, 8.0], [-4.0, 4.0], [1e-3, 2e-3], [-1e6, 1.0], [3.0, 3.0000001]])
                        for _ in range(dim)]}
    w = dict(w, bounds=[list(map(float, b)) for b in w["bounds"]])
    if rng.random() < 0.05:
        w["bounds"] = [rng.choice([[1.2e308, 1.7e308], [-8e307, 8e307], [-1.7e308, -1.1e308], [-1e200, 1e200]]) for _ in w["bounds"]]
    if rng.random() < 0.35:
        w["cons"] = constraints(rng, w["bounds"]) if max(abs(x) for b in w["bounds"] for x in b) < 1e100 else []
        if not w["cons"]:
            w.pop("cons")
    pop = rng.choice([3, 3, 4, 4, 5, 6, 8, 9, 10, 12, 16, 17, 19, 20, 25, 26, 30, 36])
    s = {"id": i, "world": w, "params": {"iterations": 1, "population": pop, "wait": 1, "tf": 0.5, "df": 0.5,
                                         "seed": gen.seed(rng), "solver": dict(gen.TR1)}}
    if rng.random() < 0.5:
        n = rng.randint(0, min(8, max(1, pop - 2)))
        if rng.random() < 0.15:
            n = pop + rng.randint(0, 3)
        pts = [[rng.uniform(a, b) for a, b in w["bounds"]] for _ in range(n)]
        if pts and rng.random() < 0.3:
            pts.append(list(rng.choice(pts)))
        if rng.random() < 0.3:
            pts.append([rng.choice([a, b]) for a, b in w["bounds"]])
        if rng.random() < 0.2:
            pts.append([a / 2 + b / 2 for a, b in w["bounds"]])
        s["points"] = pts
        if rng.random() < 0.03:
            s["points"] = [[rng.uniform(a, b) for a, b in w["bounds"]] for _ in range(rng.randint(99, 105))]
            s["params"]["population"] = rng.choice([100, 104, 110])
    s["parallel"] = rng.random() < 0.5
    s["threads"] = rng.choice([1, 2, 3, 4])
    s["fail_pct"] = rng.choice([0, 0, 0, 20, 50, 90])
    return s


def behaviours(n, seed):
    cfg = open(os.path.join(SPEC, "MCScatter.cfg")).read().split("INVARIANTS")[0]
    cfg = cfg.replace("Emit = FALSE", "Emit = TRUE").replace("Grid = {4, 12}", "Grid = {4, 8, 12, 24, 28}").replace("W = 16", "W = 32") \
        .replace("MaxCustom = 1", "MaxCustom = 3").replace("Vals = {0, 1, 1000000}", "Vals = {0, 1, 2, 3, 4, 5, 6, 7, 1000000}") + "CHECK_DEADLOCK FALSE\n"
    # the whole set is scripted: the population is what seeds and user points fill
    cfg = cfg.replace("Pops = {3, 4}", "Pops = {3, 4, 5, 6}")
    r = tlc("MCSc", cfg, extra=["-simulate", f"num={n}", "-depth", "40", "-seed", str(seed)], workers=4, timeout=300)
    bs = []
    seen = set()
    for b in printed_json(r["out"]):
        k = json.dumps(b, sort_keys=True)
        if k not in seen:
            seen.add(k)
            bs.append(b)
    return bs


def realise(b, sid, rng):
    """A specified behaviour as a table problem; None unless seeds and user points fill the set"""
    if len(b["init"]) != 3 + len(b["cfg"]["custom"]) or b["cfg"]["infeas"]:
        return None
    ent = []
    for p, v in b["vals"]:
        if v != ERRV:
            ent.append({"p": [float(p)], "f": "nan" if v == NOVAL else float(v), "g": [0.0]})
    return {"id": sid, "world": {"kind": "table", "bounds": [[0.0, 32.0]], "entries": ent},
            "params": {"iterations": 1, "population": b["cfg"]["pop"], "wait": 1, "tf": 0.5, "df": 0.5,
                       "seed": gen.seed(rng), "solver": dict(gen.TR1)},
            "points": [[float(p)] for p in b["cfg"]["custom"]], "parallel": rng.random() < 0.5, "threads": 2, "fail_pct": 0}


def _tr(a):
    i, s, r = a
    try:
        return i, translate(i, s, r), None
    except stage2.Skip as e:
        return i, None, str(e)
    except Exception as e:
        import traceback
        return i, None, "malformed: " + traceback.format_exc()[-600:]


def judge(chk, scen, res):
    args = []
    for i, s in enumerate(scen):
        r = res[s["id"]]
        if "died" in r:
            chk.violation("the process died or hung: " + r["died"], {"scenario": s})
        elif "panic" in r:
            chk.violation("panic: " + r["panic"], {"scenario": s})
        elif "new" in r:
            chk.violation("valid bounds refused: " + r["new"]["msg"], {"scenario": s})
        else:
            args.append((i, s, r))
    trs = []
    for i, tr, why in fam_stage2.pool_map(_tr, args):
        if tr is not None:
            trs.append(tr)
        else:
            chk.violation("Stage 1 cannot be observed: " + why, {"scenario": scen[i], "result": res[scen[i]["id"]]})
    rej, st = validate("TraceScatter", "TraceScatter.cfg", trs, parts=8)
    chk.add("recorded_runs_validated", len(trs))
    chk.add("runs_without_enough_candidates", sum(1 for t in trs if t["err"]))
    chk.add("farthest_first_replayed", sum(1 for t in trs if t["mem"]))
    chk.add("trials_judged", sum(len(t["trials"]) for t in trs if not t["err"]))
    chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    for i, whys in rej.items():
        mine = sorted({w for p, w in whys if p == chk.pid})
        if mine:
            chk.violation("recorded Stage 1 rejected by TraceScatter: " + "; ".join(mine),
                          {"scenario": scen[i], "result": res[scen[i]["id"]]})
    return trs


def first_start(chk, n):
    """The point Stage 1 refines is one with the best objective: the first gradient is requested there"""
    scen = []
    for i in range(n):
        s = gen.real_scenario(chk.rng, i, seq=True, obs=0.0)
        s["runs"][0]["params"]["solver"] = dict(chk.rng.choice([{"type": "SteepestDescent", "max_iter": 3}, gen.TR1,
                                                               {"type": "LBFGS", "max_iter": 5}]))
        s["runs"][0]["params"]["iterations"] = 1
        s["runs"][0].pop("target", None)
        scen.append(s)
    res = run_harness(build(), scen)
    k = 0
    for s in scen:
        r = res[s["id"]]
        if "died" in r:
            continue
        r = r["runs"][0]
        if "ss" not in r or "ref" not in r["ss"]:
            continue
        g = next((e for e in r["log"]["ev"] if e[0] == 1), None)
        if g is None:
            continue
        p = pt(r["log"]["pts"][g[1]])
        ref = {pt(q): fl(v) for q, v in r["ss"]["ref"]}
        k += 1
        best = min(v for v in ref.values())
        if p not in ref or ref[p] != best:
            chk.violation("Stage 1 refines a point that does not have the best objective of the reference set",
                          {"scenario": s, "start": list(p), "objective": ref.get(p), "best": best})
    chk.add("refined_points_checked", k)


def check(chk):
    chk.assumptions = ["feasibility and objective values are computed by the problem itself",
                       "the random candidates are those a second generator with the same seed produces (else only their being in the box is judged)"]
    quickcfg = ["MCScatter.cfg", "MCScatterDiv.cfg"] if chk.thorough() else ["MCScatterDiv.cfg" if chk.pid == "C08" else "MCScatter.cfg"]
    for c in quickcfg:
        cfg = c
        if chk.thorough():
            cfg = open(os.path.join(SPEC, c)).read().replace("Pops = {3, 4}", "Pops = {3, 4, 5}")
        r = tlc_model("MCSc", cfg, timeout=800)
        chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    bs = behaviours(chk.n(1200, 30000), chk.rng.randrange(1, 2**31))
    scen, sel = [], []
    for b in bs:
        s = realise(b, len(scen), chk.rng)
        if s:
            scen.append(s); sel.append(b)
    res = run_harness(binary, scen, mode="scatter")
    judge(chk, scen, res)
    chk.add("behaviours_replayed", len(scen))
    for b, s in zip(sel, scen):
        r = res[s["id"]]
        if "full" not in r or "set" not in r["full"]:
            continue
        want = sorted(e["v"] for e in b["new"])
        got = sorted(NOVAL if math.isnan(fl(v)) else fl(v) for _, v in r["full"]["set"])
        # exact ties of the diversity rule may be rounded either way, and equal leaders may be ordered either way
        lead = [e["v"] for e in b["init"]]
        if len(set(lead[:3])) != 3 or (len(lead) > 3 and lead[2] == lead[3]) or (len(lead) > 5 and lead[4] == lead[5]):
            continue
        chk.add("behaviours_compared")
        if want != got and chk.pid == "C09" and not tie(b):
            chk.violation(f"replayed behaviour: objectives {got}, specified {want}", {"behaviour": b, "scenario": s, "result": r})
    for k in range(chk.n(1, 8)):
        scen = [scenario(chk.rng, i) for i in range(chk.n(900, 2500))]
        res = run_harness(binary, scen, mode="scatter")
        judge(chk, scen, res)
        if k == 0:
            chk.sample({"scenario": scen[0]})
        if chk.pid == "C08":
            first_start(chk, chk.n(150, 500))
    return chk.finish()


def tie(b):
    L = [e["p"] for e in b["init"]]
    n = len(L)
    k = min(max(2, math.isqrt(n)), n)
    s = sum((L[i] - L[(i + 1) % n]) ** 2 for i in range(k))
    return any(10 * k * (t["p"] - q) ** 2 == s for t in b["trials"] for q in L[:5])
