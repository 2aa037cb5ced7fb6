"""Stage 2 properties C01-C05, C07, C11 (and the Stage 2 part of C17, C18)."""
import itertools, json, math, multiprocessing as mp
from common import *
import gen, stage2

LEGIT = ("local search fails in stage 1",)


def local_failures(run, res):
    return any("sol" not in s for s in res.get("solo") or [])


def _tr(a):
    i, s, res, prev = a
    run, r = s["runs"][-1], res["runs"][-1]
    try:
        return i, stage2.translate(i, s["world"], run, r, prev), None
    except stage2.Skip as e:
        return i, None, str(e)
    except Exception as e:          # malformed observation
        return i, None, "malformed: " + repr(e)


def pool_map(f, xs):
    if len(xs) < 40:
        return [f(x) for x in xs]
    with mp.Pool(NCPU) as p:
        return p.map(f, xs, chunksize=max(1, len(xs) // (NCPU * 4)))


def traces_of(chk, scen, results, prevs=None):
    """Translate (the last run of) each scenario; a run that cannot be a behaviour at all is a violation.
    prevs[i]: the checkpoint the last run of scen[i] resumed from."""
    out = []
    args = [(i, s, results[s["id"]], (prevs or {}).get(i)) for i, s in enumerate(scen) if "died" not in results[s["id"]]]
    for s in scen:
        if "died" in results[s["id"]]:
            chk.violation("the process died or hung: " + results[s["id"]]["died"], {"scenario": s})
    for i, tr, why in pool_map(_tr, args):
        s = scen[i]
        r = results[s["id"]]["runs"][-1]
        if tr is not None:
            out.append(tr)
        elif why in LEGIT and local_failures(s["runs"][-1], r):
            chk.add("runs_with_failing_local_search_skipped")
        else:
            chk.violation("the run is not a behaviour of the specification: " + why, {"scenario": s, "result": r})
    return out


def validate_scenarios(chk, pid, scen, binary=None):
    return validate_results(chk, pid, scen, run_harness(binary or build(), scen))


def validate_results(chk, pid, scen, res, prevs=None, any_of=()):
    trs = traces_of(chk, scen, res, prevs)
    rej, st = validate("TraceStage2", "TraceStage2.cfg", trs)
    chk.add("recorded_runs_validated", len(trs))
    chk.add("batches_validated", sum(len(t["ev"]) - 2 for t in trs))
    chk.add("local_optima_in_traces", sum(len(e["post"]["dist"]) for t in trs for e in t["ev"][-2:-1] if e["k"] == "batch"))
    chk.add("transitions", st["generated"])
    chk.add("states", st["distinct"])
    for i, whys in rej.items():
        mine = [w for p, w in whys if p == pid or p in any_of]
        if mine:
            s = scen[i]
            chk.violation(f"recorded run rejected by TraceStage2: {'; '.join(sorted(set(mine)))}",
                          {"scenario": s, "result": res[s["id"]]["runs"][-1]})
    return trs


# ------------------------------------------------------------ spec -> code
def calibrate(binary, K, nseeds, rng):
    """Which order of the sorted reference set does each seed process? (learned from the code)"""
    n = K + 3
    pts = [10.0, 12.0, 14.0, -6.0][:K]
    scen = []
    for i in range(nseeds):
        ent = [{"p": [p], "f": f, "g": [0.0]} for p, f in [(0.0, 0.0), (-20.0, 98.0), (20.0, 99.0)] + [(p, 1.0 + j) for j, p in enumerate(pts)]]
        scen.append({"id": i, "world": {"kind": "table", "bounds": [[-20, 20]], "entries": ent}, "runs": [{
            "params": {"iterations": 0, "population": n, "wait": 3, "tf": 1.0, "df": 1.0, "seed": str(i), "solver": gen.TR1},
            "points": [[p] for p in pts], "ckpt": {"freq": 1, "keep_all": False, "auto_resume": False},
            "batch": 1, "log": False}]})
    res = run_harness(binary, scen)
    rank = {p: j for j, p in enumerate(pts)}
    table = {}
    for i in range(nseeds):
        r = res[i].get("runs", [{}])[0]
        cks = r.get("cks") or []
        if not cks or "ck" not in cks[0]:
            continue
        ref = [stage2.fl(p[0]) for p in cks[0]["ck"]["ref"]]
        head = ref[:K]
        if all(p in rank for p in head):
            table.setdefault(tuple(rank[p] for p in head), i)
    return table


def behaviours(num, K, seed, cfg=None):
    cfg = cfg or open(os.path.join(SPEC, "GenStage2.cfg")).read().replace("K = 3", f"K = {K}")
    r = tlc("GenS", cfg, workers=1, extra=["-simulate", f"num={num}", "-depth", str(K + 2), "-seed", str(seed)], timeout=600)
    out, seen = [], set()
    for b in printed_json(r["out"]):
        k = json.dumps(b, sort_keys=True)
        if k not in seen:
            seen.add(k); out.append(b)
    if not out:
        raise ToolError("no behaviours generated\n" + r["out"][-2000:])
    return out


def interesting(b):
    return len(b["end"]["dist"]) > 1


def realise(b, K, table, sid, rng):
    """Scenario in which the real code must follow behaviour b"""
    xs = list(b["xs"])
    if len(xs) < K:                      # target reached early: fill up
        free = [p for p in (10, 12, 14, -6) if p not in [x["p"] for x in xs]]
        hi = max([x["v"] for x in xs] + [b["x0"]["v"]]) + 1
        while len(xs) < K:
            p = free.pop(0)
            xs.append({"p": p, "v": hi, "o": {"p": p, "v": hi}})
    order = sorted(range(K), key=lambda i: (xs[i]["v"], i))
    rank = {i: r for r, i in enumerate(order)}
    seed = table.get(tuple(rank[i] for i in range(K)))
    if seed is None:
        return None
    v0 = min(x["v"] for x in xs)
    ent = {}
    def put(p, f, q):
        ent.setdefault(p, (f, p - q))
    x0 = b["x0"]
    put(0, v0, x0["p"]) if v0 > x0["v"] else None
    if v0 <= x0["v"]:
        # Stage 1 must end exactly at x0: only possible when the start is strictly above it
        v0 = x0["v"] + 0.5
        if any(x["v"] <= v0 for x in xs):
            return None
        put(0, v0, x0["p"])
    for x in xs:
        put(x["p"], x["v"], x["o"]["p"])
    for o in [x0] + [x["o"] for x in xs]:
        put(o["p"], o["v"], o["p"])
    put(-20, 98, -20); put(20, 99, 20)
    c = b["cfg"]
    run = {"params": {"iterations": K, "population": K + 3, "wait": c["wait"], "tf": 1.0, "df": float(c["df"]),
                      "seed": str(seed), "solver": dict(gen.TR1)},
           "points": [[float(xs[i]["p"])] for i in order], "tol": [float(c["tol"]), 0.0], "excl": c["excl"],
           "ckpt": {"freq": 1, "keep_all": True, "auto_resume": False}, "log": False}
    if c["target"] > -9:
        run["target"] = float(c["target"])
    if c["batch"] == 1:
        run.update({"parallel": False} if rng.random() < 0.5 else {"batch": 1})
    else:
        run.update({"batch": c["batch"], "threads": rng.choice([1, 2, 4])})
    w = {"kind": "table", "bounds": [[-20, 20]],
         "entries": [{"p": [float(p)], "f": float(f), "g": [float(g)]} for p, (f, g) in ent.items()]}
    return {"id": sid, "world": w, "runs": [run], "trials": [float(x["p"]) for x in xs]}


FIELD = {"thr": ("C04",), "unch": ("C04",), "dist": ("C03",), "set": ("C02", "C01"), "n": ("C05",)}


def compare(b, s, r):
    """Disagreements between behaviour b and the recorded run: {property: text}, or None if not realised"""
    bad = {}
    def f(props, why):
        for p in props:
            bad.setdefault(p, why)
    sol = lambda o: [[float(o["p"])], float(o["v"])]
    norm = lambda q: [[[stage2.fl(x) for x in m[0]], stage2.fl(m[1])] for m in (q or [])]
    if "panic" in r:
        return {p: "panic " + r["panic"] for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C11")}
    cks = sorted((c["ck"] for c in r.get("cks") or [] if "ck" in c), key=lambda c: c["it"])
    e = b["end"]
    want = [sol(o) for o in e["set"]]
    oob = any(o["p"] == 21 for o in e["dist"])
    both = lambda *p: tuple(p) + (("C07",) if oob else ()) + (("C11",) if b["cfg"]["batch"] > 1 else ())
    if "ok" in r:
        got = norm(r["ok"])
        if got != want:
            f(both("C01", "C02"), f"returned {got}, specified {want}")
    elif r["err"]["e"]["variant"] == "NoFeasibleSolution":
        if want:
            f(both("C01", "C07"), f"no feasible solution reported, specified {want}")
    else:
        f(both("C05"), "run failed: " + r["err"]["e"]["msg"])
        return bad
    if not want and "ok" in r:
        f(("C07",), "solution returned although none is eligible")
    if b["xs"] == []:
        if cks:
            f(("C05",), "Stage 2 entered although Stage 1 reached the target")
        return bad
    if not cks:
        f(("C05",), "Stage 2 not entered")
        return bad
    ref = [stage2.fl(p[0]) for p in cks[0]["ref"]]
    if ref[:len(s["trials"])] != s["trials"] or norm(cks[0]["dist"])[:1] != [sol(b["x0"])]:
        return None
    exp = {g["n"]: g["st"] for g in b["log"]}
    got = {c["it"]: c for c in cks}
    if set(exp) != set(got):
        f(both("C05"), f"iterations after each batch {sorted(got)}, specified {sorted(exp)}")
    for n in sorted(set(exp) & set(got)):
        c, q = got[n], exp[n]
        if stage2.fl(c["thr"]) != q["thr"]:
            f(both("C04"), f"after trial {n}: threshold {c['thr']}, specified {q['thr']}")
        if c["unch"] != q["unch"]:
            f(both("C04"), f"after trial {n}: rejections {c['unch']}, specified {q['unch']}")
        if norm(c["dist"]) != [sol(o) for o in q["dist"]]:
            f(both("C03"), f"after trial {n}: optima found {norm(c['dist'])}, specified {[sol(o) for o in q['dist']]}")
        if norm(c["set"]) != [sol(o) for o in q["set"]]:
            f(both("C01", "C02"), f"after trial {n}: set {norm(c['set'])}, specified {[sol(o) for o in q['set']]}")
        if bad:
            break
    return bad


def replay_behaviours(chk, pid, num, K, want=None, nseeds=None):
    binary = build()
    table = calibrate(binary, K, nseeds or (1500 if K == 3 else 6000), chk.rng)
    chk.cov["orders_realisable"] = len(table)
    bs = behaviours(num, K, chk.rng.randrange(1, 2**31))
    chk.add("behaviours_generated", len(bs))
    scen, sel = [], {}
    for b in bs:
        if want and not want(b) and chk.rng.random() < 0.8:
            continue
        s = realise(b, K, table, len(scen), chk.rng)
        if s is not None:
            sel[s["id"]] = b
            scen.append(s)
    res = run_harness(binary, [{k: v for k, v in s.items() if k != "trials"} for s in scen])
    done = 0
    for s in scen:
        r = res[s["id"]]
        if "died" in r:
            chk.violation("the process died or hung: " + r["died"], {"scenario": s})
            continue
        bad = compare(sel[s["id"]], s, r["runs"][0])
        if bad is None:
            continue
        done += 1
        if pid in bad:
            chk.violation("replayed behaviour: " + bad[pid], {"behaviour": sel[s["id"]], "scenario": s, "result": r["runs"][0]})
    chk.add("behaviours_replayed", done)
    chk.sample({"behaviour": sel[0]} if sel else None)
    if done < 0.2 * len(scen):
        # the code orders trials in a way the calibration does not predict: the traces still decide
        chk.cov["note"] = "replay mostly unrealised; trace validation decides"


MC = {
    "base": {},
    "noexcl": {"ExclC = TRUE": "ExclC = FALSE"},
    "target": {"Target <- TargetV": "Target = 0"},
    "tol0": {"Tol = 1": "Tol = 0"},
    "df2": {"DF = 1": "DF = 2"},
    "wait1": {"WaitC = 2": "WaitC = 1"},
    "seq4": {"MaxTrials = 3": "MaxTrials = 4", "MaxBatch = 2": "MaxBatch = 1", "Vals = {0, 1, 2, 9}": "Vals = {0, 1, 2}"},
}


def model(chk, names):
    base = open(os.path.join(SPEC, "MCStage2.cfg")).read()
    for n in names:
        c = base
        for a, b in MC[n].items():
            assert a in c
            c = c.replace(a, b)
        r = tlc_model("MCS", c)
        chk.add("transitions", r["generated"])
        chk.add("states", r["distinct"])


def emphasis(pid, rng, i):
    """Scenario generator biased towards what the property is about"""
    kw = {}
    if pid == "C07":
        kw = {"oob": True, "excl": rng.random() < 0.75}
    elif pid == "C05":
        kw = {"target": 0.6}
    elif pid == "C11":
        kw = {"seq": False if rng.random() < 0.85 else None}
    elif pid in ("C03", "C04"):
        kw = {"target": 0.1}
    elif pid in ("C01", "C02"):
        kw = {"target": 0.15}
    r = rng.random()
    if r < 0.65:
        if pid in ("C03", "C04", "C02", "C01", "C11") and rng.random() < 0.2:
            kw["m"] = rng.randint(10, 18)
        return gen.table_scenario(rng, i, weird=rng.random() < (0.25 if pid == "C01" else 0.1), **kw)
    return gen.real_scenario(rng, i, seq=kw.get("seq"), big=rng.random() < 0.2)


def want(pid):
    if pid == "C07":
        return lambda b: any(o["p"] == 21 for o in b["end"]["dist"])
    if pid == "C05":
        return lambda b: b["cfg"]["target"] > -9
    if pid == "C11":
        return lambda b: b["cfg"]["batch"] > 1
    return interesting


def check(chk):
    pid = chk.pid
    chk.assumptions = ["a local search from the same point returns the same optimum (checked by C10, C20)",
                       "the state after each batch is the one in the checkpoint saved then (C16 decides that it is read back faithfully)"]
    q = ["base"] if pid in ("C01", "C02", "C04") else ["noexcl"] if pid in ("C11", "C03") else ["target"] if pid == "C05" else ["tol0"]
    model(chk, list(MC) if chk.thorough() else q)
    replay_behaviours(chk, pid, chk.n(12000, 60000), 3, want(pid))
    if chk.thorough():
        replay_behaviours(chk, pid, 60000, 4, want(pid))
    rounds = chk.n(1, 8)
    for k in range(rounds):
        n = chk.n(1500, 3000)
        scen = [emphasis(pid, chk.rng, i) for i in range(n)]
        trs = validate_scenarios(chk, pid, scen)
        if k == 0:
            for t, s in zip(trs[:2], scen[:2]):
                chk.sample({"scenario": s})
    if not chk.cov.get("recorded_runs_validated"):
        raise ToolError("nothing validated")
    return chk.finish()
