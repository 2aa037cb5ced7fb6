"""C10 and C19: pairs of recorded runs in lock step (TraceEquiv), schedules in MCWorkers."""
import math
from common import *
import gen, stage2, fam_stage2

FULL = "argmin,rayon,checkpointing"
CK = {"freq": 1, "keep_all": True, "auto_resume": False}


class Ids:
    def __init__(self):
        self.m = {}

    def __call__(self, x):
        return self.m.setdefault(x, len(self.m) + 1)


def digest(r, ids, seq):
    if "ok" in r:
        res = [1] + [ids(("s", stage2.key(stage2.pt(s[0])), stage2.fl(s[1]).hex())) for s in r["ok"]]
    elif "err" in r:
        res = [2, ids(("e", r["err"]["at"], r["err"]["e"]["variant"]))]
    else:
        res = [3, ids(("p", r.get("panic")))]
    pts = [stage2.key(stage2.pt(p)) for p in r["log"]["pts"]]
    seen, order = set(), []
    for e in r["log"]["ev"]:
        if e[0] == 0 and e[1] not in seen:
            seen.add(e[1])
            order.append(ids(("x", pts[e[1]])))
    cks = sorted((c["ck"] for c in r.get("cks") or [] if "ck" in c), key=lambda c: c["it"])
    states = []
    refs = []
    if cks:
        refs = [ids(("x", stage2.key(stage2.pt(p)))) for p in cks[-1]["ref"]]
        for c in cks:
            states.append(ids(("st", c["it"], stage2.fl(c["thr"]).hex(), c["unch"], json.dumps(c["set"]), json.dumps(c["dist"]))))
    return {"res": res, "pts": sorted(order), "steps": order if seq else states, "refs": refs}


def single(run, feats):
    return "rayon" not in feats or run.get("parallel") is False


def strip(run, feats):
    """the run as this build can express it"""
    r = dict(run)
    if "checkpointing" not in feats:
        r.pop("ckpt", None)
    if "rayon" not in feats:
        for k in ("batch", "parallel", "threads"):
            r.pop(k, None)
    return r


def wide(rng):
    d = rng.choice([2, 3, 4, 5, 6, 8])
    n = rng.choice(["rastrigin", "styb", "ellipsoid", "sphere", "well", "rosen", "slope"])
    B = []
    scale = rng.choice([1.0, 1.0, 1.0, 1e-8, 1e-6, 1e3])
    for _ in range(d):
        w = rng.choice([1.0, 2.5, 3.7, 5.12]) * scale
        c = rng.choice([0.0, 0.3, -0.7, 1.1])
        B.append([c - w, c + w])
    return {"kind": "named", "name": n, "bounds": B}


def constrained(rng):
    d = rng.choice([1, 2, 3])
    w = {"kind": "named", "name": rng.choice(["rastrigin", "styb", "ellipsoid", "well"]) , "bounds": [[-3, 3]] * d}
    cons = []
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        if r < 0.4:
            cons.append({"t": "lin", "a": [rng.choice([-1.0, 0.5, 1.0]) for _ in range(d)], "b": rng.choice([0.0, 0.5, 1.5])})
        elif r < 0.7:
            cons.append({"t": "ball", "c": [rng.choice([0.0, 0.5, -0.5]) for _ in range(d)], "r2": rng.choice([1.0, 4.0, 6.25])})
        else:
            cons.append({"t": "out", "c": [rng.choice([0.0, 1.0]) for _ in range(d)], "r2": rng.choice([0.25, 1.0])})
    w["cons"] = cons
    return w


def tie_scenario(rng, i):
    """A trial point that sits exactly on the diversity threshold (10% of the mean of k squared
    distances), up to the rounding of the sum: every way of summing must decide alike."""
    while True:
        k = rng.choice([3, 3, 4, 4, 5, 6])
        d = rng.choice([1, 2])
        a = [rng.randint(-20, 20) for _ in range(k)]
        S = sum((x - y) ** 2 for x, y in zip(a, a[1:]))
        rest = 10 * k * d * d - S
        if rest <= 0 or math.isqrt(rest) ** 2 != rest or len(set(a)) < k:
            continue
        a.append(a[-1] + rng.choice([-1, 1]) * math.isqrt(rest))
        if len(set(a)) <= k:
            continue
        five = a[:5]
        ok = False
        for x in range(k):
            for y in range(x + 1, k):
                for al in (0.25, 0.5, 0.75, 1.25):
                    t = al * a[x] + (1 - al) * a[y]
                    if min(abs(t - z) for z in five) == d:
                        ok = True
        if ok:
            break
    n = k * k + rng.randint(0, 2)
    L = 60
    used = set(a)
    pts = list(a)
    while len(pts) < n - 3:
        z = rng.randint(-58, 58)
        if z not in used and z != 0:
            used.add(z); pts.append(z)
    if 0 in a:
        return tie_scenario(rng, i)
    h, off = rng.uniform(0.01, 3.0), rng.choice([0.0, 0.1, 0.7, 1.3])
    ent = []
    f = 1.0
    for z in [z * h + off for z in pts]:
        ent.append({"p": [z], "f": f, "g": [0.0]}); f += 1.0
    lo, hi = -L * h + off, L * h + off
    for z in (lo, hi, (lo + hi) / 2.0):
        ent.append({"p": [z], "f": f, "g": [0.0]}); f += 1.0
    run = {"params": {"iterations": 2, "population": n, "wait": 2, "tf": 1.0, "df": 0.5, "seed": gen.seed(rng), "solver": dict(gen.TR1)},
           "points": [[z * h + off] for z in pts], "ckpt": dict(CK)}
    run.update({"parallel": False} if rng.random() < 0.6 else {"batch": 2, "threads": 1})
    return {"id": i, "world": {"kind": "table", "bounds": [[lo, hi]], "entries": ent}, "runs": [run]}


def degenerate(rng, i):
    """Boxes so small that distances are equal or vanish, objectives with few values: ties everywhere"""
    d = rng.choice([1, 1, 2, 3])
    c = rng.choice([0.0, 1.0, -3.0, 1e16])
    ulp = math.ulp(c) if c else 5e-324
    w = [rng.choice([4, 9, 20, 50]) * ulp, 1e-200, 1e-160, 2.0]
    B = []
    for _ in range(d):
        x = rng.choice(w[:1] if c else w[:3]) if rng.random() < 0.85 else w[3]
        B.append([c, c + x] if rng.random() < 0.5 or c else [-x, x])
    lv = rng.choice([[0, 1], [0, 1, 2, 3], ["nan", 0, 1, 2], ["inf", 0, 1], [0.0, -0.0, 1], [0]])
    n = rng.choice([4, 7, 12, 20, 30])
    run = {"params": {"iterations": rng.choice([n, max(1, n // 2)]), "population": n, "wait": rng.choice([1, 2, 3]), "tf": rng.choice([0.2, 1.5]),
                      "df": rng.choice([0.0, 0.1, 0.5]), "seed": gen.seed(rng),
                      "solver": rng.choice([{"type": "NelderMead", "max_iter": 5}, {"type": "COBYLA", "max_iter": 8, "initial_step_size": 0.25}])},
           "ckpt": dict(CK)}
    if rng.random() < 0.3:
        run["points"] = [[rng.choice([a, b, a + (b - a) / 4]) for a, b in B] for _ in range(rng.randint(1, 4))]
    run.update(gen.batch_opts(rng, None if rng.random() < 0.4 else True))
    return {"id": i, "world": {"kind": "hash", "seed": str(rng.randrange(2**40)), "levels": lv, "bounds": B}, "runs": [run]}


def base_scenario(rng, i, cobyla=False, ties=False):
    if rng.random() < (0.2 if ties else 0.08):
        return degenerate(rng, i)
    if ties and rng.random() < 0.3:
        return tie_scenario(rng, i)
    r = rng.random()
    if cobyla or r < 0.15:
        w = constrained(rng)
        solver = {"type": "COBYLA", "max_iter": rng.choice([20, 60]), "initial_step_size": rng.choice([0.3, 0.5, 1.0])}
    elif r < 0.35 and not cobyla:
        s = gen.table_scenario(rng, i, obs=0)
        s["runs"][0].pop("solo", None)
        return s
    else:
        w = wide(rng) if r < 0.75 else gen.basin_world(rng)
        solver = dict(rng.choice(gen.SOLVERS))
        solver["max_iter"] = rng.choice([4, 8, 20])
    n = rng.choice([4, 7, 12, 20, 25, 36, 50, 80])
    run = {"params": {"iterations": rng.choice([n, max(1, n // 2), rng.randint(1, n)]), "population": n,
                      "wait": rng.choice([1, 2, 3, 5, 10]), "tf": rng.choice([0.1, 0.2, 0.5, 1.5]),
                      "df": rng.choice([0.0, 0.1, 0.5, 0.75, 1.5]), "seed": gen.seed(rng), "solver": solver}, "ckpt": dict(CK)}
    if rng.random() < 0.5:
        run["tol"] = rng.choice([[1e-3, 0.0], [0.5, 0.0], [0.0, 0.1], [1e-4, 1e-4]])
    if rng.random() < 0.2:
        run["target"] = rng.choice([-2.0, -1.0, 0.0, 0.01, 1.0])
    if rng.random() < 0.3:
        run["excl"] = True
    if rng.random() < 0.3:
        m = rng.randint(1, 4) if rng.random() < 0.8 else rng.randint(100, 130)
        run["points"] = [[rng.uniform(a, b) for a, b in w["bounds"]] for _ in range(m)]
    run.update(gen.batch_opts(rng))
    return {"id": i, "world": w, "runs": [run]}


def variants_c19(rng, run):
    """(name, run, features, compare steps)"""
    from fam_observer import obs_variant
    base = {k: v for k, v in run.items() if k not in ("ckpt", "obs", "verbose")}
    out = [("plain", base, FULL)]
    def obs():
        o = obs_variant(rng)
        o["cb"] = rng.choice(["log", "log", "none", "default", "stage1", "stage2"])
        return o
    ck = {"freq": rng.choice([0, 1, 2, 3, 50]), "keep_all": rng.random() < 0.5, "auto_resume": rng.random() < 0.5}
    out.append(("observer", dict(base, obs=obs()), FULL))
    out.append(("observer both", dict(base, obs={"mode": "both", "freq": 1, "cb": "log", "timing": rng.random() < 0.5}), FULL))
    out.append(("checkpointing", dict(base, ckpt=ck), FULL))
    out.append(("all", dict(base, obs=obs(), ckpt=dict(CK), verbose=True), FULL))
    r = rng.random()
    if r < 0.3:
        out.append(("no checkpointing build", dict(base, verbose=True), "argmin,rayon"))
    elif r < 0.6:
        out.append(("progress bar build", base, "argmin,rayon,checkpointing,progress_bar"))
    else:
        out.append(("verbose", dict(base, verbose=True), FULL))
    return out


def variants_c10(rng, run):
    base = dict(run)
    base.pop("obs", None); base.pop("order", None); base.pop("first", None)
    out = [("first", base, FULL)]
    seq = base.get("parallel") is False or base.get("batch") == 1
    if not seq:
        b = base["batch"]
        for t in rng.sample([1, 2, 3, 4, 8], 2):
            out.append((f"{t} threads", dict(base, threads=t, jitter=rng.randrange(1, 2**31)), FULL))
        if rng.random() < 0.3:
            out.append(("progress bar build", dict(base, threads=rng.choice([1, 2, 8])), "argmin,rayon,checkpointing,progress_bar"))
        elif rng.random() < 0.3:
            out.append(("no checkpointing build", base, "argmin,rayon"))
    else:
        base.pop("threads", None); base.pop("batch", None)
        base["parallel"] = False
        out.append(("again", dict(base), FULL))
        alt = {k: v for k, v in base.items() if k != "parallel"}
        out.append(("parallel, batch 1", dict(alt, batch=1, threads=rng.choice([1, 2, 4, 8]), jitter=rng.randrange(1, 2**31)), FULL))
        out.append(("parallel, batch 0", dict(alt, batch=0, parallel=True, threads=rng.choice([2, 4])), FULL)) if rng.random() < 0.1 else None
        r = rng.random()
        if r < 0.4:
            out.append(("no rayon build", dict(base), "argmin,checkpointing"))
        elif r < 0.6:
            out.append(("minimal build", dict(base), "argmin"))
        elif r < 0.75:
            out.append(("progress bar build", dict(base), "argmin,rayon,checkpointing,progress_bar"))
    if rng.random() < 0.3:
        alt = dict(out[-1][1])
        out.append(("settings in another order", dict(alt, **gen.setting_order(rng, alt)), FULL))
    if seq:
        if run["params"]["solver"]["type"] == "COBYLA":
            out.append(("no argmin build", dict(base), "rayon,checkpointing"))
    return out


def build_all(fs):
    ths, errs = [], []
    def w(f):
        try:
            build(f)
        except Exception as e:
            errs.append(e)
    for f in fs:
        t = threading.Thread(target=w, args=(f,)); t.start(); ths.append(t)
    [t.join() for t in ths]
    if errs:
        raise errs[0]


def check(chk):
    pid = chk.pid
    chk.assumptions = ["builds without an optional feature are compared on what they can express (no rayon: sequential; no checkpointing: no checkpoint files)"]
    cfg = open(os.path.join(SPEC, "MCW.cfg")).read()
    cfgs = [cfg]
    if chk.thorough():
        cfgs.append(cfg.replace("BatchSize = 2", "BatchSize = 3").replace("{w1, w2}", "{w1, w2, w3}"))
        cfgs.append(cfg.replace("WaitC = 2", "WaitC = 1"))
        cfgs.append(cfg.replace("INVARIANTS", "PROPERTIES Finishes\nINVARIANTS").replace("NTrials = 3", "NTrials = 2"))
    for c in cfgs:
        r = tlc_model("MCW", c)
        chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    feats = [FULL, "argmin,rayon", "argmin,rayon,checkpointing,progress_bar"] if pid == "C19" else \
        [FULL, "argmin,rayon", "argmin,checkpointing", "argmin", "rayon,checkpointing", "argmin,rayon,checkpointing,progress_bar"]
    build_all(feats)
    for rnd in range(chk.n(1, 8)):
        groups, by = [], {f: [] for f in feats}
        for i in range(chk.n(450, 1200)):
            s = base_scenario(chk.rng, i, ties=pid == "C10")
            vs = (variants_c19 if pid == "C19" else variants_c10)(chk.rng, s["runs"][0])
            groups.append((s, vs))
            for k, (name, run, f) in enumerate(vs):
                by[f].append({"id": f"{i}.{k}", "world": s["world"], "runs": [strip(run, f)]})
        res = {}
        for f in feats:
            res.update(run_harness(build(f), by[f]))
        traces, info = [], {}
        for i, (s, vs) in enumerate(groups):
            rs = [res[f"{i}.{k}"] for k in range(len(vs))]
            for k, r in enumerate(rs):
                if "died" in r:
                    chk.violation(f"the process died or hung ({vs[k][0]}): {r['died']}", {"world": s["world"], "run": vs[k][1]})
            if any("died" in r for r in rs):
                continue
            ids = Ids()
            for k in range(1, len(vs)):
                a, b = rs[0]["runs"][0], rs[k]["runs"][0]
                sq = single(vs[0][1], vs[0][2]) and single(vs[k][1], vs[k][2])
                da, db = digest(a, ids, sq), digest(b, ids, sq)
                ok = "ok" in a and "ok" in b
                both_ck = bool(da["refs"]) and bool(db["refs"])
                freq1 = lambda v: (v[1].get("ckpt") or {}).get("freq") == 1 and (v[1].get("ckpt") or {}).get("keep_all") and "checkpointing" in v[2]
                steps = ok and (sq or (freq1(vs[0]) and freq1(vs[k])))
                tid = len(traces)
                # a run that fails half-way through a parallel batch may have evaluated more or less
                traces.append({"id": tid, "prop": pid, "a": da, "b": db, "cmpsteps": steps, "cmprefs": both_ck, "cmppts": ok})
                info[tid] = (s, vs[0], vs[k], a, b)
        rej, st = validate("TraceEquiv", "TraceEquiv.cfg", traces)
        chk.add("run_pairs_validated", len(traces))
        chk.add("recorded_runs_validated", len(traces))
        chk.add("runs_ending_in_error", sum(1 for t in traces if t["a"]["res"][0] != 1))
        chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
        for tid, whys in rej.items():
            s, va, vb, a, b = info[tid]
            chk.violation(f"{va[0]} vs {vb[0]}: " + "; ".join(w for _, w in whys),
                          {"world": s["world"], "a": va[1], "b": vb[1], "features": [va[2], vb[2]], "results": [a, b]})
        if rnd == 0:
            chk.sample({"group": [groups[0][0]["world"], [v[:2] for v in groups[0][1]]]})
    return chk.finish()
