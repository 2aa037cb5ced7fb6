"""Failing user functions C23 (MCFaults, TraceFaults)."""
import math
from common import *
import gen, stage2
import fam_stage2

fl = stage2.fl
SOLVERS = {
    "COBYLA": [{"type": "COBYLA", "max_iter": 6}, {"type": "COBYLA", "max_iter": 15}],
    "NelderMead": [{"type": "NelderMead", "max_iter": 4}, {"type": "NelderMead", "max_iter": 8}],
    "LBFGS": [{"type": "LBFGS", "max_iter": 3}, {"type": "LBFGS", "max_iter": 6}],
    "TrustRegion": [{"type": "TrustRegion", "max_iter": 3}, {"type": "TrustRegion", "method": "steihaug", "max_iter": 3}],
    "SteepestDescent": [{"type": "SteepestDescent", "max_iter": 2}],
    "NewtonCG": [{"type": "NewtonCG", "max_iter": 2}],
}
FRAGILE = ("SteepestDescent", "NewtonCG")     # fail by themselves at a stationary point
WORLDS = [("sixhump", 2), ("rosen", 2), ("styb", 2), ("rastrigin", 2), ("ellipsoid", 3), ("styb", 1), ("sphere", 2)]


def base(rng, i):
    t = rng.choice(list(SOLVERS))
    if rng.random() < 0.7:
        n, dim = rng.choice(WORLDS)
        w = {"kind": "named", "name": n, "bounds": [[-3.1, 2.9]] * dim}
    else:
        w = dict(gen.basin_world(rng))
    w["cap"] = "20000"
    dim = len(w["bounds"])
    if t == "COBYLA" and rng.random() < 0.3:
        w["cons"] = [{"t": "lin", "a": [rng.choice([-1.0, 0.5]) for _ in range(dim)], "b": 4.0}]
    pop = rng.randint(4, 9)
    sv = dict(rng.choice(SOLVERS[t]))
    run = {"params": {"iterations": rng.choice([pop, pop, rng.randint(1, pop)]), "population": pop, "wait": rng.choice([1, 1, 1, 2, 20]), "tf": rng.choice([1.0, 5.0, 50.0]), "df": rng.choice([0.0, 0.0, 0.1, 0.5]),
                      "solver": sv, "seed": str(rng.randrange(2**40))}}
    if rng.random() < 0.4:
        run["points"] = [[rng.uniform(float(b[0]), float(b[1])) for b in w["bounds"]] for _ in range(rng.randint(1, 3))]
    par = rng.random() < 0.4
    run["parallel"] = par
    if par:
        run["batch"] = rng.choice([1, 2, 3, 8])
        run["threads"] = rng.choice([1, 2, 4])
    if rng.random() < 0.3:
        run["obs"] = {"cb": "none", "freq": 1}
    if rng.random() < 0.15:
        run["verbose"] = True
    return {"id": i, "world": w, "runs": [run], "alg": t}


def translate(tid, s, r, m, n1, base_ids, ids):
    """One judged run."""
    run, out = s["runs"][-1], r
    alg = s["alg"]
    ev, k = [], 0
    good = {}
    for e in out["log"]["ev"]:
        if e[0] > 2:
            continue
        failed = e[2] == "err" if e[0] == 0 else e[2] is None
        if e[0] == 0:
            k += 1
        ctx = 3 if s["resumed"] else (1 if k <= m else 2 if k <= n1 else 3)
        if e[0] != 0:
            ctx = 3
        p = tuple(repr(fl(x)) for x in out["log"]["pts"][e[1]])
        ev.append([e[0], ctx, 0 if failed else 1, ids.setdefault((e[0], p), len(ids) + 1)])
        if e[0] == 0 and not failed:
            good.setdefault(repr(fl(e[2])), []).append([fl(x) for x in out["log"]["pts"][e[1]]])
    t = "panic" if "panic" in out else "ok" if "ok" in out else out["err"]["e"]["variant"]
    sset = []
    for p, v in out.get("ok", []):
        q = [fl(x) for x in p]
        tol = 1e-9 if alg == "COBYLA" else 0.0
        c = good.get(repr(fl(v)), [])
        hit = any(all(abs(a - b) <= tol * (1 + abs(b)) or (math.isnan(a) and math.isnan(b)) for a, b in zip(x, q)) for x in c)
        sset.append(hit or (alg == "COBYLA" and fl(v) == math.inf) or s["resumed"])
    return {"id": tid, "alg": alg, "resumed": s["resumed"], "par": bool(run.get("parallel", True)), "fragile": alg in FRAGILE, "ev": ev, "out": t, "set": sset,
            "base": base_ids or [], "nobase": base_ids is None}


def check(chk):
    chk.assumptions = ["argmin's L-BFGS ends at its best point so far when a line search fails", "process-level failures (abort) are out of scope",
                       "steepest descent and Newton-CG may fail by themselves at a stationary point"]
    cfg = open(os.path.join(SPEC, "MCFaults.cfg")).read()
    r = tlc_model("MCFaults", cfg.replace("Len1 = 3", "Len1 = 4").replace("BatchSize = 2", "BatchSize = 3").replace("Batches = 2", "Batches = 3") if chk.thorough() else cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    rng = chk.rng
    for rnd in range(chk.n(1, 8)):
        bs = [base(rng, i) for i in range(chk.n(400, 600))]
        ss = run_harness(binary, [{"id": s["id"], "world": s["world"], "params": s["runs"][0]["params"], "points": s["runs"][0].get("points"),
                                   "parallel": False} for s in bs], mode="scatter", timeout=20, chunk=10)
        r0 = run_harness(binary, bs, timeout=20, chunk=5)
        scen, meta = [], []
        for s in bs:
            a, b = ss[s["id"]], r0[s["id"]]
            if "died" in a or "died" in b or "calls" not in a.get("full", {}):
                chk.violation("an undisturbed run died or failed in Stage 1", {"scenario": s, "scatter": a, "run": b}); continue
            out = b["runs"][0]
            m, n1 = len(a["init_calls"]), len(a["full"]["calls"])
            cnt = [int(x) for x in out["counts"][:3]]
            ids = {}
            s0 = dict(s, resumed=False)
            tr = translate(0, s0, out, m, n1, None, ids)
            basei = [e[3] for e in tr["ev"]]
            if "ok" not in out and s["alg"] not in FRAGILE:
                chk.violation("an undisturbed run failed", {"scenario": s, "result": {k: v for k, v in out.items() if k in ("err", "panic")}}); continue
            faults = []
            pts = [1, 2, m - 1, m, m + 1, n1 - 1, n1, n1 + 1, n1 + 2, n1 + 3, cnt[0] - 1, cnt[0]] + [rng.randint(1, max(1, cnt[0])) for _ in range(3)] + \
                  [rng.randint(n1 + 1, max(n1 + 1, cnt[0])) for _ in range(3)]
            for n in sorted({n for n in pts if 1 <= n <= cnt[0]}):
                f = {"kind": "obj", "n": n, "how": "err"}
                if rng.random() < 0.25:
                    f["upto"] = str(n + rng.choice([1, 3, 10**6]))
                faults.append((f, {}))
            for k, name in ((1, "grad"), (2, "hess")):
                for n in sorted({n for n in [1, 2, 3, cnt[k], rng.randint(1, max(1, cnt[k]))] if 1 <= n <= cnt[k]}):
                    faults.append(({"kind": name, "n": n, "how": "err"}, {}))
            if cnt[1] or cnt[2]:
                faults.append((None, {"derivs": 0}))
                faults.append((None, {"derivs": 1}))
            for f, wd in faults:
                run = dict(s["runs"][0])
                if f:
                    run["fault"] = f
                scen.append({"id": len(scen), "world": dict(s["world"], **wd), "runs": [run], "alg": s["alg"], "resumed": False})
                meta.append((m, n1, basei if not wd else None, ids))
            # interrupted, then resumed with a failure
            if rng.random() < 0.6 and cnt[0] > n1 + 2:
                for _ in range(3):
                    first = dict(s["runs"][0], ckpt={"freq": 1, "keep_all": rng.random() < 0.5}, log=False,
                                 fault={"kind": "obj", "n": rng.randint((n1 + 1 + cnt[0]) // 2, cnt[0]), "how": "panic"})
                    k = rng.choice(["obj", "obj", "obj", "any", "grad", "hess"])
                    second = dict(s["runs"][0], ckpt=first["ckpt"], dump=False, fault={"kind": k, "n": rng.choice([1, 1, 2, 3, 5, 9, 20]), "how": "err"})
                    scen.append({"id": len(scen), "world": s["world"], "runs": [first, second], "alg": s["alg"], "resumed": True})
                    meta.append((m, n1, None, {}))
        res = run_harness(binary, scen, timeout=20, chunk=20)
        trs = []
        for s, (m, n1, basei, ids) in zip(scen, meta):
            r = res[s["id"]]
            if "died" in r or "harness_panic" in r:
                chk.violation("a run with a failing function died or hung: " + str(r)[:200], {"scenario": s}); continue
            out = r["runs"][-1]
            if s["resumed"]:
                # without a checkpoint (interrupted before the first one) the run starts from scratch
                if "panic" not in r["runs"][0]:
                    continue
                if not any("ck" in c for c in r["runs"][0].get("cks", [])):
                    s = dict(s, resumed=False)
            try:
                trs.append(translate(s["id"], s, out, m, n1, basei, ids))
            except Exception as e:
                chk.violation("malformed result: %r" % e, {"scenario": s, "result": out})
        rej, st = validate("TraceFaults", "TraceFaults.cfg", trs, parts=4)
        chk.add("recorded_runs_validated", len(trs))
        chk.add("failures_injected", sum(1 for t in trs for e in t["ev"] if not e[2]))
        for t in trs:
            bad = [e for e in t["ev"] if not e[2]]
            if bad:
                chk.add("first_failure_in_" + ("resumed" if t["resumed"] else ["", "reference_set", "trial_points", "local_search"][bad[0][1]]))
            chk.add("outcome_" + t["out"])
        chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
        for i, whys in rej.items():
            chk.violation("; ".join(w for _, w in whys), {"scenario": scen[i], "meta": meta[i][:2], "result": {k: v for k, v in res[i]["runs"][-1].items() if k in ("ok", "err", "panic", "log")}})
        if rnd == 0 and scen:
            chk.sample({"scenario": scen[0]})
    return chk.finish()
