"""Local search properties C20, C21 (MCLocal, TraceLocal)."""
import math
from common import *
import gen, stage2
import fam_stage2

EPS = 2.0 ** -52
SQ = math.sqrt(EPS)
NOVAL, INFR, ERR = 1000000, 900000, -1
MT = {"t": "mt", "c1": 1e-4, "c2": 0.9, "width_tolerance": 1e-10, "bounds": [SQ, "inf"]}
HZ = {"t": "hz", "delta": 0.1, "sigma": 0.9, "epsilon": 1e-6, "theta": 0.5, "gamma": 0.66, "eta": 0.01, "bounds": [EPS, 1e5]}
# the documented defaults
DEFAULTS = {
    "LBFGS": {"max_iter": 300, "tolerance_grad": SQ, "tolerance_cost": EPS, "history_size": 10, "l1_coefficient": None, "ls": MT},
    "NelderMead": {"simplex_delta": 0.1, "sd_tolerance": EPS, "max_iter": 300, "alpha": 1.0, "gamma": 2.0, "rho": 0.5, "sigma": 0.5},
    "SteepestDescent": {"max_iter": 300, "ls": MT},
    "TrustRegion": {"method": "cauchy", "max_iter": 300, "radius": 1.0, "max_radius": 100.0, "eta": 0.125},
    "NewtonCG": {"max_iter": 300, "curvature_threshold": 0.0, "tolerance": EPS, "ls": MT},
    "COBYLA": {"max_iter": 300, "initial_step_size": 0.5, "ftol_rel": 1e-6, "ftol_abs": 1e-8, "xtol_rel": 0.0, "xtol_abs": []},
}
# values that make a difference, and (after None) values the algorithm may reject
VALUES = {
    "max_iter": [1, 2, 3, 5, 8, 12, 20, None, 0],
    "tolerance_grad": [1e-8, 1e-3, 0.1, 0.5, 2.0, None, -1.0, 0.0, "nan"],
    "tolerance_cost": [1e-12, 1e-3, 0.1, 1.0, None, -1.0, 0.0, "nan"],
    "history_size": [1, 2, 3, 5, 10],
    "l1_coefficient": [None, 0.1, 0.5, 2.0],
    "l1_bad": [0.0, -1.0],
    "simplex_delta": [0.1, 0.5, 1.0, -0.3, 0.01, None, 0.0],
    "sd_tolerance": [1e-10, 1e-3, 0.1, 1.0, 0.0, None, -1.0, "nan"],
    "alpha": [1.0, 0.5, 1.5, None, 0.0, -1.0],
    "nm_gamma": [2.0, 1.5, 3.0, None, 1.0, 0.5],
    "rho": [0.5, 0.25, 0.1, None, 0.0, 0.7, -0.1],
    "nm_sigma": [0.5, 0.25, 0.9, None, 0.0, 1.5],
    "method": ["cauchy", "steihaug"],
    "radius": [1.0, 0.1, 0.5, 3.0, 20.0, None, 0.0, -1.0],
    "max_radius": [100.0, 0.2, 1.0, 2.0, None, 0.0, -2.0],
    "eta": [0.125, 0.0, 0.2, 0.24, None, 0.25, -0.1],
    "curvature_threshold": [0.0, 1.0, 5.0, 20.0, 0.01],
    "tolerance": [1e-10, 1e-3, 0.1, 1.0, None, 0.0, -1.0],
    "initial_step_size": [0.5, 0.1, 1.0, 2.0, 0.05],
    "ftol_rel": [1e-6, 1e-2, 0.1, 0.5, 0.0],
    "ftol_abs": [1e-8, 1e-2, 0.1, 1.0, 0.0],
    "xtol_rel": [0.0, 1e-2, 0.1, 0.5],
}
LS = {
    "mt": {"c1": [1e-4, 0.1, 0.4, 1e-2, None, 0.95, 0.0, -1.0], "c2": [0.9, 0.5, 0.2, 0.6, None, 1.0, 1.5], "width_tolerance": [1e-10, 0.1, 0.5, 1.0, None, -1.0],
           "bounds": [[SQ, "inf"], [0.01, 1.0], [0.5, 2.0], [0.1, 0.2], None, [2.0, 1.0], [-1.0, 1.0], [0.5, 0.5]]},
    "hz": {"delta": [0.1, 0.3, 0.45, 0.01, None, 0.0, 0.95, 1.5], "sigma": [0.9, 0.5, 0.46, None, 1.0, 1.5], "epsilon": [1e-6, 0.1, 1.0, None, -1.0], "theta": [0.5, 0.05, 0.95, 0.2, None, 0.0, 1.0],
           "gamma": [0.66, 0.1, 0.97, 0.3, None, 0.0, 1.0], "eta": [0.01, 0.5, 2.0, None, 0.0, -1.0], "bounds": [[EPS, 1e5], [0.01, 1.0], [0.5, 2.0], [1e-3, 0.1], None, [2.0, 1.0], [-1.0, 1.0]]},
}
FIELDKEY = {("NelderMead", "gamma"): "nm_gamma", ("NelderMead", "sigma"): "nm_sigma"}


def pick(rng, vs, bad=False):
    if None in vs and vs[0] is not None:
        i = vs.index(None)
        good, rej = vs[:i], vs[i + 1:]
        return rng.choice(rej) if bad else rng.choice(good)
    return rng.choice(vs)


def rejects(t, k):
    if k == "l1_coefficient":
        return True
    vs = VALUES.get(FIELDKEY.get((t, k), k), [])
    return None in vs


def ls_config(rng, bad=None, t=None):
    t = t or rng.choice(["mt", "hz"])
    base = dict(MT if t == "mt" else HZ)
    out = {"t": t}
    r = rng.random()
    if r < 0.2:
        out["ctor"] = {k: pick(rng, LS[t][k]) for k in base if k != "t"}
        base.update(out["ctor"])
    elif r < 0.3:
        out["ctor"] = "facade"
    keys = [k for k in base if k != "t"]
    calls = [[k, pick(rng, LS[t][k])] for k in (rng.choice(keys) for _ in range(rng.choice([0, 1, 1, 2, 4, 7])))]
    if bad:
        calls.append([bad, pick(rng, LS[t][bad], True)])
    out["set"] = calls
    for k, v in calls:
        base[k] = v
    return out, base


def config(rng, t, dim, bad=False, iters=True, only_ls=False):
    """(JSON for the builders, resolved configuration, start fields, calls); with `bad` one value the algorithm may reject"""
    d = DEFAULTS[t]
    def val(k, bad=None):
        if k == "ls":
            return ls_config(rng, *(bad or ()))
        if k == "xtol_abs":
            v = rng.choice([[], [1e-2] * dim, [0.5] * dim, [rng.choice([1e-3, 1.0]) for _ in range(dim)]])
        elif k == "l1_coefficient":
            v = rng.choice([0.0, -1.0]) if bad else rng.choice([None, None, 0.1, 0.5, 2.0])
        else:
            v = pick(rng, VALUES[FIELDKEY.get((t, k), k)], bool(bad))
        return v, v
    out = {"type": t}
    full = {k: v for k, v in d.items()}
    r = rng.random()
    if r < 0.2:
        ctor = {}
        keys = ["max_iter", "initial_step_size"] if t == "COBYLA" else list(d)
        for k in keys:
            j, v = val(k)
            ctor[k] = j
            full[k] = v
        out["ctor"] = ctor
    elif r < 0.35:
        out["ctor"] = "facade"
    start = dict(full)
    calls = []
    ks = [rng.choice(list(d)) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
    if only_ls and "ls" in d:
        ks = ["ls"]
    if iters and "max_iter" not in ks:
        ks.insert(rng.randint(0, len(ks)), "max_iter")
    ks = [(k, None) for k in ks]
    if bad:
        opts = [(k, True) for k in d if rejects(t, k)]
        if "ls" in d:
            opts += [("ls", (q, l)) for l in LS for q in LS[l]]
        if opts:
            ks.append(rng.choice(opts))
    setters = []
    for k, b in ks:
        j, v = val(k, b)
        setters.append([k, j])
        calls.append((k, v))
        full[k] = v
    out["set"] = setters
    return out, full, start, calls


WORLDS = [("sixhump", 2), ("rosen", 2), ("rosen", 3), ("sphere", 1), ("sphere", 3), ("ellipsoid", 2), ("ellipsoid", 4), ("styb", 2), ("well", 2),
          ("rastrigin", 2), ("slope", 2), ("const", 2), ("abs", 2), ("quartic", 1)]
HARD = [("rastrigin", 1), ("rastrigin", 2), ("rosen", 2), ("sixhump", 2), ("styb", 1)]
TYPES = list(DEFAULTS)


def scenario(rng, i, t=None):
    t = t or rng.choice(TYPES)
    r = rng.random()
    if r < 0.75 or (r >= 0.95 and t == "NewtonCG"):
        # argmin's Newton-CG does not return on undefined values
        n, dim = rng.choice(WORLDS)
        if rng.random() < 0.35:
            n, dim = rng.choice(HARD)   # line searches have to work here
        w = {"kind": "named", "name": n, "bounds": [[-3.0, 3.0]] * dim}
    elif r < 0.95:
        w = gen.basin_world(rng)
        w = dict(w, bounds=[list(map(float, b)) for b in w["bounds"]])
    else:
        w = {"kind": "hash", "seed": str(rng.randrange(2**40)), "levels": rng.choice([[0, 1, 2], ["nan", 1], ["inf", 0, 3], ["nan"], ["-inf", 1]]),
             "bounds": [[-2.0, 2.0]] * rng.choice([1, 2])}
    dim = len(w["bounds"])
    w["cap"] = "250"
    if rng.random() < 0.1:
        w["derivs"] = rng.choice([0, 0, 1])
    if t == "COBYLA" and rng.random() < 0.4:
        w["cons"] = [{"t": "lin", "a": [rng.choice([-1.0, 1.0, 0.5]) for _ in range(dim)], "b": rng.choice([0.0, 0.5, 1.0])}]
        if rng.random() < 0.4:
            w["cons"].append({"t": "ball", "c": [0.0] * dim, "r2": rng.choice([1.0, 4.0])})
    sv, full, start, calls = config(rng, t, dim, bad=rng.random() < 0.15, only_ls=rng.random() < 0.3)
    s = {"id": i, "world": w, "solver": sv, "full": full, "from": start, "calls": calls,
         "start": [rng.choice([rng.uniform(-2.5, 2.5), rng.uniform(-2.5, 2.5), 0.0, 1.0, -3.0]) for _ in range(dim)]}
    if rng.random() < 0.12:
        s["fault"] = {"kind": rng.choice(["obj", "grad", "hess", "any"]), "n": rng.choice([1, 2, 3, 5, 9, 20]), "how": rng.choice(["err", "err", "nan", "inf"])}
        if t == "NewtonCG":
            s["fault"]["how"] = "err"
        if rng.random() < 0.3:
            s["fault"]["upto"] = "100000"
    if rng.random() < 0.04:
        # configuration of another solver
        o = rng.choice([x for x in TYPES if x != t])
        c, f2, _, _ = config(rng, o, dim)
        c["config_type"], c["type"] = o, t
        s.update(solver=c, mismatch=True, full=None)
    return s


INVALID = {"LBFGS": "InvalidLBFGSConfig", "NelderMead": "InvalidNelderMeadConfig", "SteepestDescent": "InvalidSteepestDescentConfig",
           "TrustRegion": "InvalidTrustRegionConfig", "NewtonCG": "InvalidNewtonCG", "COBYLA": "InvalidCOBYLAConfig"}


def flat(c, t):
    out = {}
    for k, v in c.items():
        if k == "ls":
            for a, b in v.items():
                out["ls." + a] = b
        else:
            out[k] = v
    return out


def translate(tid, s, r):
    t = s["solver"]["type"]
    fl = stage2.fl
    a, b, ref = r["tracked"], r["plain"], r.get("ref")
    pid, vals = {}, set()
    def P(p):
        k = tuple(fl(x).hex() if not math.isnan(fl(x)) else "nan" for x in p)
        return pid.setdefault(k, len(pid) + 1)
    seqs = [x["ev"] for x in (a, b, ref) if x is not None]
    for q in seqs:
        for k, p, v in q:
            if k == 0 and v != "err" and math.isfinite(fl(v)):
                vals.add(fl(v))
    for x in (a, b, ref):
        if x is not None and "objective" in x and math.isfinite(fl(x["objective"])):
            vals.add(fl(x["objective"]))
    rk = {}
    for v in sorted(vals):      # -0.0 and 0.0 are one key
        rk[v] = len(rk) + 1
    def R(v):
        v = fl(v)
        if math.isnan(v):
            return NOVAL
        if math.isinf(v):
            return INFR if v > 0 else 0
        return rk[v]
    derivs = s["world"].get("derivs", 2)
    def ev(x):
        out = []
        for k, p, v in x["ev"]:
            out.append([k, P(p), ERR if v == "err" else R(v) if k == 0 else 0])
        return out
    def out(x, isref=False):
        if "panic" in x:
            # argmin itself panics when a vertex of the first simplex cannot be evaluated
            if isref and t == "NelderMead" and x["ev"] and x["ev"][-1][2] == "err":
                return {"t": "RunFailed"}
            return {"t": "panic"}
        if "err" in x:
            e = x["err"]
            if isref:
                e = INVALID[t] if e == "config" else "RunFailed"
            elif e == "NoSolution":
                e = "RunFailed"
            return {"t": e}
        o = {"t": "ok", "x": P(x["point"]), "v": R(x["objective"])}
        o["p"] = o["x"]
        if t == "COBYLA":
            # COBYLA adds its steps up differently: the point returned may differ from the evaluated one by rounding
            q = [fl(c) for c in x["point"]]
            for k, p, v in x["ev"]:
                if k == 0 and (INFR if v == "err" else R(v)) == o["v"] and all(abs(fl(a) - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(p, q)):
                    o["p"] = P(p)
                    break
        return o
    tr = {"id": tid, "alg": t, "x0": P(s["start"]), "ev": ev(a), "plain": ev(b), "ref": ev(ref) if ref else [], "noref": ref is None,
          "out": out(a), "outp": out(b), "outr": out(ref, True) if ref else {"t": "none"}, "count": a.get("count", 0),
          "l1": False, "gen1": True, "nocfg": False, "cfg": [], "cfg0": [], "calls": []}
    # derivative calls that failed end the search too
    if s.get("mismatch"):
        tr["nocfg"] = True
        tr["noref"] = False
        tr["ref"] = []
        tr["outr"] = {"t": INVALID[t]}
        return tr
    full = s["full"]
    if t == "LBFGS" and full.get("l1_coefficient"):
        tr["l1"] = True
        if tr["out"]["t"] == "ok":
            p = tuple(fl(x) for x in a["point"])
            fs = [fl(v) for k, q, v in a["ev"] if k == 0 and v != "err" and tuple(fl(x) for x in q) == p]
            w = full["l1_coefficient"] * sum(abs(x) for x in p)
            o = fl(a["objective"])
            tr["gen1"] = any((math.isnan(f) and math.isnan(o)) or f + w == o or abs(f + w - o) <= 1e-9 * (1 + abs(o)) for f in fs)
    # the configuration as built, field by field
    if "config" in a:
        got = flat(a["config"], t)
        start = flat(s["from"], t)
        ids = {}
        def I(v):
            k = json.dumps(v if not isinstance(v, int) or isinstance(v, bool) else float(v)) if not isinstance(v, list) else json.dumps([x if isinstance(x, str) else float(x) for x in v])
            return ids.setdefault(k, len(ids) + 1)
        end = flat(full, t)
        # replacing the line search replaces all of its fields
        keys = sorted(set(got) | set(end) | set(start))
        keys = [k for k in keys if k != "type"]
        ix = {k: i + 1 for i, k in enumerate(keys)}
        tr["cfg"] = [I(got.get(k, "absent")) for k in keys]
        tr["cfg0"] = [I(start.get(k, "absent")) for k in keys]
        calls = []
        for k, v in s["calls"]:
            if k == "ls":
                f = flat({"ls": v}, t)
                calls += [[ix[q], I(f.get(q, "absent"))] for q in keys if q.startswith("ls.")]
            else:
                calls.append([ix[k], I(v)])
        tr["calls"] = calls
    else:
        tr["nocfg"] = True
    return tr


def _tr(a):
    i, s, r = a
    try:
        return i, translate(i, s, r), None
    except Exception:
        import traceback
        return i, None, "malformed: " + traceback.format_exc()[-500:]


def judge(chk, binary, scen):
    res = run_harness(binary, scen, mode="local", timeout=3, chunk=20)
    args = []
    # does the algorithm itself not return on these?
    dead = [s for s in scen if "died" in res[s["id"]]]
    own = run_harness(binary, [dict(s, only_ref=True) for s in dead if s.get("full")], mode="local", timeout=4, chunk=1)
    again = run_harness(binary, [s for s in dead if "died" not in own.get(s["id"], {})][:16], mode="local", timeout=15, chunk=1)
    for i, s in enumerate(scen):
        r = res[s["id"]]
        if "died" in r:
            if "died" in own.get(s["id"], {}):
                chk.add("algorithm_itself_does_not_return")
                continue
            r = again.get(s["id"], {"died": "not run again"})
            if "died" in r:
                chk.violation("the local search died or hung: " + r["died"], {"scenario": s})
                continue
        args.append((i, s, r))
    trs = []
    for i, tr, why in fam_stage2.pool_map(_tr, args):
        if tr is None:
            chk.violation("local search cannot be observed: " + why, {"scenario": scen[i], "result": res[scen[i]["id"]]})
        else:
            trs.append(tr)
    rej, st = validate("TraceLocal", "TraceLocal.cfg", trs, parts=4)
    chk.add("recorded_runs_validated", len(trs))
    chk.add("calls_validated", sum(len(t["ev"]) for t in trs))
    for k in ("ok", "RunFailed"):
        chk.add("outcome_" + k, sum(1 for t in trs if t["out"]["t"] == k))
    chk.add("outcome_config_error", sum(1 for t in trs if t["out"]["t"].startswith("Invalid")))
    chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    for i, whys in rej.items():
        mine = sorted({w for p, w in whys if p == chk.pid})
        if mine:
            chk.violation("recorded local search rejected by TraceLocal: " + "; ".join(mine), {"scenario": scen[i], "result": res[scen[i]["id"]]})


def check(chk):
    chk.assumptions = ["the algorithms are those of argmin and cobyla at the locked versions",
                       "an algorithm that does not terminate by itself is cut off after 250 calls of the problem"]
    cfg = open(os.path.join(SPEC, "MCLocal.cfg")).read()
    r = tlc_model("MCLocal", cfg.replace("MaxCalls = 3", "MaxCalls = 4") if chk.thorough() else cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    for k in range(chk.n(1, 8)):
        scen = [scenario(chk.rng, i) for i in range(chk.n(4000, 5000))]
        judge(chk, binary, scen)
        if k == 0:
            chk.sample({"scenario": scen[0]})
    return chk.finish()
