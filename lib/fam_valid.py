"""Input validation C22 (MCValidation, TraceValidation)."""
import math, re
from common import *
import stage2
import fam_stage2

fl = stage2.fl
BOUNDS = {
    "ok": [[-1.0, 1.0], [-2.0, 3.0], [0.0, 1.0], [-5.0, -4.0]],
    "soft": [[-8e307, 8e307], [1.0, 1.0000000000000002], [0.0, 5e-324], [-1e-310, 1e-310], [1e300, 1.5e300], [-1e16, -1e16 + 2], [0.0, 1.7e308]],
    "rev": [[1.0, -1.0], [0.0, -5e-324], ["inf", "-inf"], [3.0, 2.9999999999999996], [0.0, "-inf"], ["inf", 0.0]],
    "eq": [[1.0, 1.0], [0.0, 0.0], [-0.0, 0.0], [0.0, -0.0], ["inf", "inf"], ["-inf", "-inf"], [1e308, 1e308]],
    "nan": [["nan", 1.0], [0.0, "nan"], ["nan", "nan"], ["-nan", 1.0], ["nan", "inf"]],
    "inf": [[0.0, "inf"], ["-inf", 0.0], ["-inf", "inf"]],
    "wide": [[-1e308, 1e308], [-1.7976931348623157e308, 1.7976931348623157e308], [-9e307, 9e307]],
}
TF = {"pos": [0.2, 1.0, 1e-300, 5e-324, 1e308, "inf", 100.0], "zero": [0.0, -0.0], "neg": [-0.2, -5e-324, "-inf", -1e308], "nan": ["nan", "-nan"]}
SOLVERS = [{"type": "COBYLA", "max_iter": 5}, {"type": "NelderMead", "max_iter": 3}, {"type": "LBFGS", "max_iter": 3},
           {"type": "TrustRegion", "max_iter": 2}]


def bclass(b):
    lo, hi = fl(b[0]), fl(b[1])
    if math.isnan(lo) or math.isnan(hi):
        return "nan"
    if lo == hi:
        return "eq"
    if lo > hi:
        return "rev"
    if math.isinf(lo) or math.isinf(hi):
        return "inf"
    return "ok" if math.isfinite(hi - lo) else "wide"


def pclass(p, bounds):
    if len(p) != len(bounds):
        return "dim"
    return "in" if all(fl(b[0]) <= fl(x) <= fl(b[1]) for x, b in zip(p, bounds)) else "out"


def coord(rng, b, cls):
    lo, hi = fl(b[0]), fl(b[1])
    ok = [b[0], b[1]] + ([lo / 2 + hi / 2] if math.isfinite(lo) and math.isfinite(hi) else [0.0, 1.0, -1.0])
    if cls == "in":
        c = [v for v in ok if lo <= fl(v) <= hi]
        return rng.choice(c) if c else 0.0
    bad = ["nan", "-nan", "inf", "-inf", 1e308, -1e308]
    if math.isfinite(lo):
        bad += [math.nextafter(lo, -math.inf), lo - 1.0]
    if math.isfinite(hi):
        bad += [math.nextafter(hi, math.inf), hi + 1.0]
    bad = [v for v in bad if not lo <= fl(v) <= hi]
    return enc(rng.choice(bad))


def enc(v):
    if isinstance(v, float) and not math.isfinite(v):
        return "nan" if math.isnan(v) else "inf" if v > 0 else "-inf"
    return v


def concretise(rng, i, a, soft):
    """A concrete input of the abstract shape `a` (classes are recomputed from the concrete values)."""
    bounds = [rng.choice(BOUNDS["soft"] if c == "ok" and soft and rng.random() < 0.5 else BOUNDS[c]) for c in a["bounds"]]
    dim = len(bounds)
    pts = []
    if a["pts"]:
        n = rng.choice([0, dim + 1, max(0, dim - 1), dim + 3]) if "dim" in a["pts"] else dim
        for c in a["pts"]:
            if n != dim:
                pts.append([rng.choice([0.0, 0.5, "nan", 1e9]) for _ in range(n)])
            else:
                p = [coord(rng, b, "in") for b in bounds]
                if c == "out":
                    k = rng.randrange(dim)
                    p[k] = coord(rng, bounds[k], "out")
                pts.append(p)
    run = {"params": {"iterations": a["iters"], "population": a["pop"], "wait": rng.choice([0, 1, 5, 10**6]), "tf": rng.choice(TF[a["tf"]]), "df": rng.choice(TF[a["df"]]),
                      "solver": rng.choice(SOLVERS), "seed": str(rng.choice([0, 1, 2**64 - 1, rng.randrange(2**40)]))},
           "log": False}
    if a["pts"] or rng.random() < 0.2:
        run["points"], run["ncols"] = pts, len(pts[0]) if pts else dim
    if a["ck"] == "file":
        run["fs"] = [{"op": "write", "p": "ck", "data": "x"}]
    if a["ck"] != "none":
        run["ckpt"] = {"dir": "ck/sub" if a["ck"] == "file" else "ck", "freq": rng.choice([0, 0, 1, 3, 10**6, 2**63]), "keep_all": rng.random() < 0.5}
        run["dump"] = False
    # settings that have to be harmless
    if rng.random() < 0.6:
        run["batch"] = rng.choice([0, 0, 1, 2, 1000, 2**63])
    if rng.random() < 0.5:
        run["parallel"] = rng.random() < 0.5
    if rng.random() < 0.5:
        run["obs"] = {"freq": rng.choice([0, 0, 1, 2, 2**63]), "cb": rng.choice(["log", "none"]), "timing": rng.random() < 0.5, "unique": rng.random() < 0.3}
    if rng.random() < 0.2:
        run["tol"] = [rng.choice([0.0, 1e-8, "inf"]), rng.choice([0.0, 1e-6, "inf"])]
    if rng.random() < 0.2:
        run["target"] = rng.choice(["nan", "inf", "-inf", 0.0])
    soft2 = soft and any(b not in BOUNDS["ok"] for b in bounds)
    w = {"kind": "named", "name": rng.choice(["sphere", "const", "slope"]) if soft2 else rng.choice(["sphere", "well", "const"]), "bounds": bounds}
    cls = {"pop": a["pop"], "iters": a["iters"], "tf": a["tf"], "df": a["df"], "pts": [pclass(p, bounds) for p in pts] if "points" in run else [],
           "bounds": [bclass(b) for b in bounds], "ck": a["ck"]}
    return {"id": i, "world": w, "runs": [run], "abstract": cls, "soft": soft2}


def outcome(r):
    if "panic" in r:
        return {"at": "panic", "e": "", "a": 0, "b": 0}
    if "ok" in r:
        return {"at": "ok", "e": "", "a": 0, "b": 0}
    e = r["err"]["e"]
    v, dbg = e["variant"], e["debug"]
    a = b = 0
    nums = [int(x) for x in re.findall(r"(?<![\w.])\d+(?![\w.])", dbg)]
    if v in ("InvalidPopulationSize", "CustomPointOutOfBounds"):
        a = nums[0]
    elif v == "InvalidIterations":
        a, b = nums[0], nums[1]
    elif v == "InvalidCustomPointsDimension":
        a = int(re.search(r"point_index: (\d+)", dbg).group(1)); b = int(re.search(r"expected: (\d+)", dbg).group(1))
    elif v in ("ScatterSearchError", "ScatterSearchRunError"):
        v = "ScatterSearchError"
    return {"at": r["err"]["at"], "e": v, "a": a, "b": b}


def abstract_inputs(thorough):
    cfg = open(os.path.join(SPEC, "MCValidation.cfg")).read()
    cfg = cfg.replace("Emit = FALSE", "Emit = TRUE").split("PROPERTIES")[0] + "CHECK_DEADLOCK FALSE\n"
    r = tlc("MCValidation", cfg)
    if not r["ok"]:
        raise ToolError("MCValidation cannot generate: " + r["out"][-1500:])
    seen, out = set(), []
    for rec in printed_json(r["out"]):
        k = json.dumps(rec["i"], sort_keys=True)
        if k not in seen:
            seen.add(k); out.append(rec["i"])
    out.sort(key=lambda i: json.dumps(i, sort_keys=True))
    # the coordinates of one matrix have one length
    return [i for i in out if len(set(p == "dim" for p in i["pts"])) <= 1]


def check(chk):
    chk.assumptions = ["user points given as a matrix have one common length"]
    cfg = open(os.path.join(SPEC, "MCValidation.cfg")).read()
    r = tlc_model("MCValidation", cfg.replace("MaxPts = 2", "MaxPts = 3").replace("{0, 1, 3, 4, 5}", "0..7") if chk.thorough() else cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    inputs = abstract_inputs(chk.thorough())
    chk.cov["abstract_inputs"] = len(inputs)
    rng = chk.rng
    binary = build()
    for k in range(chk.n(1, 20)):
        scen = []
        for a in inputs:
            scen.append(concretise(rng, len(scen), a, soft=False))
        ok = [a for a in inputs if a["tf"] == "pos" and a["pop"] >= a["iters"] and a["pop"] >= 4]
        for _ in range(chk.n(1000, 3000)):
            scen.append(concretise(rng, len(scen), rng.choice(ok if rng.random() < 0.7 else inputs), soft=rng.random() < 0.5))
        # valid in every respect, or invalid in exactly one
        for _ in range(chk.n(3000, 6000)):
            dim, pop = rng.choice([1, 1, 2, 3]), rng.randint(4, 12)
            a = {"pop": pop, "iters": rng.choice([0, 1, pop, rng.randint(0, pop)]), "tf": "pos", "df": rng.choice(["pos", "zero"]),
                 "pts": ["in"] * rng.choice([0, 0, 1, 2, 5]), "bounds": ["ok"] * dim, "ck": rng.choice(["none", "none", "ok"])}
            d = rng.choice([None, None, None, "pop", "iters", "tf", "df", "pts", "bounds", "ck"])
            if d == "pop":
                a["pop"] = rng.randint(0, 3); a["iters"] = rng.randint(0, a["pop"])
            elif d == "iters":
                a["iters"] = rng.choice([pop + 1, pop + 1, pop + 7, 10**9, 2**31 - 1])
            elif d == "tf":
                a["tf"] = rng.choice(["neg", "zero", "nan"])
            elif d == "df":
                a["df"] = rng.choice(["neg", "nan"])
            elif d == "pts":
                a["pts"] = ["in"] * rng.randint(1, 5)
                if rng.random() < 0.3:
                    a["pts"] = ["dim"] * len(a["pts"])
                else:
                    a["pts"][rng.randrange(len(a["pts"]))] = "out"
            elif d == "bounds":
                a["bounds"][rng.randrange(dim)] = rng.choice(["rev", "eq", "nan", "inf", "wide"])
                a["pts"] = []
            elif d == "ck":
                a["ck"] = "file"
            scen.append(concretise(rng, len(scen), a, soft=rng.random() < 0.2))
        res = run_harness(binary, scen, timeout=20, chunk=50)
        trs = []
        for s in scen:
            r = res[s["id"]]
            if "died" in r or "harness_panic" in r:
                chk.violation("the library died or hung: " + str(r), {"scenario": s}); continue
            trs.append({"id": s["id"], "i": s["abstract"], "soft": s["soft"], "out": outcome(r["runs"][0])})
        rej, st = validate("TraceValidation", "TraceValidation.cfg", trs, parts=2)
        chk.add("recorded_runs_validated", len(trs))
        chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
        for t in trs:
            chk.add("outcome_" + (t["out"]["e"] or t["out"]["at"]))
        for i, whys in rej.items():
            chk.violation("; ".join(w for _, w in whys), {"scenario": scen[i], "result": res[i]["runs"][0]})
        if k == 0:
            chk.sample({"scenario": scen[0]})
    return chk.finish()
