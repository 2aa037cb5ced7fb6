"""Python bindings C24 (MCPy, TracePy)."""
import copy, math, random
from common import *
import gen, stage2, fam_local, fam_valid

fl = stage2.fl
WORLDS = [("sixhump", 2), ("rosen", 2), ("styb", 2), ("rastrigin", 2), ("ellipsoid", 3), ("styb", 1), ("sphere", 2), ("well", 2), ("slope", 2), ("abs", 2), ("well", 1)]
NAMES = {"LBFGS": ["LBFGS", "lbfgs", "Lbfgs"], "NelderMead": ["NelderMead", "neldermead", "nelder-mead"], "SteepestDescent": ["SteepestDescent", "steepestdescent"],
         "TrustRegion": ["TrustRegion", "trustregion"], "NewtonCG": ["NewtonCG", "newtoncg", "newton-cg"], "COBYLA": ["COBYLA", "cobyla", "Cobyla"]}
CAP = 8000      # calls of the user's functions per optimisation


def cons(rng, d):
    out = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.5:
            out.append({"t": "lin", "a": [rng.choice([-1.0, 0.5, 1.0]) for _ in range(d)], "b": rng.choice([0.5, 1.5, 4.0])})
        else:
            out.append({"t": "ball" if r < 0.8 else "out", "c": [rng.choice([0.0, 0.5, -1.0]) for _ in range(d)], "r2": rng.choice([0.25, 1.0, 4.0, 9.0])})
    return out


def solver(rng, t, dim):
    """(configuration with explicit values, way of building it in Python)"""
    while True:
        _, full, _, _ = fam_local.config(rng, t, dim)
        if int(full["max_iter"]) <= 8:
            break
        if rng.random() < 0.2:
            break
    c = {"type": t}
    style = rng.choice(["class", "class", "func", "attrs"])
    for k, v in full.items():
        if style == "func" or k in ("initial_step_size", "max_iter") or rng.random() < 0.7:
            c[k] = v
    if t == "COBYLA" and not c.get("xtol_abs"):
        c.pop("xtol_abs", None)
    return c, style


def operation(rng, world=None, prob=None, small=False, default=True):
    t = rng.choice(list(NAMES)) if not (world and world.get("cons")) else "COBYLA"
    if world is None:
        r = rng.random()
        if r < 0.25:
            world = gen.basin_world(rng)
        else:
            n, dim = rng.choice(WORLDS)
            world = {"kind": "named", "name": n, "bounds": [[-2.9, 3.1]] * dim}
        if t == "COBYLA" and rng.random() < 0.6:
            world["cons"] = cons(rng, len(world["bounds"]))
        if t in ("COBYLA", "NelderMead") and rng.random() < 0.4:
            world["derivs"] = rng.choice([0, 1])
        if t in ("LBFGS", "SteepestDescent") and rng.random() < 0.4:
            world["derivs"] = 1
    elif "derivs" in world:
        t = rng.choice(["COBYLA", "NelderMead"]) if not world.get("cons") else "COBYLA"
    dim = len(world["bounds"])
    sv, style = solver(rng, t, dim)
    pop = rng.randint(3, 8 if small else 12)
    run = {"params": {"iterations": rng.choice([pop, pop, rng.randint(1, pop)]), "population": pop, "wait": rng.choice([1, 1, 2, 5, 20]), "tf": rng.choice([0.2, 1.0, 5.0, 50.0]),
                      "df": rng.choice([0.0, 0.1, 0.5, 0.75, 1.5]), "solver": sv, "seed": rng.choice(["0", str(rng.randrange(2**16)), str(rng.randrange(2**64)), str(2**64 - 1)])}}
    if rng.random() < 0.5:
        run["tol"] = rng.choice([[1e-3, 0.0], [0.5, 0.0], [0.0, 0.1], [2.0, 0.0], [1e-8, 1e-6]])
    if rng.random() < 0.3:
        run["points"] = [[rng.uniform(float(a), float(b)) for a, b in world["bounds"]] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.25:
        run["target"] = rng.choice([-1.0, 0.0, 0.01, -0.999, -1e9, 5.0])
    if rng.random() < 0.4:
        run["excl"] = rng.random() < 0.7
    if rng.random() < 0.15:
        run["max_time"] = rng.choice([1e6, -1.0, 0.0, 1e300])
        if run["max_time"] == 0.0:
            run["max_time"] = 3600.0
    if rng.random() < 0.4:
        o = {"freq": rng.choice([1, 1, 2, 3, 0])}
        if rng.random() < 0.3:
            o["stage1"] = False
        if rng.random() < 0.3:
            o["stage2"] = False
        if rng.random() < 0.4:
            o["mode"] = rng.choice(["s1", "s2", "both"])
        if rng.random() < 0.4:
            o["timing"] = True
        if rng.random() < 0.4:
            o["cb"] = rng.choice(["none", "default", "default", "stage1", "stage2", "stage2"])
        if rng.random() < 0.2:
            o["unique"] = True
        run["obs"] = o
    if rng.random() < 0.1:
        run["verbose"] = True
    op = {"op": "opt", "world": world, "run": run, "prob": prob, "style": {"build": style, "cons": rng.choice(["list", "tuple", "single"]), "vec": rng.choice(["list", "tuple"])},
          "solver_name": rng.choice(NAMES[t]), "parallel": rng.choice([None, False, True]), "explicit": rng.random() < 0.5, "kind": "run"}
    run["params"]["style"] = rng.choice(["kw", "pos", "attrs"])
    if default and t == "COBYLA" and rng.random() < 0.15 and not world.get("cons"):
        op["solver_default"] = rng.choice([1, 2])
        run["params"]["solver"] = {"type": "COBYLA"}
    return op


def bad_args(rng, op):
    """arguments that have to be rejected before anything is evaluated"""
    op = copy.deepcopy(op)
    run, p = op["run"], op["run"]["params"]
    d = len(op["world"]["bounds"])
    k = rng.choice(["solver", "wrong", "iter", "pop", "seed", "seedtype", "points", "ragged", "out", "df", "tf", "neg", "type", "nanpoint", "ragged2"])
    kw = {}
    if k == "solver":
        op["solver_name"] = rng.choice(["bfgs", "", "l-bfgs-b", "COBYLA ", "None"])
    elif k == "wrong":
        kw["local_solver_config"] = "wrong"
        op["wrong"] = rng.choice(["b", "c", "a" if p["solver"]["type"] != "NelderMead" else "b"])
    elif k == "iter":
        p["iterations"] = p["population"] + rng.randint(1, 5)
    elif k == "pop":
        p["population"], p["iterations"] = rng.choice([0, 1, 2]), 1
    elif k == "seed":
        kw["seed"] = rng.choice([-1, 2**64, 2**70])
    elif k == "seedtype":
        kw["seed"] = rng.choice(["1", 1.5, [1]])
    elif k == "points":
        run["points"] = [[0.0] * (d + 1)]
    elif k == "ragged":
        run["points"] = [[0.0] * d, [0.0] * (d + 1)]
    elif k == "ragged2":
        # as many numbers as three points have
        run["points"] = [[0.0] * d, [0.0] * (d - 1), [0.0] * (d + 1)]
    elif k == "out":
        run["points"] = [[0.0] * (d - 1) + [1e3]]
    elif k == "nanpoint":
        run["points"] = [[0.0] * (d - 1) + ["nan"]]
    elif k == "df":
        p["df"] = rng.choice([-1.0, -1e-300, "nan"])
    elif k == "tf":
        p["tf"] = rng.choice([-1.0, "nan", "-inf"])
    elif k == "neg":
        p[rng.choice(["iterations", "population", "wait"])] = -1
    else:
        kw[rng.choice(["target_objective", "max_time", "verbose", "exclude_out_of_bounds", "parallel"])] = "x"
        if "parallel" in kw:
            op["parallel"] = None
        if "verbose" in kw:
            run.pop("verbose", None)
        for a, b in (("target_objective", "target"), ("max_time", "max_time"), ("exclude_out_of_bounds", "excl")):
            if a in kw:
                run.pop(b, None)
    op["kw"], op["kind"], op["why"] = kw, "bad", k
    return op


def nest(rng, op):
    """one of the user's functions runs an optimisation itself"""
    w = op["world"]
    kinds = [0, 0] + [4, 4, 4] * bool(w.get("cons")) + [5] * ("obs" in op["run"] and op["run"]["obs"].get("cb", "log") == "log")
    if w.get("derivs", 2) >= 1 and op["run"]["params"]["solver"]["type"] not in ("COBYLA", "NelderMead"):
        kinds += [1]
    inner = operation(rng, None, "inner", small=True, default=False)
    if rng.random() < 0.6 and not inner["world"].get("cons"):
        inner["world"] = dict(inner["world"], cons=cons(rng, len(inner["world"]["bounds"])))
        inner = operation(rng, inner["world"], "inner", small=True, default=False)
    if inner["world"].get("cons") and rng.random() < 0.2:
        inner["fault"] = {"kind": 4, "n": rng.choice([1, 5, 20]), "how": "raise Injected", "con": 0}
    kind = rng.choice(kinds)
    if kind == 0:
        inner["serial"] = True      # worker threads would have to wait for the outer objective
    op["nest"] = {"kind": kind, "n": rng.choice([1, 2, 5, 9, 20, 40]), "op": inner}


def scenario(rng, i):
    ops, probs = [], []
    for _ in range(rng.choice([2, 4, 6, 9])):
        r = rng.random()
        if probs and r < 0.35:
            name, w = rng.choice(probs)
            op = operation(rng, w, name, small=True)
        else:
            name = "p%d" % len(probs)
            op = operation(rng, None, name, small=True)
            probs.append((name, op["world"]))
        w = op["world"]
        r = rng.random()
        if r < 0.3 and "solver_default" not in op:
            kinds = [0, 0]
            if w.get("derivs", 2) >= 1 and op["run"]["params"]["solver"]["type"] not in ("COBYLA", "NelderMead"):
                kinds += [1]
            if w.get("derivs", 2) >= 2 and op["run"]["params"]["solver"]["type"] in ("TrustRegion", "NewtonCG"):
                kinds += [2]
            if w.get("cons"):
                kinds += [4, 4, 4]
            kinds.append(3)
            k = rng.choice(kinds)
            how = "raise " + rng.choice(["Injected", "ValueError", "KeyError", "ZeroDivisionError", "SystemExit", "KeyboardInterrupt", "StopIteration"])
            if k == 0 and rng.random() < 0.4:
                how = rng.choice(["none", "str", "list", "obj", "nan"])
            elif k and rng.random() < 0.3:
                how = rng.choice(["none", "str"] + ["ragged"] * (3 * (k == 2 and len(w["bounds"]) == 2)) + ["raggedb"] * 3 * (k == 3))
            op["fault"] = {"kind": k, "n": rng.choice([1, 2, 5, 9, 13, 20, 30, 60]) if k != 3 else 1, "how": how}
            if k == 4:
                op["fault"]["con"] = rng.randrange(len(w["cons"]))
                if rng.random() < 0.4:
                    op["fault"]["how"] = "none"
            elif rng.random() < 0.3 and k == 0:
                op["fault"]["upto"] = op["fault"]["n"] + rng.choice([2, 1000])
            if k in (0, 1, 2):
                op["parallel"] = rng.choice([None, False])   # the n-th call of a parallel run is not determined
        elif r < 0.45 and "solver_default" not in op:
            op = bad_args(rng, op)
        elif r < 0.5 and op["run"].get("obs", {}).get("cb", "log") == "log" and "obs" in op["run"]:
            op["run"]["obs"]["raise"] = rng.choice([1, 2, 4])     # ignored
        if op["kind"] == "run" and rng.random() < 0.2:
            nest(rng, op)
        ops.append(op)
        if w.get("cons") and rng.random() < 0.3 and op["kind"] == "run":
            op2 = operation(rng, w, name, small=True, default=False)
            op2["newcons"] = cons(rng, len(w["bounds"])) if rng.random() < 0.8 else []
            # later uses of the problem have the new constraints
            w2 = dict(w)
            w2["cons"] = op2["newcons"]
            op2["world"] = w2
            probs = [(n, w2 if n == name else x) for n, x in probs]
            ops.append(op2)
    if rng.random() < 0.25:
        # several optimisations at once, each with its own problem
        ts = []
        for j in range(rng.randint(2, 3)):
            op = operation(rng, None, "t%d" % j, small=True, default=False)
            if rng.random() < 0.5 and not op["world"].get("cons"):
                op["world"] = dict(op["world"], cons=cons(rng, len(op["world"]["bounds"])))
                op = operation(rng, op["world"], "t%d" % j, small=True, default=False)
            if rng.random() < 0.3 and op["world"].get("cons"):
                op["fault"] = {"kind": 4, "n": rng.choice([1, 5, 20]), "how": "raise Injected", "con": 0}
            elif rng.random() < 0.2:
                nest(rng, op)
            ts.append(op)
        ops.insert(rng.randint(0, len(ops)), {"op": "threads", "ops": ts})
    for op in ops:
        if op["op"] == "opt" and op["kind"] == "run" and "nest" not in op and op["run"].get("obs", {}).get("cb", "log") != "log":
            op["console"] = True
    return {"id": i, "ops": ops}


def rust_twin(op):
    """the same optimisation for the Rust harness (None: nothing to compare with)"""
    if op["kind"] != "run":
        return None
    run = {k: copy.deepcopy(v) for k, v in op["run"].items()}
    w = dict(op["world"])
    if not w.get("cons"):
        w.pop("cons", None)
    w["cap"] = CAP
    sv = run["params"]["solver"]
    for k, v in list(sv.items()):
        if v is None and k != "l1_coefficient":
            sv.pop(k)
    if sv["type"] == "COBYLA" and not op.get("solver_default"):
        c = {"max_iter": sv.pop("max_iter"), "initial_step_size": sv.pop("initial_step_size")}
        run["params"]["solver"] = dict(sv, ctor=c)
    run["params"].pop("style", None)
    if "obs" in run:
        run["obs"].pop("raise", None)
    run["parallel"] = bool(op.get("parallel")) and not w.get("cons") and not op.get("serial")
    f = op.get("fault")
    if f:
        if f["kind"] in (3, 4):
            pass
        else:
            how = "nan" if f["how"] == "nan" else "err"
            run["fault"] = {"kind": ["obj", "grad", "hess"][f["kind"]], "n": f["n"], "how": how}
            if "upto" in f:
                run["fault"]["upto"] = str(f["upto"])
    run["log"] = False
    if op.get("console"):
        run["console"] = True
    return {"world": w, "runs": [run]}


def capped(op):
    if op["op"] == "threads":
        return dict(op, ops=[capped(o) for o in op["ops"]])
    if "nest" in op:
        op = dict(op, nest=dict(op["nest"], op=capped(op["nest"]["op"])))
    return dict(op, world=dict(op["world"], cap=CAP)) if "world" in op else op


def endless(r):
    return sum(int(x) for x in r.get("counts", [0])[:3]) > CAP


def flat(ops):
    for i, op in enumerate(ops):
        if op["op"] == "threads":
            for j, o in enumerate(op["ops"]):
                yield (i, j, 0), o
                if "nest" in o:
                    yield (i, j, 1), o["nest"]["op"]
        elif op["op"] == "opt":
            yield (i, 0, 0), op
            if "nest" in op:
                yield (i, 0, 1), op["nest"]["op"]


def norm(s):
    """observer state without times"""
    if s is None:
        return None
    s = dict(s)
    if "time" in s:
        s["time"] = s["time"] not in (None, False)
    return s


def num(x):
    if isinstance(x, dict):
        return {k: num(v) for k, v in sorted(x.items())}
    if isinstance(x, list):
        return [num(v) for v in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return float(x).hex()
    if x in ("nan", "inf", "-inf"):
        return float(x).hex()
    return x


def key(x):
    return json.dumps(num(x), sort_keys=True)


def obs_key(o):
    if not o:
        return key(None)
    return key({"s1": norm(o["s1"]), "s1f": norm(o["s1f"]), "s2": norm(o["s2"]), "obs1": o["obs1"], "obs2": o["obs2"], "timing": o["timing"], "elapsed": o["elapsed"] not in (None, False)})


def progress(text):
    """the lines of the progress log"""
    return "\n".join(x for x in text.splitlines() if x.startswith("[Stage"))


def judge(op, py, rs, ids):
    r = {"kind": op["kind"], "exp": 0, "got": 0, "expobs": 0, "gotobs": 0, "expcbs": 0, "gotcbs": 0, "expcalls": 0, "gotcalls": 0, "explog": 0, "gotlog": 0,
         "views": bool(py.get("views")), "attrs": bool(py.get("attrs")), "foreign": int(py["foreign"])}
    if "ok" in py:
        r["out"] = "ok"
    else:
        r["out"] = "value" if py["exc"] == "ValueError" else "arg" if py["ordinary"] else "exc"
    f = op.get("fault")
    if f and f["kind"] in (3, 4) and py["fired"]:
        r["kind"] = "hurt"
        return r
    if op["kind"] == "bad":
        if sum(py["counts"]):
            r["out"] = "evaluated before rejecting"
        return r
    if "panic" in rs:
        r["kind"] = "hurt"      # the library itself panicked: nothing to compare
        return r
    if "ok" in rs:
        r["exp"] = ids(("r", key(rs["ok"])))
        o = op["run"].get("obs")
        r["expobs"] = ids(("o", obs_key(rs.get("obs") if o else None)))
        r["expcbs"] = ids(("c", key([[norm(c["s1"]), norm(c["s2"])] for c in rs["cbs"]])))
        r["explog"] = ids(("l", progress(rs["console"]))) if op.get("console") else 0
        r["expcalls"] = ids(("n", json.dumps([int(x) for x in rs["counts"][:3]])))
    if "ok" in py:
        r["got"] = ids(("r", key(py["ok"])))
        r["gotobs"] = ids(("o", obs_key(py.get("obs"))))
        r["gotcbs"] = ids(("c", key([[norm(a), norm(b)] for a, b in py["cbs"]])))
        r["gotlog"] = ids(("l", progress(py["console"]))) if op.get("console") else 0
        r["gotcalls"] = ids(("n", json.dumps(py["counts"])))
    return r


DOCUMENTED = {"params": {"iterations": 300, "population_size": 1000, "wait_cycle": 15, "threshold_factor": 0.2, "distance_factor": 0.75, "abs_tol": 1e-8, "rel_tol": 1e-6},
              "PyCOBYLA": {"max_iter": 300, "step_size": 1.0, "ftol_rel": None, "ftol_abs": None, "xtol_rel": None, "xtol_abs": None},
              "PyMoreThuente": {k: v for k, v in fam_local.MT.items() if k != "t"},
              # the documentation does not agree with itself about the bounds of the Hager-Zhang line search
              "PyHagerZhang": {k: v for k, v in fam_local.HZ.items() if k not in ("t", "bounds")}}
for _t in ("LBFGS", "NelderMead", "SteepestDescent", "TrustRegion", "NewtonCG"):
    DOCUMENTED["Py" + _t] = {k: v for k, v in fam_local.DEFAULTS[_t].items() if k not in ("ls", "method")}


def check(chk):
    chk.assumptions = ["the landscapes compute the same bits for the library and for Python (same compiled code)", "the bindings as compiled by cargo, loaded as an extension module"]
    cfg = open(os.path.join(SPEC, "MCPy.cfg")).read()
    r = tlc_model("MCPy", cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    small = cfg.replace("Problems = {1, 2}", "Problems = {1}").replace("Versions = {1, 2}", "Versions = {1}").replace("MaxRuns = 2", "MaxRuns = 1").replace("MaxCalls = 2", "MaxCalls = 1")
    r = tlc_model("MCPy", small + "PROPERTIES EveryRunEnds\n")
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary, libs = build(), build_py()
    driver = os.path.join(VERIF, "pyharness", "driver.py")
    rng = chk.rng
    for rnd in range(chk.n(1, 8)):
        threads = rng.choice(["1", "2", "3", "4"])
        env = {"RAYON_NUM_THREADS": threads}
        ss = [scenario(rng, i) for i in range(chk.n(300, 600))]
        ss.append({"id": len(ss), "ops": [{"op": "facts"}]})
        twins, where = [], {}
        for s in ss:
            for pos, op in flat(s["ops"]):
                t = rust_twin(op)
                if t:
                    where[(s["id"], pos)] = len(twins)
                    twins.append(dict(t, id=len(twins)))
        rt = run_harness(binary, twins, env=env, timeout=20)
        # an optimisation the library does not return from says nothing about the bindings
        drop = {i for i, t in enumerate(twins) if "died" in rt[i] or endless(rt[i]["runs"][0])}
        chk.add("operations_without_a_twin", len(drop))
        for s in ss:
            keep = []
            for i, op in enumerate(s["ops"]):
                sub = [where.get((s["id"], p)) for p, _ in flat(s["ops"]) if p[0] == i]
                if op["op"] == "facts" or not any(x in drop for x in sub):
                    keep.append((i, op))
            s["map"] = [i for i, _ in keep]
            s["kept"] = [op for _, op in keep]
        rp = run_harness(driver, [{"id": s["id"], "ops": [capped(o) for o in s["kept"]]} for s in ss], env=dict(env, GSV_PYLIBS=libs), chunk=1, timeout=60)
        trs, meta = [], {}
        for s in ss:
            p = rp[s["id"]]
            if "died" in p:
                chk.violation("a Python process died or hung: " + p["died"], {"scenario": {"ops": s["kept"]}}); continue
            ids, ops = stage2_ids(), []
            for i, op, res in zip(s["map"], s["kept"], p["res"]):
                if op["op"] == "facts":
                    for n, want in DOCUMENTED.items():
                        got = res.get(n, {})
                        for k, v in want.items():
                            if k not in got or key(got[k]) != key(v):
                                chk.violation("default of %s.%s is %r, documented %r" % (n, k, got.get(k), v), {"values": got})
                    continue
                subs = list(zip(op["ops"], res)) if op["op"] == "threads" else [(op, res)]
                for j, (o, r) in enumerate(subs):
                    for k in (0, 1):
                        if k and not r.get("nested"):
                            continue
                        w = where.get((s["id"], (i, j, k)))
                        ops.append(judge(o["nest"]["op"] if k else o, r["nested"] if k else r, rt[w]["runs"][0] if w is not None else {}, ids))
                        chk.add("progress_logs_compared", int(ops[-1]["explog"] > 0))
                        chk.add("operations"); chk.add("operations_" + ops[-1]["kind"])
                        if op["op"] == "threads":
                            chk.add("operations_in_threads")
                        if k:
                            chk.add("operations_in_user_functions")
            if ops:
                trs.append({"id": s["id"], "ops": ops})
                meta[s["id"]] = (s, p)
        rej, st = validate("TracePy", "TracePy.cfg", trs)
        chk.add("histories_validated", len(trs)); chk.add("traces_validated_against_impl", len(trs))
        chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
        for i, whys in rej.items():
            s, p = meta[i]
            chk.violation("; ".join(sorted({w for _, w in whys}))[:500], {"scenario": {"ops": s["kept"]}, "threads": threads, "python": p["res"],
                          "library": [rt[where[(s["id"], pos)]]["runs"][0] for pos, _ in flat(s["ops"]) if (s["id"], pos) in where and pos[0] in s["map"]]})
        if rnd == 0:
            chk.sample({"history": ss[0]["kept"]})
    return chk.finish()


def stage2_ids():
    m = {}
    return lambda x: m.setdefault(x, len(m) + 1)
