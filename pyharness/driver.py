#!/usr/bin/env python3
"""Runs histories of optimisations through the Python bindings (one JSON scenario per line)."""
import ctypes, importlib.machinery, importlib.util, json, math, os, re, sys, tempfile, threading, zlib

LIBS = os.environ["GSV_PYLIBS"]


def load():
    p = os.path.join(LIBS, "libpyglobalsearch.so")
    ld = importlib.machinery.ExtensionFileLoader("pyglobalsearch", p)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader("pyglobalsearch", ld))
    ld.exec_module(m)
    return m


gs = load()
W = ctypes.CDLL(os.path.join(LIBS, "libworldlib.so"))
W.world_new.restype = ctypes.c_void_p
W.world_new.argtypes = [ctypes.c_char_p]
W.world_eval.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.POINTER(ctypes.c_double), ctypes.c_size_t, ctypes.POINTER(ctypes.c_double)]


def fl(v):
    if isinstance(v, str):
        return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}.get(v) if v in ("nan", "inf", "-inf") else float(v)
    return float(v)


def jf(v):
    return v if math.isfinite(v) else "nan" if math.isnan(v) else "inf" if v > 0 else "-inf"


class Injected(Exception):
    pass


EXC = {"Injected": Injected, "ValueError": ValueError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "SystemExit": SystemExit,
       "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration}


def vector(x, style):
    if style == "tuple":
        return tuple(x)
    return x


class Prob:
    """A Python problem over one of the harness's landscapes."""

    def __init__(self, world, style):
        self.w = dict(world)
        self.h = W.world_new(json.dumps({k: v for k, v in world.items() if k != "cons"}).encode())
        self.style = style
        self.cap = int(world.get("cap", 60000))
        self.arm({})
        self.cons = [self.con(c, i) for i, c in enumerate(world.get("cons", []))]
        d = int(world.get("derivs", 2))
        a = {}
        if d >= 1:
            a["gradient"] = self.gradient
        if d >= 2:
            a["hessian"] = self.hessian
        if self.cons:
            s = style.get("cons", "list")
            a["constraints"] = self.cons[0] if s == "single" and len(self.cons) == 1 else tuple(self.cons) if s == "tuple" else list(self.cons)
        self.p = gs.PyProblem(self.objective, self.bounds, **a)

    def arm(self, op):
        self.cn, self.fired = 0, False
        self.n = [0, 0, 0, 0]
        self.fault = op.get("fault")
        self.foreign = 0
        self.nest, self.nested = op.get("nest"), None
        self.conn = 0

    def inner(self, kind, n):
        """a user function that runs an optimisation of its own"""
        if self.nest and self.nest["kind"] == kind and self.nest["n"] == n and self.nested is None:
            self.nested = {}
            self.nested = optimize(self.nest["op"], {})

    def fail(self, kind):
        self.n[kind] += 1
        self.inner(kind, self.n[kind])
        # some line searches of argmin never end on some inputs: bound every run
        if kind < 3 and sum(self.n[:3]) > self.cap:
            raise Injected("too many calls")
        f = self.fault
        if f and f["kind"] == kind and f["n"] <= self.n[kind] <= f.get("upto", f["n"]):
            how = f["how"]
            self.fired = True
            if how.startswith("raise "):
                raise EXC[how[6:]]("injected")
            return {"none": (None,), "str": ("zero",), "nan": (math.nan,), "list": ([],), "obj": (object(),), "short": ([1.0],), "ragged": ([[1.0, 0.0, 0.0], [1.0]],), "raggedb": ([[0.0, 1.0], [0.0], [1.0, 0.0, 1.0]],)}[how]
        return None

    def bounds(self):
        f = self.fail(3) if self.fault and self.fault["kind"] == 3 else None
        if f:
            return f[0]
        b = [[fl(a), fl(c)] for a, c in self.w["bounds"]]
        return tuple(map(tuple, b)) if self.style.get("vec") == "tuple" else b

    def call(self, kind, x, n):
        v = (ctypes.c_double * len(x))(*x)
        out = (ctypes.c_double * n)()
        if not W.world_eval(self.h, kind, v, len(x), out):
            raise Injected("undefined point")
        return list(out)

    def objective(self, x):
        f = self.fail(0)
        return f[0] if f else self.call(0, x, 1)[0]

    def gradient(self, x):
        f = self.fail(1)
        return f[0] if f else vector(self.call(1, x, len(x)), self.style.get("vec"))

    def hessian(self, x):
        f = self.fail(2)
        if f:
            return f[0]
        n = len(x)
        h = self.call(2, x, n * n)
        return [h[i * n:(i + 1) * n] for i in range(n)]

    def con(self, c, i):
        k = c["t"]

        def g(x):
            if current.get(threading.get_ident()) is not self:
                self.foreign += 1
                cur = current.get(threading.get_ident())
                if cur is not None:
                    cur.foreign += 1
            self.conn += 1
            self.inner(4, self.conn)
            if self.fault and self.fault["kind"] == 4 and self.fault["con"] == i:
                self.cn += 1
                if self.cn == self.fault["n"]:
                    self.fired = True
                    how = self.fault["how"]
                    if how.startswith("raise "):
                        raise EXC[how[6:]]("injected")
                    return None
            s = 0.0
            if k == "lin":
                for a, v in zip(c["a"], x):
                    s += fl(a) * v
                return s + fl(c["b"])
            for a, v in zip(c["c"], x):
                s += (v - fl(a)) * (v - fl(a))
            return fl(c["r2"]) - s if k == "ball" else s - fl(c["r2"])
        return g


current = {}


def line_search(v, style):
    B = gs.builders
    t = v["t"]
    a = {k: ([fl(x) for x in y] if k == "bounds" else fl(y)) for k, y in v.items() if k != "t"}
    cls, fn = (B.PyMoreThuente, B.morethuente) if t == "mt" else (B.PyHagerZhang, B.hagerzhang)
    return make(cls, fn, a, style)


def make(cls, fn, a, style):
    if style == "func":
        return fn(**a)
    if style == "attrs":
        o = cls()
        for k, v in a.items():
            setattr(o, k, v)
        return o
    return cls(**a)


def config(c, style):
    """the local solver configuration as a builder object, and whether its attributes read back"""
    B = gs.builders
    t = c["type"]
    a = {}
    for k, v in c.items():
        if k == "type":
            continue
        if k == "ls":
            v = line_search(v, style)
            r = zlib.crc32(json.dumps(c["ls"], sort_keys=True).encode()) % 3
            if style == "func" and r == 0:
                a["line_search_params"] = v
            elif r == 1:
                a["line_search_params"] = B.PyLineSearchParams(v)
            else:
                a["line_search_params"] = (B.PyLineSearchParams.morethuente if c["ls"]["t"] == "mt" else B.PyLineSearchParams.hagerzhang)(v)
        elif k == "method":
            a["trust_region_radius_method"] = B.PyTrustRegionRadiusMethod.Cauchy if v == "cauchy" else B.PyTrustRegionRadiusMethod.steihaug()
        elif k == "initial_step_size":
            a["step_size"] = fl(v)
        elif k in ("max_iter", "history_size"):
            a[k] = int(v)
        elif k == "xtol_abs":
            a[k] = [fl(x) for x in v] if v is not None else None
        else:
            a[k] = None if v is None else fl(v)
    cls, fn = {"LBFGS": (B.PyLBFGS, B.lbfgs), "NelderMead": (B.PyNelderMead, B.neldermead), "SteepestDescent": (B.PySteepestDescent, B.steepestdescent),
               "TrustRegion": (B.PyTrustRegion, B.trustregion), "NewtonCG": (B.PyNewtonCG, B.newtoncg), "COBYLA": (B.PyCOBYLA, B.cobyla)}[t]
    o = make(cls, fn, a, style)
    good = True
    for k, v in a.items():
        if k == "line_search_params":
            continue
        w = getattr(o, k)
        good = good and (w == v or (isinstance(v, float) and math.isnan(v) and math.isnan(w)))
    return o, good


def s1(s):
    return None if s is None else {"ref": s.reference_set_size, "best": jf(s.best_objective), "sub": s.current_substage, "evals": s.function_evaluations,
                                   "trials": s.trial_points_generated, "bp": None if s.best_point is None else [jf(x) for x in s.best_point], "time": s.total_time is not None}


def s2(s):
    return None if s is None else {"best": jf(s.best_objective), "size": s.solution_set_size, "it": s.current_iteration, "thr": jf(s.threshold_value),
                                   "calls": s.local_solver_calls, "improved": s.improved_local_calls, "evals": s.function_evaluations, "unch": s.unchanged_cycles,
                                   "bp": None if s.best_point is None else [jf(x) for x in s.best_point],
                                   "last": None if s.last_added_point is None else [jf(x) for x in s.last_added_point], "time": s.total_time is not None}


def observer(v, cbs, pr):
    o = gs.observers.PyObserver()
    if v.get("stage1", True):
        o.with_stage1_tracking()
    if v.get("stage2", True):
        o.with_stage2_tracking()
    if v.get("timing"):
        o.with_timing()
    M = gs.observers.PyObserverMode
    if "mode" in v:
        o.with_mode({"s1": M.Stage1Only, "s2": M.Stage2Only, "both": M.Both}[v["mode"]])

    def cb(a, b):
        cbs.append([s1(a), s2(b)])
        pr.inner(5, len(cbs))
        if v.get("raise") and len(cbs) == v["raise"]:
            raise Injected("callback")
    kind = v.get("cb", "log")
    if kind == "log":
        o.with_callback(cb)
    elif kind == "default":
        o.with_default_callback()
    elif kind == "stage1":
        o.with_stage1_callback()
    elif kind == "stage2":
        o.with_stage2_callback()
    if "freq" in v:
        o.with_callback_frequency(v["freq"])
    if v.get("unique"):
        o.unique_updates()
    return o


def params(p, tol):
    a = {"iterations": p["iterations"], "population_size": p["population"], "wait_cycle": p["wait"], "threshold_factor": fl(p["tf"]), "distance_factor": fl(p["df"])}
    if tol:
        a["abs_tol"], a["rel_tol"] = fl(tol[0]), fl(tol[1])
    if p.get("style") == "attrs":
        o = gs.PyOQNLPParams()
        for k, v in a.items():
            setattr(o, k, v)
    elif p.get("style") == "pos":
        o = gs.PyOQNLPParams(*a.values())
    else:
        o = gs.PyOQNLPParams(**a)
    return o, all(getattr(o, k) == v or v != v for k, v in a.items())


def views(s):
    """the solution set's views of itself agree"""
    sols = list(s.solutions)
    it = list(s)
    n = len(s)
    ok = n == len(sols) == len(it) and s.is_empty() == (n == 0)
    key = lambda z: ([jf(v) for v in z.point], jf(z.objective))
    for i, z in enumerate(sols):
        ok = ok and key(z) == key(it[i]) == key(s[i]) and [jf(v) for v in z.x()] == key(z)[0] and jf(z.fun()) == key(z)[1]
    try:
        s[n]
        ok = False
    except IndexError:
        pass
    b = s.best_solution()
    ok = ok and (b is None) == (n == 0)
    if n:
        vals = [z.objective for z in sols if not math.isnan(z.objective)]
        ok = ok and (not vals or b.objective == min(vals))
    return ok and printed(s, sols, b) and bool(repr(s)) and (not n or bool(str(sols[0])))


def printed(s, sols, best):
    """the text of a solution set tells its size, its best objective and its solutions in order"""
    t = str(s)
    f = lambda x: float("%.8e" % x)
    same = lambda a, b: a == b or (a != a and b != b)
    ok = re.findall(r"Total solutions: (\d+)", t) == [str(len(sols))]
    bo = re.findall(r"Best objective value: (\S+)", t)
    ok = ok and len(bo) == (1 if sols else 0) and all(same(float(x), f(best.objective)) for x in bo)
    ob = re.findall(r"^ *Objective: (\S+)", t, re.M)
    ok = ok and len(ob) == len(sols) and all(same(float(x), f(z.objective)) for x, z in zip(ob, sols))
    pa = re.findall(r"^ *Parameters: \[(.*)\]", t, re.M)
    return ok and len(pa) == len(sols) and all(
        len(z.point) == len(x.split(",")) and all(same(float(a), b) for a, b in zip(x.split(","), z.point)) for x, z in zip(pa, sols))


def optimize(op, probs):
    run = op["run"]
    if op["prob"] not in probs:
        probs[op["prob"]] = Prob(op["world"], op.get("style", {}))
    pr = probs[op["prob"]]
    pr.arm(op)
    if "newcons" in op:
        pr.cons = [pr.con(c, i) for i, c in enumerate(op["newcons"])]
        pr.p.constraints = list(pr.cons) if pr.cons else None
    cbs, out = [], {}
    try:
        p, good = params(run["params"], run.get("tol"))
        kw = {}
        if run.get("obs"):
            kw["observer"] = observer(run["obs"], cbs, pr)
        sv = run["params"]["solver"]
        kw["local_solver"] = op.get("solver_name", sv["type"])
        if op.get("solver_default"):
            if sv["type"] == "COBYLA" and op["solver_default"] == 2:
                kw.pop("local_solver")
        else:
            kw["local_solver_config"], g = config(sv, op.get("style", {}).get("build", "class"))
            good = good and g
        kw.update(op.get("kw", {}))
        if kw.get("local_solver_config") == "wrong":
            kw["local_solver_config"] = {"a": gs.builders.PyNelderMead(), "b": object(), "c": "lbfgs"}[op["wrong"]]
        seed = int(run["params"]["seed"])
        if seed or op.get("explicit"):
            kw.setdefault("seed", seed)
        for a, k in (("target", "target_objective"), ("max_time", "max_time")):
            if a in run:
                kw[k] = fl(run[a])
        if "excl" in run:
            kw["exclude_out_of_bounds"] = bool(run["excl"])
        if op.get("parallel") is not None:
            kw["parallel"] = op["parallel"]
        if "points" in run:
            kw["with_points"] = [[fl(x) for x in r] for r in run["points"]]
        if run.get("verbose"):
            kw["verbose"] = True
        out["attrs"] = good
        outer = current.get(threading.get_ident())
        current[threading.get_ident()] = pr
        try:
            s = gs.optimize(pr.p, p, **kw)
        finally:
            current[threading.get_ident()] = outer
        out["ok"] = [[[jf(v) for v in z.point], jf(z.objective)] for z in s]
        out["views"] = views(s)
        if run.get("obs"):
            o = kw["observer"]
            out["obs"] = {"s1": s1(o.stage1()), "s1f": s1(o.stage1_final()), "s2": s2(o.stage2()), "obs1": o.should_observe_stage1, "obs2": o.should_observe_stage2,
                          "timing": o.is_timing_enabled, "elapsed": o.elapsed_time is not None}
            str(o)
    except BaseException as e:  # noqa: pyo3's PanicException is not an Exception
        out["exc"] = type(e).__name__
        out["ordinary"] = isinstance(e, Exception)
        out["msg"] = str(e)[:300]
    out["cbs"] = cbs
    out["counts"] = pr.n[:3]
    out["foreign"], out["fired"], out["nested"] = pr.foreign, pr.fired, pr.nested
    return out


def facts():
    """values the bindings document"""
    B, p = gs.builders, gs.PyOQNLPParams()
    r = {"params": {k: getattr(p, k) for k in ("iterations", "population_size", "wait_cycle", "threshold_factor", "distance_factor", "abs_tol", "rel_tol")}}
    for n in ("PyLBFGS", "PyNelderMead", "PySteepestDescent", "PyTrustRegion", "PyNewtonCG", "PyCOBYLA", "PyMoreThuente", "PyHagerZhang"):
        o = getattr(B, n)()
        d = {}
        for k in dir(o):
            if not k.startswith("_"):
                v = getattr(o, k)
                if isinstance(v, (int, float, type(None))):
                    d[k] = v if v is None or isinstance(v, int) else jf(v)
                elif isinstance(v, list):
                    d[k] = [jf(x) for x in v]
        r[n] = d
    return r


def main():
    out = open(sys.argv[2], "a")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1); os.dup2(null, 2)
    for line in sys.stdin:
        s = json.loads(line)
        probs, res = {}, []
        for op in s["ops"]:
            if op["op"] == "facts":
                res.append(facts())
            elif op["op"] == "threads":
                rs = [None] * len(op["ops"])

                def work(i):
                    rs[i] = optimize(op["ops"][i], probs)
                for o in op["ops"]:      # problems are created before the threads start
                    if o["prob"] not in probs:
                        probs[o["prob"]] = Prob(o["world"], o.get("style", {}))
                ts = [threading.Thread(target=work, args=(i,)) for i in range(len(rs))]
                [t.start() for t in ts]
                [t.join() for t in ts]
                res.append(rs)
            elif op.get("console"):
                # what the built-in callbacks write
                f = tempfile.TemporaryFile()
                os.dup2(f.fileno(), 2)
                try:
                    r = optimize(op, probs)
                finally:
                    os.dup2(null, 2)
                f.seek(0)
                r["console"] = f.read().decode(errors="replace")
                f.close()
                res.append(r)
            else:
                res.append(optimize(op, probs))
        out.write(json.dumps({"id": s["id"], "res": res}) + "\n")
        out.flush()


main()
