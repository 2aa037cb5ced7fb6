"""Recorded runs -> traces of TraceStage2 (tables from the documented formulas)."""
import math
from fractions import Fraction as Fr

def fl(x):
    return float(x) if not isinstance(x, str) else float(x)

def pt(p):
    return tuple(fl(x) for x in p)

def key(p):
    # bitwise identity (distinguishes 0.0 and -0.0, identifies NaN)
    return tuple(x.hex() for x in p)


def exact(*xs):
    return all(math.isfinite(x) for x in xs)


def dist2(p, q):
    """(exact squared distance, whether double arithmetic computes it exactly)"""
    if not exact(*p, *q):
        return None, False
    ok, s, sf = True, Fr(0), 0.0
    for a, b in zip(p, q):
        d = Fr(a) - Fr(b)
        df = a - b
        ok = ok and math.isfinite(df) and Fr(df) == d
        s += d * d
        if not math.isfinite(df * df):
            return s, False
        ok = ok and Fr(df * df) == d * d
        sf += df * df
        if not math.isfinite(sf):
            return s, False
        ok = ok and Fr(sf) == s
    return s, ok


def rel3(lhs, rhs, op, ex):
    """lhs op rhs as 0/1, or 2 when too close to call and not exactly computed"""
    if not ex:
        m = max(abs(lhs), abs(rhs))
        if abs(lhs - rhs) <= Fr(1, 10**9) * m or m == 0:
            return 2
    r = {"<": lhs < rhs, "<=": lhs <= rhs, ">": lhs > rhs, ">=": lhs >= rhs}[op]
    return int(r)


def far(p, q, df):
    s, ex = dist2(p, q)
    if s is None:
        return 0            # NaN distance: never "farther"
    if not math.isfinite(df):
        return 0
    d2 = Fr(df) * Fr(df)
    ex = ex and math.isfinite(df * df) and Fr(df * df) == d2
    if p == q:
        return 0 if df >= 0 else 1
    return rel3(s, d2, ">", ex)


def sep(p, q, df):
    s, ex = dist2(p, q)
    if s is None:
        return 1            # NaN: not "closer than"
    if not math.isfinite(df):
        return 0
    d2 = Fr(df) * Fr(df)
    ex = ex and math.isfinite(df * df) and Fr(df * df) == d2
    if p == q:
        return 1 if df == 0 else 0
    return rel3(s, d2, ">=", ex)


def better(a, b, at, rt):
    """objective a better than b by more than the tolerance"""
    if math.isnan(a):
        return 0
    if math.isnan(b):
        return 1
    if not exact(a, b):
        return int(a < b)
    tol = max(Fr(at), Fr(rt) * max(abs(Fr(a)), abs(Fr(b))))
    tf = max(at, rt * max(abs(a), abs(b)))
    ex = Fr(tf) == tol and math.isfinite(b - tf) and Fr(b - tf) == Fr(b) - tol
    lhs, rhs = Fr(a), Fr(b) - tol
    if not ex:
        sc = max(abs(Fr(a)), abs(Fr(b)), tol)
        if abs(lhs - rhs) <= sc * Fr(1, 10**12):
            return 2
    return int(lhs < rhs)


def equiv(a, b, at, rt):
    if not exact(a, b):
        # only identical infinities could be called equal; |inf-inf| is NaN, hence not within
        return 0
    tol = max(Fr(at), Fr(rt) * max(abs(Fr(a)), abs(Fr(b))))
    tf = max(at, rt * max(abs(a), abs(b)))
    d = abs(Fr(a) - Fr(b))
    ex = Fr(tf) == tol and Fr(abs(a - b)) == d
    if not ex:
        sc = max(abs(Fr(a)), abs(Fr(b)), tol)
        if abs(d - tol) <= sc * Fr(1, 10**12):
            return 2
    return int(d <= tol)


def relax(t, tf):
    return t + tf * (1.0 + abs(t))


class Skip(Exception):
    pass


class Tr:
    """Interning of values, optima and trials of one run"""
    def __init__(self, run, world, params, at, rt, target, excl):
        self.vals, self.vid = [], {}
        self.sols, self.sid = [], {}
        self.at, self.rt, self.target, self.excl = at, rt, target, excl
        self.params, self.bounds = params, [(fl(a), fl(b)) for a, b in world["bounds"]]

    def v(self, x):
        k = x.hex()
        if k not in self.vid:
            self.vals.append(x)
            self.vid[k] = len(self.vals)
        return self.vid[k]

    def s(self, p, o):
        k = (key(p), o.hex())
        if k not in self.sid:
            self.sols.append((p, o))
            self.sid[k] = len(self.sols)
        return self.sid[k]

    def sol(self, j):
        return self.s(pt(j[0]), fl(j[1]))

    def inb(self, p):
        return int(all(a <= x <= b for x, (a, b) in zip(p, self.bounds)))


def state(tr, ck):
    return {"thr": tr.v(fl(ck["thr"])), "unch": ck["unch"], "it": ck["it"],
            "set": [tr.sol(s) for s in (ck["set"] or [])],
            "dist": [tr.sol(s) for s in ck["dist"]]}


def cb2(tr, s2):
    best = fl(s2["best"])
    bp = s2["bp"]
    return {"it": s2["it"], "thr": tr.v(fl(s2["thr"])), "unch": s2["unch"], "size": s2["size"],
            "best": 0 if bp is None and math.isnan(best) else tr.v(best),
            "bp": 0 if bp is None else tr.s(pt(bp), best),
            "calls": s2["calls"], "imp": s2["improved"], "ev": s2["evals"]}


def effective_batch(run, params, start):
    if run.get("parallel") is False:
        return 1
    b = run.get("batch")
    if b is None:
        raise Skip("default batch size")
    return max(b, 1)


def translate(tid, world, run, res, prev=None):
    """One recorded run (fresh, or resumed from checkpoint `prev`) -> trace, or Skip."""
    variant = res["err"]["e"]["variant"] if "err" in res else None
    failed = variant == "LocalSolverError"
    if "ok" not in res and not failed and variant != "NoFeasibleSolution":
        raise Skip("run ended with " + str(res.get("err") or res.get("panic"))[:200])
    resumed = prev is not None
    if resumed and run.get("resume"):
        params = run["resume"]["params"]
        at, rt = fl(prev["abs"]), fl(prev["rel"])
        target = None if prev["target"] is None else fl(prev["target"])
        excl = prev["excl"]
        brun = {"parallel": prev["par"], "batch": prev["batch"]}
    elif resumed:
        pp = prev["params"]
        params = dict(iterations=pp["iterations"], population=pp["population"], wait=pp["wait"], tf=pp["tf"],
                      df=pp["df"], seed=pp["seed"], solver=pp["solver"])
        at, rt = fl(prev["abs"]), fl(prev["rel"])
        target = None if prev["target"] is None else fl(prev["target"])
        excl = prev["excl"]
        brun = {"parallel": prev["par"], "batch": prev["batch"]}
    else:
        params = run["params"]
        at, rt = run.get("tol") or (1e-8, 1e-6)
        target = run.get("target")
        excl = bool(run.get("excl"))
        brun = run
    if target is not None:
        target = fl(target)
    tf, df, wait = fl(params["tf"]), fl(params["df"]), params["wait"]
    tr = Tr(run, world, params, fl(at), fl(rt), target, excl)
    solo = {key(pt(s["p"])): s for s in res["solo"]}
    cks = sorted((c["ck"] for c in res.get("cks") or [] if "ck" in c), key=lambda c: c["it"])
    if any("ck" not in c for c in res.get("cks") or []):
        raise Skip("unreadable checkpoint")
    start = prev["it"] if resumed else 0
    if resumed:
        cks = [c for c in cks if c["it"] >= start]
    stage2 = resumed or bool(cks)
    if resumed:
        ref = [pt(p) for p in (cks[-1]["ref"] if cks else prev["ref"])]
    elif cks:
        ref = [pt(p) for p in cks[-1]["ref"]]
    else:
        if "ref" not in res.get("ss", {}):
            raise Skip("no reference set")
        ref = [pt(p) for p, _ in res["ss"]["ref"]]
    outs, tvs, evals = [], [], []
    for p in ref:
        s = solo.get(key(p))
        if s is None:
            raise Skip("trial without a recorded local search")
        if s["f"] is None:
            raise Skip("trial without objective")
        tvs.append(tr.v(fl(s["f"])))
        if "sol" not in s:
            outs.append(0)          # the local search fails from here
        else:
            outs.append(tr.sol(s["sol"]))
        evals.append(s.get("evals") or 0)
    if failed and 0 not in outs:
        raise Skip("run ended with " + str(res["err"])[:200] + " though no local search fails")
    ev = []
    cbs = res.get("cbs") or []
    observed = bool(run.get("obs")) and run["obs"].get("cb", "log") == "log"
    mode = (run.get("obs") or {}).get("mode", "both")
    obs2 = observed and mode in ("both", "s2") and run["obs"].get("stage2", True)
    c2 = [c["s2"] for c in cbs if c["s2"] is not None] if obs2 else []
    ncb = len(c2)
    if resumed:
        ev.append({"k": "resume", "st": state(tr, prev)})
        pit = start
    else:
        objs = [fl(solo[key(p)]["f"]) for p in ref]
        fin = [o for o in objs if not math.isnan(o)]
        best = min(fin) if fin else None
        cands = sorted({outs[i] for i, o in enumerate(objs) if best is None or o == best})
        obsd = cks[0]["dist"][0] if cks and cks[0]["dist"] else None
        if obsd is not None:
            first = tr.sol(obsd)
            if first in cands:
                cands = [first]
        if failed and not stage2:
            raise Skip("local search fails in stage 1" if 0 in cands else "malformed: the run failed, its first local search does not")
        if not any(cands):
            raise Skip("malformed: the first local search fails, the run does not")
        cands = [c for c in cands if c]
        ev.append({"k": "init", "cands": cands, "stage2": stage2})
        pit = 0
    posts = [c for c in cks if c["it"] > pit]
    for i, c in enumerate(posts):
        lo, hi = pit, c["it"]
        e = {"k": "batch", "post": state(tr, c), "logged": False, "started": [], "observed": observed, "cbs": []}
        if obs2:
            e["cbs"] = [cb2(tr, s) for s in c2 if lo <= s["it"] < hi or (i == len(posts) - 1 and s["it"] >= hi and not failed)]
        ev.append(e)
        pit = c["it"]
    end = {"k": "end", "stage2": stage2, "nofeas": "ok" not in res, "failed": failed,
           "result": [tr.sol(s) for s in res.get("ok", [])], "observed": obs2, "ncb": ncb}
    if observed and obs2 and stage2 and not failed:
        s2 = res["obs"]["s2"]
        if s2 is None:
            raise Skip("no final stage 2 metrics")
        end["fin"] = cb2(tr, s2)
    ev.append(end)
    sv = [tr.v(o) for _, o in tr.sols]
    # closure of thresholds under relaxation, as deep as one batch can go
    batch = effective_batch(brun, params, start)
    depth = batch // max(wait, 1) + 2
    rl = {}
    front = list(range(1, len(tr.vals) + 1))
    for _ in range(depth):
        nxt = []
        for v in front:
            if v not in rl:
                rl[v] = tr.v(relax(tr.vals[v - 1], tf))
                if rl[v] not in rl:
                    nxt.append(rl[v])
        front = nxt
    nv, ns = len(tr.vals), len(tr.sols)
    order = sorted(range(nv), key=lambda i: (math.isnan(tr.vals[i]), tr.vals[i] if not math.isnan(tr.vals[i]) else 0))
    rank, r, last = [0] * nv, 0, None
    for i in order:
        x = tr.vals[i]
        if last is None or x != last:
            r += 1
        rank[i] = r
        last = x
    close = []
    fins = [i for i in order if math.isfinite(tr.vals[i])]
    for a, b in zip(fins, fins[1:]):
        x, y = tr.vals[a], tr.vals[b]
        if x != y and abs(x - y) <= 1e-12 * max(1e-300, abs(x), abs(y)):
            close += [[a + 1, b + 1], [b + 1, a + 1]]
        elif x == y:
            close += [[a + 1, b + 1], [b + 1, a + 1]]
    P = [s[0] for s in tr.sols]
    O = [s[1] for s in tr.sols]
    return {
        "id": tid, "excl": bool(excl), "wait": wait, "iters": params["iterations"], "nref": len(ref), "batch": batch,
        "resumed": resumed, "start": start, "obs2": obs2, "freq": (run.get("obs") or {}).get("freq", 1) if observed else 1,
        "nan": [int(math.isnan(x)) for x in tr.vals], "rank": rank, "close": close,
        "relax": [rl.get(i + 1, 0) for i in range(nv)],
        "tv": tvs, "out": outs, "evals": evals,
        "sv": sv,
        "inb": [tr.inb(p) for p in P],
        "tgt": [int(target is not None and o <= target) for o in O],
        "better": [[better(a, b, tr.at, tr.rt) for b in O] for a in O],
        "equiv": [[equiv(a, b, tr.at, tr.rt) for b in O] for a in O],
        "sep": [[sep(p, q, df) for q in P] for p in P],
        "far": [[far(p, q, df) for q in P] for p in ref],
        "ev": ev,
    }
