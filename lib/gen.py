"""Scenario generators."""
import math, random

TR1 = {"type": "TrustRegion", "method": "steihaug", "max_iter": 1, "radius": 1e6, "max_radius": 1e7, "eta": 0.0}


def grid(rng, lo, hi, step):
    n = int((hi - lo) / step)
    return lo + step * rng.randint(0, n)


def table_world(rng, m, dim=None, oob=None, weird=False, dup=False):
    """Scripted problem: trial points on a dyadic grid, each with its objective and the
    optimum a local search from it reaches. Unknown points fail to evaluate, so Stage 1
    keeps exactly the three seeds and the m user points."""
    dim = dim or rng.choice([1, 1, 2])
    W = rng.choice([4.0, 8.0])
    bounds = [[-W, W] for _ in range(dim)]
    seeds = [tuple([-W] * dim), tuple([W] * dim), tuple([0.0] * dim)]
    pts, used = [], set(seeds)
    step = rng.choice([0.25, 0.5, 1.0])
    tries = 0
    while len(pts) < m:
        tries += 1
        p = tuple(grid(rng, -W + step, W - step, step if tries < 200 else 0.125) + 0.0 for _ in range(dim))
        if p not in used:
            used.add(p); pts.append(p)
    oob = rng.random() < 0.4 if oob is None else oob
    # optima: a handful of locations shared by several trials
    qs = []
    lev = rng.choice([[0, 1, 2], [-4, -3.5, -3, 0], [-1, -0.5, 0, 0.5], [-8, -7.5, -4, 5], [1024, 1024.5, 1000, 3]])
    for _ in range(rng.randint(2, 6)):
        while True:
            if oob and rng.random() < 0.5:
                q = tuple(rng.choice([-1, 1]) * (W + step * rng.randint(1, 6)) for _ in range(dim))
            else:
                q = tuple(grid(rng, -W, W, step) + (0.0625 if rng.random() < 0.3 else 0.0) for _ in range(dim))
            if q not in used:
                break
            step2 = 0.03125
            q = tuple(grid(rng, -W, W, step2) + 0.015625 for _ in range(dim))
            if q not in used:
                break
        used.add(q)
        qs.append((q, float(rng.choice(lev))))
    ent = {}
    for q, r in qs:
        ent[q] = (r, tuple([0.0] * dim))
    for p in seeds + pts:
        q, r = rng.choice(qs)
        f = r + rng.choice([0.25, 0.5, 1, 1, 2, 2, 4, 8])
        if rng.random() < 0.12:
            # local search that cannot move
            ent[p] = (f, tuple([0.0] * dim))
        else:
            if weird and rng.random() < 0.25:
                f = rng.choice([math.inf, math.inf, math.nan, -math.nan])
            ent[p] = (f, tuple(a - b for a, b in zip(p, q)))
    if weird:
        for p in seeds + pts:
            if rng.random() < 0.15:
                ent[p] = (rng.choice([math.inf, math.inf, math.nan, -math.nan]), tuple([0.0] * dim))
        if rng.random() < 0.4:
            i = rng.randrange(len(qs))
            q = qs[i][0]
            ent[q] = (-math.inf, ent[q][1])
    def j(x):
        return "inf" if x == math.inf else "-inf" if x == -math.inf else ("-nan" if math.copysign(1, x) < 0 else "nan") if math.isnan(x) else x
    w = {"kind": "table", "bounds": bounds,
         "entries": [{"p": list(p), "f": j(f), "g": list(g)} for p, (f, g) in ent.items()]}
    if dup and pts:
        pts[-1] = pts[0]
    return w, [list(p) for p in pts], sorted({f for f, _ in ent.values() if math.isfinite(f)})


def basin_world(rng, dim=None):
    dim = dim or rng.choice([1, 2, 2, 3])
    W = 4.0
    n = rng.randint(2, 6)
    bs = []
    for _ in range(n):
        c = [grid(rng, -W, W, 0.5) if rng.random() < 0.8 else rng.choice([-1, 1]) * (W + 1) for _ in range(dim)]
        bs.append({"c": c, "h": rng.choice([0.5, 1.0, 2.0]), "d": rng.choice([-2.0, -1.0, -1.0, 0.0, 0.5])})
    return {"kind": "basin", "bounds": [[-W, W]] * dim, "basins": bs}


NAMED = [("sixhump", 2, [[-3, 3], [-2, 2]]), ("rastrigin", 2, [[-2.5, 2.5]] * 2), ("rosen", 2, [[-2, 2]] * 2),
         ("sphere", 3, [[-5, 5]] * 3), ("styb", 2, [[-5, 5]] * 2), ("well", 2, [[-2, 2]] * 2),
         ("slope", 2, [[-3, 3]] * 2), ("ellipsoid", 3, [[-2, 2]] * 3), ("well", 1, [[-2, 2]])]


def named_world(rng, names=None):
    c = [x for x in NAMED if names is None or x[0] in names]
    n, d, b = rng.choice(c)
    return {"kind": "named", "name": n, "bounds": b}


SOLVERS = [
    {"type": "LBFGS", "max_iter": 60},
    {"type": "NelderMead", "max_iter": 60},
    {"type": "SteepestDescent", "max_iter": 15},
    {"type": "TrustRegion", "max_iter": 30},
    {"type": "TrustRegion", "max_iter": 30, "method": "steihaug"},
    {"type": "NewtonCG", "max_iter": 20},
    {"type": "COBYLA", "max_iter": 80, "initial_step_size": 0.5},
]


def seed(rng):
    r = rng.random()
    if r < 0.1:
        return str(rng.choice([0, 1, 2**32, 2**63, 2**64 - 1, 2**64 - 5]))
    return str(rng.randrange(2**rng.choice([4, 16, 40, 64])))


def batch_opts(rng, seq=None):
    r = rng.random()
    if seq is True or (seq is None and r < 0.4):
        return {"parallel": False} if rng.random() < 0.5 else {"batch": 1}
    b = rng.choice([2, 2, 3, 4, 5, 7, 50])
    return {"batch": b, "threads": rng.choice([1, 2, 3, 4])}


SETTINGS = ["points", "target", "excl", "tol", "max_time", "verbose", "batch", "parallel", "obs", "ckpt"]


def setting_order(rng, run):
    """Settings given in any order, some of them twice (the last one counts)"""
    o = list(SETTINGS)
    rng.shuffle(o)
    out = {"order": o}
    first = [x for x in (["target", 1e9], ["tol", [3.0, 0.5]], ["batch", 3], ["parallel", False], ["parallel", True], ["excl", True],
                         ["excl", False], ["max_time", 0.0]) if run.get(x[0]) is not None and rng.random() < 0.4]
    if first:
        out["first"] = first
    return out


def obs_opts(rng, p=0.5):
    if rng.random() > p:
        return {}
    o = {"freq": rng.choice([1, 1, 1, 2, 3, 5]), "mode": rng.choice(["both", "both", "both", "s2", "s1"])}
    if rng.random() < 0.2:
        o["timing"] = True
    return {"obs": o}


def table_scenario(rng, sid, seq=None, target=None, weird=False, obs=0.5, m=None, excl=None, oob=None, dup=False):
    m = m or rng.randint(1, 9)
    w, pts, vals = table_world(rng, m, weird=weird, oob=oob, dup=dup)
    n = m + 3
    if n < 4:
        n = 4
    df = rng.choice([0.0, 0.25, 0.5, 0.5, 1.0, 1.0, 2.0, 3.0])
    run = {"params": {"iterations": rng.choice([n, n, n, rng.randint(1, n)]), "population": n,
                      "wait": rng.choice([1, 1, 2, 2, 3, 4, 5, 20]), "tf": rng.choice([0.1, 0.25, 0.5, 1.0, 2.0, 1e-3]),
                      "df": df, "seed": seed(rng), "solver": dict(TR1)},
           "points": pts, "solo": True, "ckpt": {"freq": 1, "keep_all": True, "auto_resume": False}}
    run["tol"] = rng.choice([[0.0, 0.0], [0.5, 0.0], [1.0, 0.0], [1e-8, 1e-6], [0.0, 0.25], [0.25, 0.125], [2.0, 0.0]])
    if rng.random() < (0.35 if target is None else target):
        run["target"] = rng.choice(vals) + rng.choice([0, 0, 0, -0.25, 0.25])
    if (rng.random() < 0.4) if excl is None else excl:
        run["excl"] = True
    run.update(batch_opts(rng, seq))
    run.update(obs_opts(rng, obs))
    if rng.random() < 0.3:
        run.update(setting_order(rng, run))
    return {"id": sid, "world": w, "runs": [run]}


def real_scenario(rng, sid, seq=None, obs=0.5, big=False):
    w = basin_world(rng) if rng.random() < 0.5 else named_world(rng)
    dim = len(w["bounds"])
    solver = dict(rng.choice(SOLVERS))
    n = rng.choice([4, 6, 10, 15, 25, 40]) if big else rng.choice([4, 6, 10, 15, 22])
    run = {"params": {"iterations": rng.choice([n, max(1, n // 2), rng.randint(1, n)]), "population": n,
                      "wait": rng.choice([1, 2, 3, 5, 10]), "tf": rng.choice([0.1, 0.2, 0.5, 1.5]),
                      "df": rng.choice([0.0, 0.1, 0.5, 0.75, 1.5]), "seed": seed(rng), "solver": solver},
           "solo": True, "ckpt": {"freq": 1, "keep_all": True, "auto_resume": False}}
    if rng.random() < 0.5:
        run["tol"] = rng.choice([[1e-3, 0.0], [1e-8, 1e-6], [0.5, 0.0], [0.0, 0.1], [1e-4, 1e-4]])
    if rng.random() < 0.25:
        run["target"] = rng.choice([-2.0, -1.0, -0.999, 0.0, 0.01, 1.0, -1e9])
    if rng.random() < 0.3:
        run["excl"] = True
    if rng.random() < 0.3:
        run["points"] = [[rng.uniform(a, b) for a, b in w["bounds"]] for _ in range(rng.randint(1, 2))]
    run.update(batch_opts(rng, seq))
    run.update(obs_opts(rng, obs))
    if rng.random() < 0.3:
        run.update(setting_order(rng, run))
    return {"id": sid, "world": w, "runs": [run]}
