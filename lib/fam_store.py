"""C14 (store), C15 (crash while saving), C16 (round trip, damage)."""
import itertools, math, struct
from common import *
import gen

# ------------------------------------------------------------------ C14
MGRSETS = [
    [("run", True), ("run", False), ("run_2", True)],
    [("a", True), ("a_b", False), ("a_7", False), ("a.b", True)],
    [("x", True), ("xx", True), ("x_x", True), ("x", False)],
    [("opt v1", True), ("opt v1", False), ("opt", True)],
    [("n_1", True), ("n", True), ("n_1_2", False)],
]
FOREIGN = ["{n}_5.bin", "{n}_000001.txt", "{n}_000001.bin.bak", "{n}_.bin", "{n}_abc.bin", "notes.txt", "x{n}_000009.bin",
           "{n}_000077.bin.tmp", "{n}_+00005.bin", "{n}_00000009.bin", "{n}_ 00004.bin", "{n}000003.bin", "{N}_000008.bin",
           "{n}_000001", ".{n}_000009.bin", "{n}_-00001.bin", "{n}_000012x.bin", "{n}-000012.bin"]
ITERS = [0, 1, 2, 3, 9, 10, 99, 100, 250, 99999, 100000, 999999, 1000000, 2000000]


def store_seq(rng, n):
    ms = rng.choice(MGRSETS)
    its = rng.sample(ITERS, rng.randint(2, 6))
    ops, tag = [], 0
    own = {f"{a}.bin" for a, k in ms if not k}
    for _ in range(n):
        r = rng.random()
        m = rng.randrange(len(ms))
        if r < 0.55:
            tag += 1
            ops.append({"op": "save", "m": m, "it": rng.choice(its), "tag": tag, "extra": rng.randrange(4)})
        elif r < 0.75:
            ops.append({"op": "clean", "m": m, "n": rng.choice([0, 1, 1, 2, 3, 10])})
        elif r < 0.92:
            f = rng.choice(FOREIGN).replace("{n}", ms[m][0]).replace("{N}", ms[m][0].upper())
            if f not in own and not any(k and re.fullmatch(re.escape(a) + r"_(0\d{5}|\d{6}|[1-9]\d{6,})\.bin", f) for a, k in ms):
                ops.append({"op": "put", "p": f, "data": f"raw {len(ops)}"})
        elif r < 0.97:
            name, keep = ms[m]
            it = rng.choice(its)
            ops.append({"op": "rm", "p": f"{name}_{it:06d}.bin" if keep else f"{name}.bin"})
        else:
            ops.append({"op": "rmdir"})
            if rng.random() < 0.7:
                ops.append({"op": "mgr", "m": m})
    return ms, its, ops


def store_scenario(sid, ms, its, ops):
    full = [{"op": "mgr", "m": i} for i in range(len(ms))]
    for o in ops:
        full.append(o)
        for i in range(len(ms)):
            full.append({"op": "load", "m": i}); full.append({"op": "exists", "m": i})
    for o in full:
        if o["op"] == "mgr":
            o["name"], o["keep_all"] = ms[o["m"]]
    return {"id": sid, "ops": full, "its": its, "ms": ms}


def content(c):
    if c[0] == "ck":
        return {"k": "ck", "tag": c[1], "it": c[2]}
    return {"k": "raw", "d": f"{c[1]} {c[2]}"}


def store_trace(tid, s, res):
    ops = []
    outs = res["outs"]
    for j, (o, (r, ls)) in enumerate(zip(s["ops"], outs)):
        q = {"op": o["op"]}
        if "m" in o:
            q["m"] = o["m"]
        for k in ("it", "tag", "n", "p"):
            if k in o:
                q[k] = o[k]
        if o["op"] == "put":
            d = o["data"]
            q["c"] = {"k": "raw", "d": f"{len(d)} {d[:12]}"}
        if isinstance(r, dict) and "panic" in r:
            q["res"] = {"r": "panic"}
        elif isinstance(r, dict) and "err" in r:
            q["res"] = {"r": "err"}
        elif isinstance(r, dict) and "file" in r:
            q["res"] = {"r": "ok"}
        elif isinstance(r, dict):
            q["res"] = {"r": "ck", "tag": r["tag"], "it": r["it"]} if r["whole"] else {"r": "garbled"}
        elif isinstance(r, bool):
            q["res"] = {"r": "true" if r else "false"}
        else:
            q["res"] = {"r": str(r)}
        ops.append(q)
        nxt = s["ops"][j + 1]["op"] if j + 1 < len(outs) else "ls"
        if o["op"] not in ("load", "exists") or nxt not in ("load", "exists"):
            ops.append({"op": "ls", "ls": [{"f": f, "c": content(c)} for f, c in ls]})
    return {"id": tid, "mgrs": [{"name": n, "keep": k} for n, k in s["ms"]], "iters": s["its"], "ops": ops}


def check_store(chk):
    chk.assumptions = ["no checkpoint name of the form <name>_<six digits> is used in single-file mode next to <name> in keep-all mode"]
    r = tlc_model("MCT", open(os.path.join(SPEC, "MCStore.cfg")).read().replace("L = 4", f"L = {chk.n(3, 5)}"), timeout=800, heap="12g")
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    # every behaviour of the model up to a length, and random long ones
    cfg = open(os.path.join(SPEC, "MCStore.cfg")).read().replace("Emit = FALSE", "Emit = TRUE")
    cfg = re.sub(r"INVARIANTS.*\nPROPERTIES.*\n", "", cfg)
    g = tlc("MCT", cfg.replace("L = 4", f"L = {chk.n(2, 3)}"), workers=1)
    gs = tlc("MCT", cfg.replace("L = 4", "L = 9"), workers=1,
             extra=["-simulate", f"num={chk.n(150, 1500)}", "-depth", "10", "-seed", str(chk.seed)])
    scen, seen = [], set()
    ms = [("run", True), ("run", False), ("run_2", True)]
    for b in printed_json(g["out"]) + printed_json(gs["out"]):
        k = json.dumps(b)
        if k in seen:
            continue
        seen.add(k)
        ops = []
        for o in b["ops"]:
            o = dict(o)
            if "m" in o:
                o["m"] -= 1
            if o["op"] == "put":
                o["data"] = "foreign " + o["p"]
            if o["op"] == "save":
                o["extra"] = chk.rng.randrange(4)
            ops.append(o)
        scen.append(store_scenario(len(scen), ms, [0, 2, 1000000], ops))
    nb = len(scen)
    if nb < 100:
        raise ToolError("too few behaviours generated")
    for _ in range(chk.n(700, 8000)):
        scen.append(store_scenario(len(scen), *store_seq(chk.rng, chk.rng.randint(3, 14))))
    res = run_harness(binary, scen, mode="store")
    trs = []
    for s in scen:
        if "died" in res[s["id"]]:
            chk.violation("the process died", {"scenario": s})
        else:
            trs.append(store_trace(s["id"], s, res[s["id"]]))
    rej, st = validate("TraceStore", "TraceStore.cfg", trs)
    chk.add("behaviours_replayed", nb); chk.add("histories_validated", len(trs) - nb)
    chk.add("store_operations", sum(len(s["ops"]) for s in scen))
    chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    for i, whys in rej.items():
        chk.violation("; ".join(sorted({w for _, w in whys})), {"scenario": scen[i], "result": res[scen[i]["id"]]})
    chk.sample(scen[-1]["ops"][:6])
    return chk.finish()


# ------------------------------------------------------------------ C15
_shim = None


def shim():
    """The interposition library, compiled into the build directory"""
    global _shim
    if _shim is None:
        os.makedirs(TARGET, exist_ok=True)
        src = os.path.join(VERIF, "shim", "shim.c")
        out = os.path.join(TARGET, "shim.so")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            tmp = out + f".{os.getpid()}"
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], capture_output=True, text=True)
            if r.returncode:
                raise ToolError("shim does not build: " + r.stderr[-1000:])
            os.replace(tmp, out)
        _shim = out
    return _shim


def harness_once(binary, mode, scenario, d, env=None, timeout=60, prefix="p"):
    """One harness process on one scenario; returns (result or None if it was killed, exit code)"""
    out = os.path.join(d, f"{prefix}.out")
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ, GSV_SCRATCH=d, RUST_BACKTRACE="0", **(env or {}))
    try:
        p = subprocess.run([binary, mode, out], input=(json.dumps(scenario) + "\n").encode(), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env=e, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if os.path.exists(out):
        txt = open(out).read().strip()
        if txt.endswith("}") and p.returncode == 0:
            return json.loads(txt), p.returncode
    return None, p.returncode


def shim_calls(path):
    calls, other = [], 0
    if not os.path.exists(path):
        return calls
    for line in open(path):
        w = line.rstrip("\n").split(" ")
        if w[0] in ("failed", "noop"):
            calls.append({"c": w[0], "f": w[2]}); continue
        # paths are relative to the shim's directory: ck/<file>
        f = w[1].split("/", 1)[-1]
        c = {"c": w[0], "f": f}
        if w[0] == "open":
            c["how"] = w[2]
        elif w[0] in ("write", "trunc"):
            c["n"] = int(w[2])
        elif w[0] in ("rename", "link"):
            c["g"] = w[2].split("/", 1)[-1]
        calls.append(c)
    return calls


def cid(x):
    """content id of a load result or listing entry"""
    if isinstance(x, list):
        return f"c{x[1]}" if x[0] == "ck" else "damaged"
    if "err" in x:
        return "none" if x["err"] in ("notfound",) else "damaged"
    if "panic" in x:
        return "damaged"
    return f"c{x['tag']}" if x["whole"] else "damaged"


SAVES = [  # (keep_all, prior saves [(it, extra)], new save (it, extra))
    (False, [], (3, 1)),
    (False, [(2, 3)], (4, 0)),
    (False, [(2, 0)], (4, 3)),
    (True, [], (0, 1)),
    (True, [(1, 2)], (2, 0)),
    (True, [(2, 3)], (2, 0)),
    (True, [(1, 0), (2, 1)], (2, 2)),
    (True, [(0, 1), (5, 2)], (7, 0)),
    (True, [(5, 1)], (3, 0)),
]


def save_case(args):
    binary, so, keep, prior, new, plan, name = args
    """One process prepares the directory, one saves under the plan, one loads, saves again and loads"""
    with Scratch() as d:
        base = os.path.join(d, "w"); os.makedirs(base)
        m = {"op": "mgr", "m": 0, "name": name, "keep_all": keep}
        pre = [m] + [{"op": "save", "m": 0, "it": it, "tag": i + 1, "extra": x} for i, (it, x) in enumerate(prior)] + [{"op": "load", "m": 0}]
        r0, rc = harness_once(binary, "store", {"id": 0, "dir": base, "ops": pre}, d)
        if r0 is None:
            return {"tool": f"preparation failed: {rc}"}
        ck = os.path.join(base, "ck")
        before = {f: os.path.getsize(os.path.join(ck, f)) for f in os.listdir(ck)}
        ls0 = [{"f": f, "id": cid(c)} for f, c in r0["outs"][-1][1]]
        tag = len(prior) + 1
        logf = os.path.join(d, "shim.log")
        env = {"LD_PRELOAD": so, "GSV_SHIM_DIR": base, "GSV_SHIM_LOG": logf}
        if plan:
            env["GSV_SHIM_PLAN"] = plan
        r1, rc = harness_once(binary, "store", {"id": 0, "dir": base, "list": False, "ops":
                              [m, {"op": "save", "m": 0, "it": new[0], "tag": tag, "extra": new[1]}]}, d, env)
        if rc == "timeout":
            return {"tool": "timeout"}
        out = "killed" if r1 is None else "ok" if "file" in r1["outs"][1][0] else "err" if "err" in r1["outs"][1][0] else "panic"
        calls = shim_calls(logf)
        ls = os.listdir(ck)
        sizes = {f: os.path.getsize(os.path.join(ck, f)) for f in ls}
        again = tag + 1
        it2 = max([new[0]] + [it for it, _ in prior]) + 1
        r2, rc = harness_once(binary, "store", {"id": 0, "dir": base, "ops":
                              [m, {"op": "load", "m": 0}, {"op": "exists", "m": 0},
                               {"op": "save", "m": 0, "it": it2, "tag": again, "extra": 1}, {"op": "load", "m": 0}]}, d)
        if r2 is None:
            return {"load": "damaged", "died": str(rc), "calls": calls, "out": out, "ls": [], "ls0": ls0, "sizes": sizes, "before": before,
                    "again": False, "n": len(calls)}
        o = r2["outs"]
        load = cid(o[1][0])
        if load == "none" and o[2][0] is True:
            load = "damaged"
        return {"calls": calls, "out": out, "load": load, "ls0": ls0, "before": before, "sizes": sizes,
                "ls": [{"f": f, "id": cid(c)} for f, c in o[1][1]],
                "again": "file" in o[3][0] and cid(o[4][0]) == f"c{again}", "n": len(calls)}


def save_plans(calls, rng, deep):
    plans = [f"crash {k}" for k in range(1, len(calls) + 2)]
    errs = [5, 28] if not deep else [5, 28, 13, 4, 11]       # EIO, ENOSPC, EACCES, EINTR, EAGAIN
    for k, c in enumerate(calls, 1):
        if c["c"] == "write":
            n = c["n"]
            cuts = sorted({0, 1, n // 2, n - 1} | ({rng.randrange(n) for _ in range(8)} if deep and n > 1 else set()))
            plans += [f"torn {k} {x}" for x in cuts if x < n]
            plans += [f"short {k} {n // 2}", f"failp {k} {n // 2} 28", f"failp {k} {n - 1} 5"]
        plans += [f"fail {k} {e}" for e in errs]
    return plans


def check_save(chk):
    chk.assumptions = ["the process dies; data it handed to the operating system survives (power loss is outside)",
                       "file-system calls are observed and disturbed at the C library boundary"]
    for keep in ("FALSE", "TRUE"):
        r = tlc_model("MCSave", open(os.path.join(SPEC, "MCSave.cfg")).read().replace("Keep = FALSE", "Keep = " + keep)
                      .replace("Size = 3", f"Size = {chk.n(3, 9)}"))
        chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary, so = build(), shim()
    from concurrent.futures import ThreadPoolExecutor
    cases = []
    names = ["run", "my.run"] if chk.thorough() else ["run"]
    with ThreadPoolExecutor(NCPU) as ex:
        base = [(binary, so, k, p, n, None, nm) for (k, p, n) in SAVES for nm in names]
        clean = list(ex.map(save_case, base))
        args = list(base)
        for a, r in zip(base, clean):
            if "tool" in r:
                raise ToolError(r["tool"])
            if not r["calls"]:
                raise ToolError("no file-system call of a save was observed")
            for p in save_plans(r["calls"], chk.rng, chk.thorough()):
                args.append(a[:5] + (p, a[6]))
        res = clean + list(ex.map(save_case, args[len(base):]))
    trs, kills = [], 0
    size_of = {}
    for a, r in zip(args, res):
        if a[5] is None:
            fn = f"{a[6]}_{a[4][0]:06d}.bin" if a[2] else f"{a[6]}.bin"
            size_of[(a[2], tuple(a[3]), a[4], a[6])] = r["sizes"].get(fn, 0)
    for i, (a, r) in enumerate(zip(args, res)):
        if "tool" in r:
            raise ToolError(r["tool"])
        keep, prior, new, plan, name = a[2], a[3], a[4], a[5], a[6]
        new_id = f"c{len(prior)+1}"
        sz = {x["id"]: r["before"][x["f"]] for x in r["ls0"] if x["id"] != "damaged"}
        sz[new_id] = size_of[(keep, tuple(prior), new, name)]
        # a model content of the same length but another id is complete too: lengths differ by construction or ids do
        kills += r["out"] == "killed"
        if r["out"] == "panic":
            chk.violation("a save panicked", {"case": a[2:], "result": r}); continue
        trs.append({"id": i, "mgr": {"name": name, "keep": keep}, "iters": sorted({new[0]} | {it for it, _ in prior}),
                    "prior": [x for x in r["ls0"]], "size": sz, "new": new_id, "newit": new[0], "calls": r["calls"],
                    "out": r["out"], "load": r["load"], "ls": r["ls"], "again": r["again"]})
    rej, st = validate("TraceSave", "TraceSave.cfg", trs)
    chk.add("histories_validated", len(trs)); chk.add("processes_killed_while_saving", kills)
    chk.add("disturbed_saves", len(args) - len(base))
    chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    if kills < len(base) * 3:
        raise ToolError(f"only {kills} processes were killed")
    for i, whys in rej.items():
        chk.violation("; ".join(sorted({w for _, w in whys})), {"case": args[i][2:], "result": res[i]})
    chk.sample({"case": args[-1][2:], "calls": res[-1]["calls"], "out": res[-1]["out"], "load": res[-1]["load"]})
    return chk.finish()


# ------------------------------------------------------------------ C16
def weird_float(rng):
    r = rng.random()
    if r < 0.35:
        return "0x%016x" % rng.getrandbits(64)
    if r < 0.5:
        return "0x" + rng.choice(["7ff8000000000000", "fff8000000000000", "7ff0000000000001", "7ff8dead0000beef", "8000000000000000",
                                  "0000000000000001", "7ff0000000000000", "fff0000000000000", "7fefffffffffffff", "800fffffffffffff"])
    return rng.choice([0.0, 1.0, -1.5, 0.1, 1e-300, 1e300, rng.uniform(-10, 10), rng.uniform(0, 1)])


def unit(rng, lo=0.0, hi=1.0):
    return rng.uniform(lo, hi)


def ls_of(rng, k):
    b = [1e-9 * rng.random(), 10 ** rng.uniform(0, 8)]
    if k == 1:
        return {"t": "mt", "c1": unit(rng), "c2": unit(rng), "width_tolerance": weird_float(rng), "bounds": b}
    return {"t": "hz", "delta": unit(rng), "sigma": unit(rng), "epsilon": weird_float(rng), "theta": unit(rng), "gamma": unit(rng),
            "eta": weird_float(rng), "bounds": b}


def u64s(rng):
    return str(rng.choice([0, 1, 2**63, 2**64 - 1, rng.getrandbits(64)]))


def solver_of(rng, s):
    k = s["solver"]
    if k == 1:
        return {"type": "LBFGS", "max_iter": u64s(rng), "tolerance_grad": weird_float(rng), "tolerance_cost": weird_float(rng),
                "history_size": rng.choice([0, 1, 10, 2**40]), "l1_coefficient": weird_float(rng) if s["l1"] else None, "ls": ls_of(rng, s["ls"])}
    if k == 2:
        return {"type": "NelderMead", "max_iter": u64s(rng), **{n: weird_float(rng) for n in ("simplex_delta", "sd_tolerance", "alpha", "gamma", "rho", "sigma")}}
    if k == 3:
        return {"type": "SteepestDescent", "max_iter": u64s(rng), "ls": ls_of(rng, s["ls"])}
    if k == 4:
        return {"type": "TrustRegion", "method": ["cauchy", "steihaug"][s["ls"] - 1], "max_iter": u64s(rng),
                **{n: weird_float(rng) for n in ("radius", "max_radius", "eta")}}
    if k == 5:
        return {"type": "NewtonCG", "max_iter": u64s(rng), "curvature_threshold": weird_float(rng), "tolerance": weird_float(rng), "ls": ls_of(rng, s["ls"])}
    return {"type": "COBYLA", "max_iter": u64s(rng), **{n: weird_float(rng) for n in ("initial_step_size", "ftol_rel", "ftol_abs", "xtol_rel")},
            "xtol_abs": [weird_float(rng) for _ in range(rng.choice([0, s["dim"]]))]}


def checkpoint_of(rng, s):
    pt = lambda: [weird_float(rng) for _ in range(s["dim"])]
    sol = lambda: [pt(), weird_float(rng)]
    return {"params": {"iterations": rng.choice([0, 10, 2**40]), "population": rng.choice([0, 4, 1000]), "wait": rng.choice([0, 1, 2**33]),
                       "tf": weird_float(rng), "df": weird_float(rng), "seed": u64s(rng), "solver": solver_of(rng, s)},
            "it": rng.choice([0, 1, 7, 999999, 10**6, 10**9]), "thr": weird_float(rng),
            "set": None if s["set"] < 0 else [sol() for _ in range(s["set"])], "ref": [pt() for _ in range(s["nref"])],
            "unch": rng.choice([0, 1, 2**50]), "elapsed": weird_float(rng), "dist": [sol() for _ in range(s["ndist"])], "seed": u64s(rng),
            "target": weird_float(rng) if s["target"] else None, "excl": rng.random() < 0.5,
            "batch": rng.choice([0, 1, 8, 2**32]) if s["batch"] else None, "par": rng.random() < 0.5, "abs": weird_float(rng),
            "rel": weird_float(rng), "ts": "" if s["ts"] == 0 else rng.choice(["2024-01-01 00:00:00 UTC", "\u00fc\u4e2d\U0001f600 \n\t\"", "x" * 300])}


def foreign_files(rng):
    out = [[], [0], [0] * 8, [0] * 400, [255] * 400, list(b"PK\x03\x04" + bytes(60)), list(b"{\"iterations\": 10}"), list(b"hello world\n" * 20)]
    out.append([rng.randrange(256) for _ in range(rng.choice([5, 60, 300]))])
    return out


MUT = [[255] * 8, [0, 0, 0, 0, 0, 0, 0, 127], [255, 255, 255, 255, 255, 255, 255, 127], [0, 0, 0, 0, 1, 0, 0, 0], [0, 0, 0, 64, 0, 0, 0, 0],
       [0, 0, 0, 128, 0, 0, 0, 0], [0] * 8, [255], [2], [1], [0, 1]]


def check_codec(chk):
    chk.assumptions = ["a damaged value inside an intact structure cannot be told from a saved one (the format has no checksum) and is not judged"]
    cfg = open(os.path.join(SPEC, "MCCodec.cfg")).read()
    r = tlc_model("MCC", cfg.replace("ShapesMC", "ShapesQuick") if not chk.thorough() else cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    g = tlc("MCC", cfg.replace("ShapesMC", "ShapesGen").replace("Emit = FALSE", "Emit = TRUE"), workers=1)
    shapes = printed_json(g["out"])
    if len(shapes) != 5376:
        raise ToolError(f"{len(shapes)} shapes generated")
    shapes.sort(key=lambda s: json.dumps(s, sort_keys=True))
    rng = chk.rng
    if not chk.thorough():
        shapes = rng.sample(shapes, 1400)
    scen = []
    variants = [("argmin,rayon,checkpointing", None)] + ([("argmin,checkpointing", None)])
    for i, s in enumerate(shapes):
        scen.append({"id": i, "ck": checkpoint_of(rng, s), "keep_all": rng.random() < 0.5,
                     "truncate": i % chk.n(8, 4) == 0, "foreign": foreign_files(rng) if i % 20 == 0 else [],
                     "mutate": [[rng.random(), rng.choice(MUT)] for _ in range(12)] if i % 4 == 0 else []})
    trs, nd = [], 0
    for vi, (feat, _) in enumerate(variants):
        part = scen if vi == 0 else scen[::5]
        res = run_harness(build(feat), part, mode="roundtrip")
        for s in part:
            r = res[s["id"]]
            if "died" in r:
                chk.violation("the process died while reading a damaged file or round-tripping: " + r["died"], {"features": feat, "scenario": s}); continue
            o = r["out"]
            if "damage" not in o:
                trs.append({"id": len(trs), "err": str(o)[:300], "same": [], "bytes": False, "display": False, "missing": "", "damage": []})
            else:
                dm = sorted({(w.split()[0], a.split()[0], b.split()[0]) for w, a, b in o["damage"]})
                nd += len(o["damage"])
                trs.append({"id": len(trs), "err": "", "same": o["same"], "bytes": o["bytes"], "display": o["display"], "missing": o["missing"],
                            "damage": [{"what": w, "a": a, "b": b} for w, a, b in dm]})
            trs[-1]["scen"] = (feat, s, o)
    keep = {t["id"]: t.pop("scen") for t in trs}
    rej, st = validate("TraceCodec", "TraceCodec.cfg", trs)
    chk.add("behaviours_replayed", len(trs)); chk.add("damaged_files_read", nd)
    chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    for i, whys in rej.items():
        f, s, o = keep[i]
        chk.violation("; ".join(sorted({w for _, w in whys})), {"features": f, "scenario": s, "result": o})
    chk.sample(scen[0]["ck"])
    return chk.finish()
