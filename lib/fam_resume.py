"""C12 (exact resume), C13 (resume with modified parameters)."""
import copy, math
from common import *
import gen, stage2, fam_stage2, fam_store


def strip(ck):
    return json.dumps({k: v for k, v in ck.items() if k not in ("elapsed", "ts")}, sort_keys=True)


def result_key(r):
    if "ok" in r:
        return json.dumps(["ok", r["ok"]])
    if "err" in r:
        return json.dumps(["err", r["err"]["at"], r["err"]["e"]["variant"]])
    return json.dumps(["panic", r.get("panic", "")])


def cks_of(r):
    return sorted((c["ck"] for c in r.get("cks") or [] if "ck" in c), key=lambda c: c["it"])


class Ids(dict):
    def __call__(self, x):
        return self.setdefault(x, len(self) + 1)


def base_scenario(rng, i):
    r = rng.random()
    if r < 0.55:
        s = gen.table_scenario(rng, i, weird=rng.random() < 0.1, obs=0, m=rng.randint(3, 9))
    else:
        s = gen.real_scenario(rng, i, obs=0)
    run = s["runs"][0]
    run["solo"] = False
    if "batch" not in run and run.get("parallel") is not False:
        run["batch"] = 1
    run["obs"] = {"freq": 1, "mode": rng.choice(["both", "s2"])}
    run["log"] = False
    run["ckpt"] = {"freq": 1, "keep_all": True, "auto_resume": False}
    return s


def history(rng, s, truth):
    """Scenario of several runs over one directory: stopped at random points, then to the end, then once more"""
    run = copy.deepcopy(s["runs"][0])
    total = truth["counts"][0]
    done = cks_of(truth)[-1]["it"] if cks_of(truth) else 0
    run["ckpt"] = {"freq": rng.choice([1, 1, 2, 3, 5, 7, 0, 1000]), "keep_all": rng.random() < 0.5, "auto_resume": True}
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        q = copy.deepcopy(run)
        # counts are per run: a resumed run makes fewer calls
        u = rng.random()
        if not runs:
            n = rng.randint(1, max(1, total)) if u < 0.3 else rng.randint(max(1, total * 2 // 3), max(1, total)) if u < 0.8 else \
                max(1, total - rng.randint(0, 12))
        else:
            n = rng.randint(1, 12) if u < 0.5 else rng.randint(1, max(1, total // 2))
        q["fault"] = {"kind": "obj", "n": n, "how": "panic"}
        runs.append(q)
    runs += [copy.deepcopy(run), copy.deepcopy(run)]
    for q in runs:
        # the number of threads may differ from one attempt to the next
        if "threads" in q and rng.random() < 0.3:
            q["threads"] = rng.choice([1, 2, 4])
    return {"world": s["world"], "runs": runs}


def trace(tid, s, truth, segs, how=None):
    ids, rids = Ids(), Ids()
    run = s["runs"][-1]
    tcks = cks_of(truth)
    done = tcks[-1]["it"] if tcks else 0
    t = {"id": tid, "n": done, "b": stage2.effective_batch(run, None, 0), "f": run["ckpt"]["freq"], "keep": run["ckpt"]["keep_all"],
         "obs": True, "truth": [{"c": c["it"], "st": ids(strip(c))} for c in tcks], "end": rids(result_key(truth)),
         "last": done, "stage1only": not tcks, "segs": []}
    prev, ended = [], False
    for i, r in enumerate(segs):
        disk = [{"c": c["it"], "st": ids(strip(c))} for c in cks_of(r)]
        its = [c["s2"]["it"] + 1 for c in r["cbs"] if c.get("s2") is not None and not (c.get("s1") is not None)]
        h = (how or {}).get(i) or ("killed" if "panic" in r else "err" if "err" in r else "ok")
        t["segs"].append({"how": h, "its": its, "disk0": prev, "disk": disk, "res": rids(result_key(r)) if h in ("ok", "err") else 0,
                          "readable": all("ck" in c for c in r.get("cks") or []), "after_end": ended})
        prev, ended = disk, ended or (h in ("ok", "err"))
    return t


def usable(r):
    return "ok" in r or ("err" in r and r["err"]["e"]["variant"] == "NoFeasibleSolution")


def check_resume(chk):
    chk.assumptions = ["the state of an optimiser is what its checkpoint holds (elapsed time and time stamp aside)"]
    cfg = open(os.path.join(SPEC, "MCResume.cfg")).read()
    if chk.thorough():
        cfg = cfg.replace("MaxN = 5", "MaxN = 9").replace("MaxB = 3", "MaxB = 4").replace("MaxF = 3", "MaxF = 5").replace("MaxCrash = 3", "MaxCrash = 4")
    r = tlc_model("MCResume", cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    rng = chk.rng
    base = [base_scenario(rng, i) for i in range(chk.n(1200, 8000))]
    tr = run_harness(binary, base)
    hist = []
    for s in base:
        r = tr[s["id"]]
        if "died" in r:
            chk.violation("the process died or hung: " + r["died"], {"scenario": s}); continue
        r = r["runs"][0]
        if not usable(r):
            chk.add("runs_with_failing_local_search_skipped"); continue
        for _ in range(2):
            h = history(rng, s, r)
            h["id"] = len(hist); h["base"] = s["id"]
            hist.append(h)
    res = run_harness(binary, [{k: v for k, v in h.items() if k != "base"} for h in hist])
    trs, info = [], {}
    crashes = resumed = 0
    for h in hist:
        r = res[h["id"]]
        if "died" in r:
            chk.violation("the process died or hung: " + r["died"], {"scenario": h}); continue
        trs.append(trace(len(trs), h, tr[h["base"]]["runs"][0], r["runs"]))
        info[trs[-1]["id"]] = (h, tr[h["base"]]["runs"][0], r)
        crashes += sum("panic" in x for x in r["runs"])
        resumed += sum(1 for g in trs[-1]["segs"] if g["disk0"])
    # killed by SIGKILL at a file-system call of some save
    ks = kill_histories(chk, binary, [s for s in base if "died" not in tr[s["id"]] and usable(tr[s["id"]]["runs"][0]) and cks_of(tr[s["id"]]["runs"][0])], tr)
    for h, truth, segs, how in ks:
        trs.append(trace(len(trs), h, truth, segs, how))
        info[trs[-1]["id"]] = (h, truth, segs)
    rej, st = validate("TraceResume", "TraceResume.cfg", trs)
    chk.add("histories_validated", len(trs)); chk.add("interruptions", crashes); chk.add("resumed_runs", resumed)
    chk.add("histories_with_kill_during_a_save", len(ks))
    chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    if resumed < 100:
        raise ToolError("too few resumed runs")
    for i, whys in rej.items():
        h, truth, segs = info[i]
        chk.violation("; ".join(sorted({w for _, w in whys})), {"scenario": h, "uninterrupted": truth, "history": segs})
    chk.sample({"trace": trs[0]})
    return chk.finish()


def kill_case(a):
    binary, so, s, seed = a
    rng = random.Random(seed)
    run = copy.deepcopy(s["runs"][0])
    run["ckpt"] = {"freq": rng.choice([1, 1, 2, 3]), "keep_all": rng.random() < 0.5, "auto_resume": True}
    segs, how = [], {}
    with Scratch() as d:
        base = os.path.join(d, "w"); os.makedirs(base)
        for j in range(2):
            logf = os.path.join(d, f"log{j}")
            plan = f"crash {rng.randint(1, 24)}" if rng.random() < 0.6 else f"torn {2 + 4 * rng.randint(0, 5)} {rng.choice([0, 1, 50])}"
            r, rc = fam_store.harness_once(binary, "run", {"id": 0, "dir": base, "world": s["world"], "runs": [run]}, d,
                                           {"LD_PRELOAD": so, "GSV_SHIM_DIR": base, "GSV_SHIM_LOG": logf, "GSV_SHIM_PLAN": plan})
            if rc == "timeout":
                return None
            if r is not None:
                segs.append(r["runs"][0]); break
            # what is on disk now
            l, rc = fam_store.harness_once(binary, "dump", {"id": 0, "dir": os.path.join(base, "ck")}, d)
            segs.append({"panic": "killed", "cks": l["cks"] if l else [{"file": "?"}], "cbs": []})
            how[len(segs) - 1] = "inmiddle"
        for _ in range(2):
            r, rc = fam_store.harness_once(binary, "run", {"id": 0, "dir": base, "world": s["world"], "runs": [run]}, d)
            segs.append(r["runs"][0] if r else {"panic": f"died {rc}", "cks": [], "cbs": []})
    return dict(world=s["world"], runs=[run]), segs, how


def kill_histories(chk, binary, base, tr):
    from concurrent.futures import ThreadPoolExecutor
    so = fam_store.shim()
    base = base[:chk.n(100, 800)]
    out = []
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(kill_case, [(binary, so, s, f"{chk.seed}-{s['id']}") for s in base]))
    for s, r in zip(base, rs):
        if r is None:
            continue
        h, segs, how = r
        if how:
            out.append((h, tr[s["id"]]["runs"][0], segs, how))
    return out


# ------------------------------------------------------------------ C13
STAGE2 = ("C01", "C02", "C03", "C04", "C05", "C07", "C11")


def feasible(world, p):
    if any(not (lo <= x <= hi) for x, (lo, hi) in zip(p, world["bounds"])):
        return False
    for c in world.get("cons") or []:
        if c["t"] == "lin":
            v = sum(a * x for a, x in zip(c["a"], p)) + c["b"]
        else:
            d = sum((x - q) ** 2 for x, q in zip(p, c["c"]))
            v = c["r2"] - d if c["t"] == "ball" else d - c["r2"]
        if v < -1e-9:
            return False
    return True


def modified_scenario(rng, i, kind):
    if kind == "table":
        s = gen.table_scenario(rng, i, obs=0, m=rng.randint(4, 10), target=0.1)
    else:
        s = gen.real_scenario(rng, i, obs=0)
        if kind == "cons":
            import fam_equiv
            s["world"] = fam_equiv.constrained(rng)
            s["runs"][0].pop("points", None)
            s["runs"][0]["params"]["solver"] = {"type": "COBYLA", "max_iter": 60, "initial_step_size": 0.5}
    a = s["runs"][0]
    a.pop("obs", None)
    if "batch" not in a and a.get("parallel") is not False:
        a["batch"] = 1
    a.update({"solo": False, "ss": False, "log": False})
    p1 = a["params"]
    mode = rng.choice(["latest", "latest", "file", "none"] if rng.random() < 0.3 else ["latest", "latest", "file"])
    if rng.random() < 0.5:
        p1["iterations"] = max(1, p1["iterations"] // 2)
    p2 = copy.deepcopy(p1)
    pop = p1["population"]
    if kind != "table":
        p2["population"] = rng.choice([pop, pop, pop + rng.randint(1, 12), max(4, pop - rng.randint(1, 5)), 2 * pop])
        p2["solver"] = dict(rng.choice(gen.SOLVERS if kind != "cons" else [{"type": "COBYLA", "max_iter": m, "initial_step_size": h} for m in (10, 40) for h in (0.1, 0.7)]))
    else:
        p2["population"] = rng.choice([pop, pop, max(4, pop - 2)])
    p2["iterations"] = min(p2["population"], rng.choice([p2["population"], p2["population"], rng.randint(1, p2["population"])]))
    p2["wait"] = rng.choice([1, 1, 2, 3, 4, 20])
    p2["tf"] = rng.choice([0.1, 0.25, 0.5, 1.0, 2.0])
    p2["df"] = rng.choice([0.0, 0.25, 0.5, 1.0, 2.0, 3.0])
    if rng.random() < 0.3:
        p2["seed"] = gen.seed(rng)
    keep = mode == "file" or rng.random() < 0.7
    a["ckpt"] = {"freq": rng.choice([1, 1, 2, 3]) if mode != "file" else 1, "keep_all": True if mode == "file" else keep, "auto_resume": False}
    b = {"params": copy.deepcopy(p1 if rng.random() < 0.5 else p2), "resume": {"params": p2}, "solo": True, "ss": False, "log": False,
         "ckpt": {"freq": 1, "keep_all": True, "auto_resume": rng.random() < 0.5}}
    if rng.random() < 0.3:          # settings of the new object that the checkpoint overrides
        b["batch"] = 3
    if "threads" in a:
        b["threads"] = a["threads"]
    s.update(mode=mode, p1=p1, p2=p2)
    s["runs"] = [a, b]
    return s


def check_modified(chk):
    cfg = open(os.path.join(SPEC, "MCModify.cfg")).read()
    if chk.thorough():
        cfg = cfg.replace("MaxP = 4", "MaxP = 6").replace("MaxB = 2", "MaxB = 3")
    r = tlc_model("MCModify", cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary, rng = build(), chk.rng
    first = [modified_scenario(rng, i, rng.choice(["table", "table", "real", "real", "cons"])) for i in range(chk.n(1100, 8000))]
    # first run alone: how many objective calls, which checkpoints?
    probe = run_harness(binary, [dict(id=s["id"], world=s["world"], runs=[s["runs"][0]]) for s in first])
    scen, prevs, fresh = [], {}, []
    for s in first:
        r = probe[s["id"]]
        if "died" in r:
            chk.violation("the process died or hung: " + r["died"], {"scenario": s}); continue
        r = r["runs"][0]
        if not usable(r):
            chk.add("runs_with_failing_local_search_skipped"); continue
        cks = cks_of(r)
        if s["mode"] == "none":
            s = copy.deepcopy(s)
            b = s["runs"][1]
            b.update({"points": s["runs"][0].get("points"), "solo": False})
            s["fresh"] = {k: v for k, v in b.items() if k not in ("resume",)}
            s["runs"] = [b]
            s["id"] = len(scen); scen.append(s)
            continue
        if not cks:
            continue
        s = copy.deepcopy(s)
        if s["mode"] == "file":
            c = rng.choice(cks)
            s["runs"][1]["resume"]["file"] = f"ck/run_{c['it']:06d}.bin"
            s["runs"][1]["ckpt"]["dir"] = "ck2"
        else:
            # same directory and kind of files, so that the latest checkpoint is the one found
            s["runs"][1]["ckpt"]["keep_all"] = s["runs"][0]["ckpt"]["keep_all"]
            if rng.random() < 0.6:
                tot = r["counts"][0]
                s["runs"][0]["fault"] = {"kind": "obj", "n": max(1, tot - rng.randint(0, max(1, tot // 3))), "how": "panic"}
        s["id"] = len(scen); scen.append(s)
    send = lambda s: {k: s[k] for k in ("id", "world", "runs")}
    res = run_harness(binary, [send(s) for s in scen])
    # single-file directories show only the final state: repeat the resumed part with a copy of the file into a keep-all directory
    keep, prevs, trs, info = [], {}, [], {}
    fr = {s["id"]: {"id": s["id"], "world": s["world"], "runs": [s["fresh"]]} for s in scen if s["mode"] == "none"}
    fres = run_harness(binary, list(fr.values()))
    for s in scen:
        r = res[s["id"]]
        if "died" in r:
            chk.violation("the process died or hung: " + r["died"], {"scenario": s}); continue
        b = r["runs"][-1]
        rep = b.get("resumed")
        rep = "true" if rep is True else "false" if rep is False else rep if isinstance(rep, str) else "err"
        t = {"id": len(trs), "none": s["mode"] == "none", "reported": rep, "refP": [], "refN": [], "popP": s["p1"]["population"],
             "popN": s["p2"]["population"], "good": [], "params": True, "itP": 0, "itE": 0, "itersN": s["p2"]["iterations"],
             "target": False, "fresh": True}
        if s["mode"] == "none":
            f = fres[s["id"]]
            if "died" in f or not usable(f["runs"][0]):
                continue
            t["fresh"] = result_key(f["runs"][0]) == result_key(b) and [strip(c) for c in cks_of(f["runs"][0])] == [strip(c) for c in cks_of(b)]
        else:
            c0 = cks_of(r["runs"][0])
            if s["mode"] == "file":
                it = int(s["runs"][1]["resume"]["file"][-10:-4])
                c0 = [c for c in c0 if c["it"] == it]
            if not c0:
                chk.add("stopped_before_first_checkpoint"); continue
            prev = c0[-1]
            if not usable(b):
                v = (b.get("err") or {}).get("e", {}).get("variant")
                if v == "ScatterSearchError" and s["world"].get("cons"):
                    chk.add("no_feasible_candidates_skipped"); continue
                if v == "LocalSolverError" or fam_stage2.local_failures(s["runs"][-1], b):
                    chk.add("runs_with_failing_local_search_skipped"); continue
                chk.violation("the resumed run failed: " + str(b.get("err") or b.get("panic"))[:200], {"scenario": s, "result": r}); continue
            after = [c for c in cks_of(b) if c["it"] >= prev["it"]]
            if not after:
                chk.violation("no checkpoint after the resumed run", {"scenario": s, "result": r}); continue
            last = after[-1]
            ids = Ids()
            pid = lambda p: ids(json.dumps(p))
            t["refP"] = [pid(p) for p in prev["ref"]]
            t["refN"] = [pid(p) for p in last["ref"]]
            t["good"] = sorted({pid(p) for p in last["ref"] if feasible(s["world"], [stage2.fl(x) for x in p])})
            t["itP"], t["itE"] = prev["it"], last["it"]
            want, got = s["p2"], last["params"]
            t["params"] = all(stage2.fl(got[k]) == stage2.fl(want[k]) for k in ("tf", "df")) and all(got[k] == want[k] for k in ("iterations", "population", "wait", "seed")) \
                and got["stype"] == want["solver"]["type"]
            tg = prev["target"]
            t["target"] = tg is not None and any(stage2.fl(m[1]) <= stage2.fl(tg) for m in last["set"] or [])
            if s["runs"][-1]["ckpt"]["keep_all"]:
                prevs[len(keep)] = prev
                keep.append(s)
        trs.append(t); info[t["id"]] = (s, r)
    rej, st = validate("TraceModified", "TraceModified.cfg", trs)
    chk.add("histories_validated", len(trs)); chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    for i, whys in rej.items():
        s, r = info[i]
        chk.violation("; ".join(sorted({w for _, w in whys})), {"scenario": s, "result": r, "trace": trs[i]})
    fam_stage2.validate_results(chk, "C13", keep, res, prevs, any_of=STAGE2)
    chk.add("extended_reference_sets", sum(len(t["refN"]) > len(t["refP"]) for t in trs))
    if len(keep) < 100:
        raise ToolError("too few modified resumes")
    chk.sample({"p1": scen[0]["p1"], "p2": scen[0]["p2"], "mode": scen[0]["mode"]})
    return chk.finish()
