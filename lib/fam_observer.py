"""Observer properties C17, C18 (TraceObserver + the observer clauses of TraceStage2)."""
import math
from common import *
import gen, stage2
import fam_stage2

SUBS = ["not_started", "initialization_complete", "diversification_complete", "intensification_complete",
        "scatter_search_complete", "local_optimization_complete", "stage1_complete"]
ZERO2 = {"best": ("nan", "inf"), "size": (0,), "it": (0,), "calls": (0,), "improved": (0,), "evals": (0,), "unch": (0,)}


class Ids:
    def __init__(self):
        self.m = {}

    def __call__(self, x):
        return self.m.setdefault(stage2.fl(x).hex() if not math.isnan(stage2.fl(x)) else "nan", len(self.m) + 1)


def s1view(s, ids, tids):
    if s is None:
        return {"sub": 0, "ref": 0, "tri": 0, "ev": 0, "best": 0, "t1": 0}
    best = 0 if s["bp"] is None else ids(s["best"])
    return {"sub": SUBS.index(s["sub"]) if s["sub"] in SUBS else 9, "ref": s["ref"], "tri": s["trials"], "ev": s["evals"],
            "best": best, "t1": 0 if s["time"] is None else tids(s["time"])}


def zero2(s):
    if s is None:
        return True
    return s["bp"] is None and s["size"] == 0 and s["it"] == 0 and s["calls"] == 0 and s["improved"] == 0 \
        and s["evals"] == 0 and s["unch"] == 0 and s["last"] is None


def view(c, ids, tids):
    v = {"v1": c["s1"] is not None, "v1f": c["s1f"] is not None, "v2": c["s2"] is not None,
         "el": c["elapsed"] is not None, "z2": zero2(c["s2"])}
    v.update(s1view(c["s1"] if c["s1"] is not None else c["s1f"], ids, tids))
    return v


def translate(tid, world, run, res, prev=None):
    """Recorded run with a logging callback -> trace of TraceObserver"""
    if "ok" not in res and not ("err" in res and res["err"]["e"]["variant"] == "NoFeasibleSolution"):
        raise stage2.Skip("run failed")
    o = run["obs"]
    resumed = prev is not None
    ids, tids = Ids(), Ids()
    params = run["resume"]["params"] if resumed and run.get("resume") else run["params"]
    start = prev["it"] if resumed else 0
    cks = sorted((c["ck"] for c in res.get("cks") or [] if "ck" in c), key=lambda c: c["it"])
    cks = [c for c in cks if c["it"] >= start]
    st2 = resumed or bool(cks)
    done = cks[-1]["it"] if cks else start
    target = run.get("target")
    nref = len(cks[-1]["ref"]) if cks else len(prev["ref"]) if prev else len(res["ss"]["ref"])
    cap = min(params["iterations"], nref)
    early = st2 and done < cap
    freq = max(1, o.get("freq", 1)) if o.get("freq", 1) > 0 else 0
    hit = False
    if target is not None and cks:
        hit = any(stage2.fl(m[1]) <= stage2.fl(target) for m in cks[-1]["set"] or [])
    due = sum(1 for i in range(start, done) if freq and i % freq == 0)
    cfg = {"mode": o.get("mode", "both"), "tr1": bool(o.get("stage1", True)), "tr2": bool(o.get("stage2", True)),
           "timing": bool(o.get("timing")), "freq": freq, "start": start}
    # measured truths of Stage 1
    evs, cbs = res["log"]["ev"], res["cbs"]
    nobj, n, best, best4 = {}, 0, None, None
    starts2 = None
    seen = 0
    for e in evs:
        if e[0] == 0:
            n += 1
            if e[2] != "err":
                v = stage2.fl(e[2])
                if not math.isnan(v) and (best is None or v < best):
                    best = v
        elif e[0] == 9:
            nobj[e[1]] = (n, best)
    out = []
    for k, c in enumerate(cbs):
        v = view(c, ids, tids)
        v["nobj"] = nobj[k][0]
        v["pre2"] = k < 3 and not resumed
        out.append(v)
        if v["sub"] == 4 and v["v1"] and best4 is None:
            best4 = nobj[k][1]
    solo = {stage2.key(stage2.pt(s["p"])): s for s in res.get("solo") or []}
    b4, b5 = [], []
    if not resumed:
        ref = res["ss"]["ref"]
        vals = [stage2.fl(f) for _, f in ref]
        fin = [x for x in vals if not math.isnan(x)]
        t4 = best4 if best4 is not None else (min(fin) if fin else math.nan)
        b4 = [ids(t4)]
        # signed zeros compare equal
        b4 += [ids(x) for x in fin if x == t4]
        for (p, f) in ref:
            if not fin or stage2.fl(f) == min(fin):
                s = solo.get(stage2.key(stage2.pt(p)))
                if s is None or "sol" not in s:
                    raise stage2.Skip("no local search recorded")
                b5.append(ids(s["sol"][1]))
                lo = stage2.fl(s["sol"][1])
                if math.isnan(lo) or lo > t4:
                    b5 += b4
    # the initial reference set is what was evaluated before the diversification callback
    n0 = next((v["nobj"] for v in out if v["sub"] == 2 and v["v1"]), 0)
    k = max(2, math.isqrt(n0))
    fin = view(res["obs"], ids, tids)
    return {"id": tid, "cfg": cfg, "resumed": resumed, "stage2": st2, "nref0": n0,
            "nref": len(res["ss"]["ref"]) if not resumed else 0, "ntri": 6 * (k * (k - 1) // 2), "best4": sorted(set(b4)),
            "best5": sorted(set(b5)), "due": due, "slack": stage2.effective_batch(run, params, 0) if hit else 0,
            "cbs": out, "fin": fin}


def obs_variant(rng):
    o = {"mode": rng.choice(["both", "both", "s1", "s2"]), "freq": rng.choice([0, 1, 1, 2, 3, 5, 7])}
    if rng.random() < 0.25:
        o["stage1"] = False
    if rng.random() < 0.25:
        o["stage2"] = False
    if rng.random() < 0.4:
        o["timing"] = True
    if rng.random() < 0.2:
        o["unique"] = True
    return o


def scenario(pid, rng, i):
    r = rng.random()
    seq = None if rng.random() < 0.7 else False
    s = gen.table_scenario(rng, i, seq=seq, weird=rng.random() < 0.1) if r < 0.6 else gen.real_scenario(rng, i, seq=seq)
    s["runs"][0]["obs"] = obs_variant(rng)
    if pid == "C17" and rng.random() < 0.6:
        s["runs"][0]["obs"].update({"mode": rng.choice(["both", "s2", "s1"]), "stage1": True, "stage2": True, "freq": 1})
    return s


def _tr(a):
    i, s, res, prev = a
    run, r = s["runs"][-1], res["runs"][-1]
    try:
        return i, translate(i, s["world"], run, r, prev), None
    except stage2.Skip as e:
        return i, None, str(e)
    except Exception as e:
        return i, None, "malformed: " + repr(e)


def observe(chk, scen, res, prevs=None):
    args = [(i, s, res[s["id"]], (prevs or {}).get(i)) for i, s in enumerate(scen) if "died" not in res[s["id"]]]
    trs = []
    for i, tr, why in fam_stage2.pool_map(_tr, args):
        s, r = scen[i], res[scen[i]["id"]]["runs"][-1]
        if tr is not None:
            trs.append(tr)
        elif why.startswith("malformed") or not fam_stage2.local_failures(s["runs"][-1], r):
            chk.violation("the run cannot be observed: " + why, {"scenario": s, "result": r})
    rej, st = validate("TraceObserver", "TraceObserver.cfg", trs)
    chk.add("observer_traces_validated", len(trs))
    chk.add("recorded_runs_validated", len(trs))
    chk.add("callbacks_validated", sum(len(t["cbs"]) for t in trs))
    chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
    for i, whys in rej.items():
        mine = sorted({w for p, w in whys if p == chk.pid})
        if mine:
            chk.violation("recorded callbacks rejected by TraceObserver: " + "; ".join(mine),
                          {"scenario": scen[i], "result": res[scen[i]["id"]]["runs"][-1]})


def resumed_scenarios(rng, scen, res, n):
    """Two runs over one directory: the first stopped by a crash, the second resumes"""
    out = []
    for s0 in scen:
        if len(out) == n:
            break
        r = res[s0["id"]]
        if "died" in r or "ok" not in r["runs"][0] or not r["runs"][0].get("cks"):
            continue
        tot = r["runs"][0]["counts"][0]
        n1 = len(r["runs"][0]["ss"]["ref"])
        if tot <= n1:
            continue
        s = json.loads(json.dumps(s0))
        a = s["runs"][0]
        a.pop("target", None)
        a["ckpt"] = {"freq": 1, "keep_all": True, "auto_resume": True}
        b = json.loads(json.dumps(a))
        a = dict(a, fault={"kind": "obj", "n": rng.randint(n1 + 1, tot), "how": "panic"}, solo=False)
        b["obs"] = obs_variant(rng)
        s["runs"] = [a, b]
        s["id"] = len(out)
        out.append(s)
    return out


def check(chk):
    chk.assumptions = ["objective calls are counted by the problem itself (harness), independently of the library's counters"]
    r = tlc_model("MCObserver", "MCObserver.cfg")
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    for k in range(chk.n(1, 8)):
        n = chk.n(1800, 3000)
        scen = [scenario(chk.pid, chk.rng, i) for i in range(n)]
        res = run_harness(binary, scen)
        observe(chk, scen, res)
        fam_stage2.validate_results(chk, chk.pid, scen, res)
        # resumed runs
        rs = resumed_scenarios(chk.rng, scen, res, chk.n(700, 1500))
        res = run_harness(binary, rs)
        keep, prevs = [], {}
        for s in rs:
            r2 = res[s["id"]]
            if "died" in r2:
                chk.violation("the process died or hung: " + r2["died"], {"scenario": s})
                continue
            cks = sorted((c["ck"] for c in r2["runs"][0].get("cks") or [] if "ck" in c), key=lambda c: c["it"])
            if "panic" in r2["runs"][0] and cks:
                prevs[len(keep)] = cks[-1]
                keep.append(s)
        observe(chk, keep, res, prevs)
        fam_stage2.validate_results(chk, chk.pid, keep, res, prevs)
        chk.add("resumed_runs", len(keep))
        if k == 0:
            chk.sample({"scenario": scen[0]})
    return chk.finish()
