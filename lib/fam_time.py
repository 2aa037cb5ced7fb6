"""The time limit C06 under a virtual clock (MCTime, TraceTime)."""
import copy, math
from common import *
import gen, stage2
from fam_resume import result_key, cks_of, Ids

LIM = 10**9          # virtual microseconds a run may take (TLC integers)


def base(rng, i):
    r = rng.random()
    s = gen.table_scenario(rng, i, obs=0, m=rng.randint(4, 9), target=0.15) if r < 0.4 else gen.real_scenario(rng, i, obs=0)
    run = s["runs"][0]
    p = run["params"]
    if rng.random() < 0.8:      # many local searches in Stage 2
        p["wait"], p["tf"], p["df"] = rng.choice([1, 1, 2]), rng.choice([1.0, 5.0, 50.0]), rng.choice([0.0, 0.0, 0.1, 0.5])
    if rng.random() < 0.7:
        p["iterations"] = p["population"]
    run.pop("batch", None); run.pop("parallel", None); run.pop("threads", None)
    b = rng.choice([0, 0, 1, 2, 2, 3, 4, 7])
    if b == 0:
        run["parallel"] = False
        if rng.random() < 0.3:
            run["batch"] = rng.choice([2, 5])
    else:
        run["batch"], run["threads"] = b, rng.choice([1, 2, 4])
    s["B"] = max(1, b)
    if rng.random() < 0.2:
        run["verbose"] = True
    if rng.random() < 0.3:
        run["obs"] = {"cb": "none", "freq": 1, "timing": rng.random() < 0.5}
    run["solo"], run["log"] = False, False
    run["ckpt"] = {"freq": 1, "keep_all": True, "auto_resume": False}
    run["durs"] = [0]
    return s


def durations(rng, calls):
    top = max(4, min(5_000_000, LIM // max(1, calls)))
    mid = max(2, top // rng.choice([10, 100, 1000]))
    return rng.choice([[top], [0, top], [1], [0, 0, 0, 0, 0, top], [mid, top], [0, 1, mid, top], [rng.randint(0, top) for _ in range(7)],
                       [rng.randint(0, mid) for _ in range(5)] + [top]])


def state(out):
    c = cks_of(out)
    return json.dumps([result_key(out), {k: v for k, v in c[-1].items() if k not in ("params", "ts", "elapsed")} if c else None], sort_keys=True)


def it_of(out):
    c = cks_of(out)
    return c[-1]["it"] if c else 0


def lims(rng, e, n):
    """limits (seconds as given, limit in the trace) around the times e at which batches end"""
    out = [(None, "inf", []), (-1.0, -1.0, [-1])]
    cand = []
    for x in e:
        cand += [x - 1, x, x + 1]
    for a, b in zip(e, e[1:]):
        if b - a > 2:
            cand += [(a + b) // 2, a + (b - a) // 10, b - (b - a) // 10, a + 1, b - 1]
    cand = sorted({c for c in cand if c >= 0})
    pick = [rng.choice(cand) for _ in range(n)] if cand else []
    out += [(x / 1e6, x / 1e6, [x]) for x in set(pick)]
    out.append((1e300, 1e300, []))
    out.append((0.0, 0.0, [0]))
    if rng.random() < 0.3:
        out.append(("nan", "nan", None))
        out.append(("-inf", "-inf", [-1]))
        out.append((2e-310, 2e-310, [0]))
        out.append((1e20, 1e20, []))
    return [(v, t) for _, v, t in out]


def check(chk):
    chk.assumptions = ["the library reads time through clock_gettime (virtual clock)", "time passes in calls of user functions only"]
    cfg = open(os.path.join(SPEC, "MCTime.cfg")).read()
    if chk.thorough():
        cfg = cfg.replace("Iterations = 3", "Iterations = 5").replace("Sessions = 2", "Sessions = 3")
    r = tlc_model("MCTime", cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    rng = chk.rng
    for rnd in range(chk.n(1, 8)):
        bs = [base(rng, i) for i in range(chk.n(260, 500))]
        r0 = run_harness(binary, bs)
        for s in bs:
            o = r0[s["id"]]
            if "died" in o:
                chk.violation("a run died", {"scenario": s, "result": o}); continue
            s["runs"][0]["durs"] = durations(rng, sum(int(x) for x in o["runs"][0]["counts"][:3]))
        bs = [s for s in bs if "died" not in r0[s["id"]] and "ok" in r0[s["id"]]["runs"][0]]
        # twins: the budget ends after 1, 2, ... batches, and the whole run
        tw, key = [], {}
        for s in bs:
            n = s["runs"][0]["params"]["iterations"]
            nb = (n + s["B"] - 1) // s["B"]
            for b in list(range(1, nb + 1)) + [0]:
                q = copy.deepcopy(s["runs"][0])
                q["params"]["iterations"] = min(n, b * s["B"]) if b else n
                if not b:
                    q["max_time"] = -1.0
                key[(s["id"], b)] = len(tw)
                tw.append({"id": len(tw), "world": s["world"], "runs": [q]})
        r1 = run_harness(binary, tw)
        chk.add("budget_twins", len(tw))
        scen, meta, trs = [], [], []
        for s in bs:
            n = s["runs"][0]["params"]["iterations"]
            nb = (n + s["B"] - 1) // s["B"]
            outs = [r1[key[(s["id"], b)]] for b in range(nb + 1)]
            if any("died" in o or "panic" in o["runs"][0] for o in outs):
                chk.violation("a run with a smaller budget or a tiny limit died or failed", {"scenario": s}); continue
            outs = [o["runs"][0] for o in outs]
            ids = Ids()
            e = [o["virtual_us"] - outs[0]["virtual_us"] for o in outs]
            d = [b - a for a, b in zip(e, e[1:])]
            states = [ids(state(o)) for o in outs]
            # a reached target ends every larger budget at the same batch
            done = (it_of(outs[-1]) + s["B"] - 1) // s["B"]
            d, states, e = d[:done], states[:done + 1], e[:done + 1]
            if any(x < 0 for x in d):
                chk.violation("a run with a larger budget took less time", {"scenario": s, "times": e}); continue
            tiny = it_of(outs[0])
            trs.append({"id": len(trs), "d": d, "lim": [-1], "ran": (tiny + s["B"] - 1) // s["B"], "states": states, "got": states[0], "fine": True})
            meta.append((s, -1.0, trs[-1]))
            for v, t in lims(rng, e, chk.n(6, 12)):
                q = copy.deepcopy(s["runs"][0])
                q["max_time"] = v
                scen.append((s, q, v, t, d, states, ids))
        res = run_harness(binary, [{"id": i, "world": x[0]["world"], "runs": [x[1]]} for i, x in enumerate(scen)])
        for i, (s, q, v, t, d, states, ids) in enumerate(scen):
            o = res[i]
            if "died" in o:
                chk.violation("a limited run died", {"scenario": s, "limit": v}); continue
            o = o["runs"][0]
            if t is None:
                if "ok" not in o:
                    chk.violation("a NaN limit made the run fail", {"scenario": s, "limit": v, "result": {k: z for k, z in o.items() if k != "log"}})
                continue
            ran = (it_of(o) + s["B"] - 1) // s["B"]
            tr = {"id": len(trs), "d": d, "lim": t, "ran": ran, "states": states, "got": ids(state(o)), "fine": "panic" not in o}
            trs.append(tr); meta.append((s, v, tr))
            if ran < len(d):
                chk.add("runs_cut_short")
        # a session resumed after a cut counts its own time
        rs = []
        for s in bs:
            if rng.random() > 0.5 or "target" in s["runs"][0]:
                continue
            n = s["runs"][0]["params"]["iterations"]
            nb = (n + s["B"] - 1) // s["B"]
            outs = [r1[key[(s["id"], b)]]["runs"][0] for b in range(nb + 1)]
            if nb < 3 or any("ok" not in o for o in outs):
                continue
            e = [o["virtual_us"] - outs[0]["virtual_us"] for o in outs]
            k = rng.randint(1, nb - 2)
            while k < nb - 1 and e[k] == e[k - 1]:
                k += 1
            if e[k] == e[k - 1] or k > nb - 2:
                continue
            first = copy.deepcopy(s["runs"][0])
            first["max_time"] = (e[k] - 1) / 1e6 if e[k] - 1 >= e[k - 1] else e[k] / 1e6
            first["ckpt"] = {"freq": 1, "keep_all": False}
            second = copy.deepcopy(first)
            second.pop("max_time")
            rs.append({"id": len(rs), "world": s["world"], "runs": [first, second], "B": s["B"]})
        r2 = run_harness(binary, rs)
        scen2, tw2, key2 = [], [], {}
        for s in rs:
            if "died" in r2[s["id"]]:
                chk.violation("a resumed run died", {"scenario": s}); continue
            a, b = r2[s["id"]]["runs"]
            k, n = it_of(a), it_of(b)
            if "panic" in a or "panic" in b or not 0 < k < n:
                continue
            s["k"], s["n"] = k, n
            # continued with the budget ended after 0, 1, ... further batches
            for j in range(k, n + s["B"], s["B"]):
                q = copy.deepcopy(s["runs"][1])
                q["resume"] = {"params": dict(q["params"], iterations=max(1, min(j, n)))}
                key2[(s["id"], j)] = len(tw2)
                tw2.append({"id": len(tw2), "world": s["world"], "runs": [s["runs"][0], q]})
        r4 = run_harness(binary, tw2)
        for s in rs:
            if "k" not in s:
                continue
            k, n = s["k"], s["n"]
            outs = [r4[key2[(s["id"], j)]] for j in range(k, n + s["B"], s["B"])]
            if any("died" in o or "panic" in o["runs"][1] for o in outs):
                chk.violation("a resumed run died", {"scenario": s}); continue
            outs = [o["runs"][1] for o in outs]
            e = [o["virtual_us"] for o in outs]
            e = [x - e[0] for x in e]
            d = [y - x for x, y in zip(e, e[1:])]
            if any(x < 0 for x in d):
                chk.violation("a run with a larger budget took less time", {"scenario": s, "times": e}); continue
            ids = Ids()
            states = [ids(state(o)) for o in outs]
            plain = rng.random() < 0.5
            for v, t in lims(rng, e, chk.n(4, 8)):
                if t is None:
                    continue
                q = copy.deepcopy(s["runs"][1])
                q["max_time"] = v
                if not plain:
                    q["resume"] = {"params": q["params"]}
                scen2.append(({"id": len(scen2), "world": s["world"], "runs": [s["runs"][0], q]}, s, k, v, t, d, (states, ids)))
        r3 = run_harness(binary, [x[0] for x in scen2])
        for c, s, k, v, t, d, st in scen2:
            if "died" in r3[c["id"]]:
                chk.violation("a resumed limited run died", {"scenario": c}); continue
            o = r3[c["id"]]["runs"][1]
            ran = (it_of(o) - k + s["B"] - 1) // s["B"]
            tr = {"id": len(trs), "d": d, "lim": t, "ran": ran, "states": st[0], "got": st[1](state(o)), "fine": "panic" not in o}
            trs.append(tr); meta.append((c, v, tr))
            chk.add("resumed_sessions_judged")
            if ran < len(d):
                chk.add("resumed_runs_cut_short")
        rej, stt = validate("TraceTime", "TraceTime.cfg", trs)
        chk.add("sessions_judged", len(trs)); chk.add("traces_validated_against_impl", len(trs))
        chk.add("transitions", stt["generated"]); chk.add("states", stt["distinct"])
        for i, whys in rej.items():
            s, v, tr = meta[i]
            chk.violation("; ".join(sorted({w for _, w in whys})), {"scenario": s, "limit": v, "trace": tr})
        if rnd == 0 and scen:
            chk.sample({"scenario": scen[0][0], "limit": scen[0][2]})
    return chk.finish()
