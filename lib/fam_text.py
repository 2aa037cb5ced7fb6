"""What the library tells people: the progress log of the built-in callbacks (C25), printed reports (C26)."""
import math, re
from common import *
import gen, stage2
from fam_observer import SUBS, obs_variant
import fam_stage2


class Ids:
    def __init__(self):
        self.m = {}

    def __call__(self, x):
        return self.m.setdefault(x, len(self.m) + 1)


def fx(v):
    """a number as the log prints it"""
    v = stage2.fl(v)
    return ("%.6f" % v).lower()


def coords(p):
    return None if p is None else "[" + ", ".join(fx(x) for x in p) + "]"


F = r"(-?[\d.]+|-?inf|NaN)"
AT = r"(?: at (\[[^\]]*\]))?"
LINES = [(1, re.compile(r"^\[Stage 1\] Initialization Complete \| Initial Points: (\d+)$")),
         (2, re.compile(r"^\[Stage 1\] Diversification Complete \| Ref\. Set Size: (\d+)$")),
         (3, re.compile(r"^\[Stage 1\] Intensification Complete \| Trial Points Generated: (\d+) \| Accepted: (\d+)$")),
         (4, re.compile(r"^\[Stage 1\] Scatter Search Complete \| Best: " + F + AT + "$")),
         (5, re.compile(r"^\[Stage 1\] Local Optimization Complete \| Best: " + F + AT + r" \| Total ?Fn ?Evals: (\d+)$")),
         (10, re.compile(r"^\[Stage 2\] Iter (\d+) \| Best: " + F + AT + r" \| Solutions: (\d+) \| Threshold: " + F
                         + r" \| Local Calls: (\d+) \| Fn Evals: (\d+)$"))]
TEXT = {4: [0, 1], 5: [0, 1], 10: [1, 2, 4]}     # fields held by identity of their printed form


def parse(text, ids):
    out, other = [], 0
    for ln in text.splitlines():
        if not ln.strip() or not ln.startswith("["):
            continue        # warnings of the library are not part of the log
        for k, r in LINES:
            m = r.match(ln.strip())
            if m:
                g = list(m.groups())
                out.append([k] + [(0 if x is None else ids(x.lower())) if i in TEXT.get(k, []) else int(x) for i, x in enumerate(g)])
                break
        else:
            out.append([99])
            other += 1
    return out, other


def view(c, ids):
    v = {"v1": c["s1"] is not None, "v2": c["s2"] is not None, "sub": 0, "ev": 0, "ref": 0, "tri": 0, "best": 0, "bp": 0, "it": 0,
         "best2": 0, "last": 0, "size": 0, "thr": 0, "calls": 0, "evals2": 0, "chg": []}
    s = c["s1"]
    if s is not None:
        v.update(sub=SUBS.index(s["sub"]) if s["sub"] in SUBS else 9, ev=s["evals"], ref=s["ref"], tri=s["trials"], best=ids(fx(s["best"])),
                 bp=0 if s["bp"] is None else ids(coords(s["bp"])))
    s = c["s2"]
    if s is not None:
        h = lambda x: (lambda y: "nan" if math.isnan(y) else float(y + 0.0).hex())(stage2.fl(x))
        v.update(it=s["it"], best2=ids(fx(s["best"])), last=0 if s["last"] is None else ids(coords(s["last"])), size=s["size"], thr=ids(fx(s["thr"])),
                 calls=s["calls"], evals2=s["evals"], chg=[ids("b" + h(s["best"])), s["size"], ids("t" + h(s["thr"])), s["calls"], s["evals"]])
    return v


def translate(tid, kind, unique, rec, con):
    """rec: the run seen by a recording callback; con: the same run with the built-in callback"""
    if ("ok" in rec) != ("ok" in con) or "panic" in rec or "panic" in con:
        raise stage2.Skip("run failed" if "ok" not in rec else "outcomes differ")
    ids = Ids()
    cbs = [view(c, ids) for c in rec["cbs"]]
    if unique:
        last = None
        for c in rec["cbs"]:
            s = c["s2"]
            if s is None or s["it"] == 0:
                continue
            if any(math.isnan(stage2.fl(s[k])) for k in ("best", "thr")):
                raise stage2.Skip("undefined quantities")
            q = [stage2.fl(s["best"]), s["size"], stage2.fl(s["thr"]), s["calls"], s["evals"]]
            if last and last[0] == q and last[1] != s["improved"]:
                raise stage2.Skip("only the count of improving searches changed")
            last = (q, s["improved"])
    lines, other = parse(con["console"], ids)
    return {"id": tid, "kind": kind, "unique": unique, "cbs": cbs, "lines": lines, "other": other}


def log_scenario(rng, i):
    r = rng.random()
    seq = None if rng.random() < 0.7 else False
    s = gen.table_scenario(rng, i, seq=seq, weird=rng.random() < 0.1) if r < 0.7 else gen.real_scenario(rng, i, seq=seq)
    run = s["runs"][0]
    o = obs_variant(rng)
    o.pop("unique", None)
    if rng.random() < 0.7:
        o.update({"mode": "both", "stage1": True, "stage2": True, "freq": rng.choice([1, 1, 1, 2, 3])})
    run["obs"] = o
    run.pop("order", None); run.pop("first", None)
    run["solo"] = run["ss"] = run["log"] = run["dump"] = False
    kind, unique = rng.choice(["default", "default", "stage1", "stage2", "stage2", "freq"]), rng.random() < 0.5
    if rng.random() < 0.25:
        a = json.loads(json.dumps(run))
        a.pop("target", None)
        a["ckpt"] = {"freq": 1, "keep_all": True, "auto_resume": True}
        b = json.loads(json.dumps(a))
        a["fault"] = {"kind": "obj", "n": rng.randint(1, 400), "how": "panic"}
        s["runs"] = [a, b]
    else:
        run.pop("ckpt", None)
    s["kind"], s["unique"] = kind, unique
    return s


def pair(s):
    rec, con = json.loads(json.dumps(s)), json.loads(json.dumps(s))
    o = con["runs"][-1]["obs"]
    if s["kind"] == "freq":     # a frequency without a callback: the default one
        o["cb"] = "none"
        o.setdefault("freq", 1)
    else:
        o["cb"] = s["kind"]
    if s["unique"]:
        o["unique"] = True
    con["runs"][-1]["console"] = True
    return rec, con


def check_log(chk):
    chk.assumptions = ["a run shows its observer the same whichever callback is attached (C10, C19)"]
    r = tlc_model("MCProgressLog", chk.thorough() and open(os.path.join(SPEC, "MCProgressLog.cfg")).read().replace("= 4", "= 6").replace("= 5", "= 7")
                  or "MCProgressLog.cfg")
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    for rnd in range(chk.n(1, 10)):
        scen = [log_scenario(chk.rng, i) for i in range(chk.n(1500, 3000))]
        both = []
        for i, s in enumerate(scen):
            a, b = pair(s)
            a["id"], b["id"] = 2 * i, 2 * i + 1
            both += [a, b]
        res = run_harness(binary, both)
        trs = []
        for i, s in enumerate(scen):
            a, b = res[2 * i], res[2 * i + 1]
            if "died" in a or "died" in b:
                if ("died" in a) != ("died" in b):
                    chk.violation("the process died or hung: " + (a.get("died") or b.get("died")), {"scenario": s})
                continue
            kind = "default" if s["kind"] == "freq" else s["kind"]
            try:
                trs.append(translate(i, kind, s["unique"], a["runs"][-1], b["runs"][-1]))
            except stage2.Skip as e:
                chk.add("skipped_" + str(e).replace(" ", "_"))
                if str(e) == "outcomes differ":
                    chk.violation("the run ends differently with the built-in callback", {"scenario": s, "log": a, "builtin": b})
            chk.add("resumed_runs", int(len(s["runs"]) == 2))
        rej, st = validate("TraceProgressLog", "TraceProgressLog.cfg", trs)
        chk.add("logs_validated", len(trs)); chk.add("traces_validated_against_impl", len(trs)); chk.add("recorded_runs_validated", len(trs))
        chk.add("lines_validated", sum(len(t["lines"]) for t in trs))
        chk.add("lines_filtered", sum(sum(1 for c in t["cbs"] if c["v2"] and c["it"] > 0) - sum(1 for x in t["lines"] if x[0] == 10)
                                      for t in trs if t["unique"] and t["kind"] != "stage1"))
        chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
        for i, whys in rej.items():
            chk.violation("progress log rejected: " + "; ".join(sorted({w for _, w in whys})),
                          {"scenario": scen[i], "kind": scen[i]["kind"], "unique": scen[i]["unique"],
                           "callbacks": res[2 * i]["runs"][-1]["cbs"], "log": res[2 * i + 1]["runs"][-1]["console"]})
        if rnd == 0:
            chk.sample({"scenario": scen[0], "log": res[1]["runs"][-1].get("console") if "runs" in res[1] else None})
    return chk.finish()


# ---------------------------------------------------------------- reports
def ex(v, digits=8):
    """identity of a number printed with that many digits"""
    v = float(v)
    if math.isnan(v):
        return "nan"
    return float("%.*e" % (digits, v)).hex() if v != 0 else "0"


def number(s):
    s = s.strip().lower()
    v = float(s)
    return v


def rnd_value(rng):
    return rng.choice([rng.uniform(-10, 10), rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20), float(rng.randint(-3, 3)), 0.0, -0.0, 1e-320, 1e300, math.inf, -math.inf,
                       rng.choice([math.nan, 1.5]), 0.123456785, 999999999.5])


def report_scenario(rng, i):
    n, d, m = rng.choice([0, 1, 1, 2, 3, 5, 12]), rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, 2, 4])
    pts = [[float(k) + rng.choice([0.0, 0.25])] + [rng.choice([rng.uniform(-5, 5), rng.uniform(-1, 1) * 10 ** rng.randint(-10, 10), 0.0]) for _ in range(d - 1)] for k in range(n)]
    vals = [rnd_value(rng) for _ in range(n)]
    if n and rng.random() < 0.3:
        vals = [rng.choice(vals) for _ in vals]
    cons = [[rng.choice([rnd_value(rng), rng.uniform(-1, 1), 0.0, -0.0, 1e-300, -1e-300, -1e-9]) for _ in range(n)] for _ in range(m)]
    desc = None if rng.random() < 0.5 else ["%s %d" % (rng.choice(["x + y <= 1", "g[0] >= 0 [tight]", "✓ maybe", "a: b"]), k) for k in range(rng.choice([0, 1, m, m + 1]))]
    enc = lambda x: x if math.isfinite(x) else ("nan" if math.isnan(x) else "inf" if x > 0 else "-inf")
    return {"id": i, "points": pts, "vals": [enc(v) for v in vals], "cons": [[enc(v) for v in c] for c in cons], "desc": desc}


R_CON = re.compile(r"^\s*Constraint (\d+)(?: \[(.*)\])?: (\S+) (\S+)\s*\((satisfied|violated by (\S+))\)$")


def statements(text, descs, ids):
    """The report as statements; 'other' counts unreadable lines"""
    out, other, want = [], 0, None
    for ln in text.splitlines():
        s = ln.strip()
        if not s or set(s) <= set("━―-=─ ") or re.fullmatch(r"[━―─=\- ]*Solution Set[━―─=\- ]*", s):
            continue
        try:
            if want:
                out.append([5, ids("p" + " ".join(ex(number(x)) for x in s.strip("[]").split(",")))]); want = None; continue
            m = re.match(r"^Total solutions: (\d+)$", s)
            if m:
                out.append([1, int(m.group(1))]); continue
            m = re.match(r"^Best objective value: (\S+)$", s)
            if m:
                out.append([2, ids("v" + ex(number(m.group(1))))]); continue
            m = re.match(r"^Solution #(\d+)$", s)
            if m:
                out.append([3, int(m.group(1))]); continue
            m = re.match(r"^Objective: (\S+)$", s)
            if m:
                out.append([4, ids("v" + ex(number(m.group(1))))]); continue
            m = re.match(r"^Parameters:\s*(\[.*\])?$", s)
            if m:
                if m.group(1):
                    out.append([5, ids("p" + " ".join(ex(number(x)) for x in m.group(1).strip("[]").split(",")))])
                else:
                    want = True
                continue
            if s == "Constraint violations:":
                out.append([6]); continue
            m = R_CON.match(s)
            if m:
                sat = m.group(5) == "satisfied"
                if sat != (m.group(3) == "✓") or (not sat and m.group(3) != "✗"):
                    out.append([98]); other += 1; continue
                v = number(m.group(4))
                amount = None if sat else number(m.group(6))
                # the amount is printed with six decimals
                key = "c" + ex(v, 6) + ("" if sat else "/" + (fx(amount) if not math.isnan(amount) else "nan"))
                out.append([7, int(m.group(1)), 0 if m.group(2) is None else ids("d" + m.group(2)), ids(key), 1 if sat else 0]); continue
        except ValueError:
            pass
        out.append([99]); other += 1
    return out, other


def report_trace(tid, s, text, with_cons, descs):
    ids = Ids()
    vals = [stage2.fl(v) for v in s["vals"]]
    cons = [[stage2.fl(v) for v in c] for c in s["cons"]]
    sols = []
    for i, p in enumerate(s["points"]):
        cs = []
        for c in (cons if with_cons else []):
            v = c[i]
            sat = v >= 0
            key = "c" + ex(v, 6) + ("" if sat else "/" + (fx(-v) if not math.isnan(v) else "nan"))
            cs.append({"val": ids(key), "sat": sat})
        sols.append({"obj": ids("v" + ex(vals[i])), "par": ids("p" + " ".join(ex(x) for x in p)), "cons": cs})
    fin = [v for v in vals if not math.isnan(v)]
    best = 0 if not vals else ids("v" + ex(min(fin))) if fin else ids("vnan")
    doc, other = statements(text, descs, ids)
    return {"id": tid, "set": {"sols": sols, "best": best, "desc": [ids("d" + x) for x in descs or []], "shown": with_cons}, "doc": doc, "other": other}


def check_report(chk):
    chk.assumptions = ["numbers are compared as printed (nine significant digits)"]
    cfg = open(os.path.join(SPEC, "MCReport.cfg")).read()
    r = tlc_model("MCReport", cfg)
    chk.add("transitions", r["generated"]); chk.add("states", r["distinct"])
    binary = build()
    for rnd in range(chk.n(1, 10)):
        scen = [report_scenario(chk.rng, i) for i in range(chk.n(2500, 6000))]
        res = run_harness(binary, scen, mode="report")
        trs = []
        for i, s in enumerate(scen):
            r = res[i]
            if "died" in r or "harness_panic" in r:
                chk.violation("printing a solution set panics: " + (r.get("died") or r["harness_panic"]), {"scenario": s})
                continue
            trs.append(report_trace(3 * i, s, r["plain"], False, None))
            trs.append(report_trace(3 * i + 1, s, r["with"], True, s["desc"]))
            trs.append(report_trace(3 * i + 2, s, r["problem"], bool(s["cons"]), None))
        rej, st = validate("TraceReport", "TraceReport.cfg", trs)
        chk.add("reports_validated", len(trs)); chk.add("traces_validated_against_impl", len(trs)); chk.add("recorded_runs_validated", len(trs))
        chk.add("statements_validated", sum(len(t["doc"]) for t in trs))
        chk.add("transitions", st["generated"]); chk.add("states", st["distinct"])
        for i, whys in rej.items():
            what = ["plain", "with", "problem"][i % 3]
            chk.violation("report rejected (%s): " % what + "; ".join(sorted({w for _, w in whys})), {"scenario": scen[i // 3], "report": res[i // 3][what]})
        if rnd == 0:
            chk.sample({"scenario": scen[0], "report": res[0].get("with")})
    return chk.finish()
