"""Shared plumbing of the checks: build, run the harness, run TLC, report."""
import json, os, re, shutil, subprocess, sys, time, tempfile, threading, queue, hashlib, random, math

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSV_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
NCPU = int(os.environ.get("GSV_JOBS", str(min(8, os.cpu_count() or 8))))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def repo_key():
    """Content key of the library source: a build directory is never reused for other content."""
    h = hashlib.sha256()
    files = []
    for top in ("src", "python/src"):
        for root, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(root, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "python/Cargo.toml")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


_built = {}


def build(features="argmin,rayon,checkpointing"):
    """Build the harness against REPO's current working tree and return the binary."""
    if features in _built:
        return _built[features]
    tag = re.sub(r"[^a-z]+", "-", features) or "none"
    tdir = os.path.join(TARGET, "h-" + tag)
    os.makedirs(tdir, exist_ok=True)
    # cargo decides by mtime: make sure changed content with an old mtime is rebuilt
    keyf = os.path.join(tdir, "repo.key")
    key = repo_key()
    old = open(keyf).read() if os.path.exists(keyf) else ""
    if old and old != key:
        for d in ("debug/.fingerprint", "debug/deps"):
            p = os.path.join(tdir, d)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith(("globalsearch-", "libglobalsearch-", "gsv-")):
                        q = os.path.join(p, n)
                        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
    with open(keyf, "w") as f:
        f.write(key)
    hdir = os.path.join(VERIF, "harness")
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    cmd = ["cargo", "build", "--offline", "--locked", "--no-default-features"]
    if features:
        cmd += ["--features", features]
    t0 = time.time()
    r = subprocess.run(cmd, cwd=hdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    log(f"built harness [{features}] in {time.time()-t0:.1f}s")
    _built[features] = os.path.join(tdir, "debug", "gsv")
    return _built[features]


# ---------------------------------------------------------------- scratch
def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="gsv", dir=scratch_base())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------- harness
def run_harness(binary, scenarios, mode="run", jobs=None, timeout=40, chunk=None, env=None):
    """Run scenarios (dicts with distinct "id") and return {id: result}.
    A scenario on which the process dies or exceeds `timeout` seconds yields {"died": ...}."""
    jobs = jobs or NCPU
    out = {}
    if not scenarios:
        return out
    n = chunk or max(1, min(40, (len(scenarios) + jobs * 4 - 1) // (jobs * 4)))
    q = queue.Queue()
    for i in range(0, len(scenarios), n):
        q.put(scenarios[i:i + n])
    lock = threading.Lock()
    errs = []
    with Scratch() as base:
        def work():
            while True:
                try:
                    todo = q.get_nowait()
                except queue.Empty:
                    return
                while todo:
                    d = tempfile.mkdtemp(dir=base)
                    res = os.path.join(d, "out.jsonl")
                    e = dict(os.environ, GSV_SCRATCH=d, RUST_BACKTRACE="0")
                    if env:
                        e.update(env)
                    p = subprocess.Popen([binary, mode, res], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                         stderr=subprocess.DEVNULL, env=e, cwd=d)
                    inp = "".join(json.dumps(s) + "\n" for s in todo).encode()
                    why = None
                    try:
                        p.communicate(inp, timeout=timeout * max(1, min(4, len(todo))))
                        if p.returncode != 0:
                            why = f"exit {p.returncode}"
                    except subprocess.TimeoutExpired:
                        p.kill(); p.wait(); why = "timeout"
                    except BrokenPipeError:
                        p.wait(); why = f"exit {p.returncode}"
                    got = []
                    if os.path.exists(res):
                        for line in open(res):
                            try:
                                got.append(json.loads(line))
                            except ValueError:
                                break
                    with lock:
                        for r in got:
                            if "harness_panic" in r:
                                errs.append(f"{r['id']}: {r['harness_panic']}")
                            out[r["id"]] = r
                    shutil.rmtree(d, ignore_errors=True)
                    if why is None:
                        if len(got) != len(todo):
                            errs.append("harness lost scenarios")
                        break
                    if len(got) < len(todo):
                        with lock:
                            out[todo[len(got)]["id"]] = {"id": todo[len(got)]["id"], "died": why}
                    todo = todo[len(got) + 1:]
        ths = [threading.Thread(target=work) for _ in range(jobs)]
        [t.start() for t in ths]
        [t.join() for t in ths]
    if errs:
        raise ToolError("harness error: " + "; ".join(errs[:3]))
    return out


# ---------------------------------------------------------------- TLC
JARS = "/opt/veriftools/tla/tla2tools.jar"


def tlc(module, cfg, files=None, workers=None, timeout=600, extra=(), heap="4g"):
    """Run TLC on spec/<module>.tla in a scratch copy. files: {name: text}. Returns a dict."""
    with Scratch() as d:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, txt in (files or {}).items():
            with open(os.path.join(d, n), "w") as fh:
                fh.write(txt)
        if "\n" in cfg:
            with open(os.path.join(d, "run.cfg"), "w") as fh:
                fh.write(cfg)
            cfg = "run.cfg"
        cmd = ["tlc", "-workers", str(workers or NCPU), "-config", cfg, "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", *extra, module + ".tla"]
        env = dict(os.environ, JAVA_TOOL_OPTIONS=os.environ.get("JAVA_TOOL_OPTIONS", "") + f" -Xmx{heap} -XX:+UseParallelGC")
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        o = r.stdout
        res = {"rc": r.returncode, "out": o, "ok": r.returncode == 0 and "No error has been found" in o}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        if m:
            res["generated"], res["distinct"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"Invariant (\S+) is violated", o) or re.search(r"Action property (\S+) is violated", o) \
            or re.search(r"Temporal properties were violated", o)
        res["violated"] = (m.group(1) if m and m.groups() else (m.group(0) if m else None))
        return res


def tlc_model(module, cfg, props=None, **kw):
    """Exhaustive model run that must be clean; a failure is an error of the specification."""
    r = tlc(module, cfg, **kw)
    if not r["ok"]:
        raise ToolError(f"model {module}/{cfg[:40]} is not clean: {r['violated']}\n" + r["out"][-3000:])
    return r


def printed_json(out):
    """Records printed with PrintT(ToJson(..)): TLC shows them as quoted TLA+ strings."""
    recs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"{') and line.endswith('}"'):
            try:
                recs.append(json.loads(json.loads(line)))
            except ValueError:
                try:
                    recs.append(json.loads(line[1:-1].replace('\\"', '"')))
                except ValueError:
                    raise ToolError("cannot parse TLC output: " + line[:200])
    return recs


def validate(module, cfg, traces, timeout=600, parts=None, name="traces.json"):
    """Validate traces (each with a unique integer "id") with a trace specification.
    Returns (rejections {id: [(prop, why)...]}, stats). Every trace must be consumed to its end."""
    if not traces:
        return {}, {"generated": 0, "distinct": 0}
    parts = parts or max(1, min(NCPU // 2, (len(traces) + 149) // 150))
    chunks = [traces[i::parts] for i in range(parts)]
    results = [None] * parts
    def work(i):
        try:
            results[i] = tlc(module, cfg, files={name: json.dumps(chunks[i])}, workers=2 if parts > 1 else 4,
                             timeout=timeout, heap="3g")
        except Exception as e:      # noqa
            results[i] = e
    ths = [threading.Thread(target=work, args=(i,)) for i in range(parts)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    rej, stats, done = {}, {"generated": 0, "distinct": 0}, {}
    for r in results:
        if isinstance(r, Exception):
            raise r if isinstance(r, ToolError) else ToolError(repr(r))
        if not r["ok"]:
            raise ToolError(f"{module}: TLC failed\n" + r["out"][-3000:])
        stats["generated"] += r["generated"]; stats["distinct"] += r["distinct"]
        for rec in printed_json(r["out"]):
            if "done" in rec:
                done.setdefault(rec["done"], []).append([tuple(x) for x in rec["bad"]])
    for tr in traces:
        if tr["id"] not in done:
            raise ToolError(f"{module}: trace {tr['id']} was not consumed to its end")
        paths = done[tr["id"]]
        props = set(p for p, _ in paths[0])
        for q in paths[1:]:
            props &= set(p for p, _ in q)
        if props:
            whys = sorted({x for q in paths for x in q if x[0] in props})
            rej[tr["id"]] = whys
    return rej, stats


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level, technique=None):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.assumptions = []

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def add(self, key, k=1):
        self.cov[key] = self.cov.get(key, 0) + k

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def violation(self, why, replay):
        """replay: JSON-serialisable description that reproduces the violation."""
        self.viol.append((why, replay))

    def finish(self):
        kf = known_findings()
        out, known = [], []
        for why, rep in self.viol:
            k = match_known(kf, self.pid, rep)
            (known if k else out).append((why, rep, k))
        self.cov["samples"] = [x for x in self.samples if x is not None]
        if self.level == "model_checking":
            c = self.cov
            c["traces_validated_against_impl"] = sum(c.get(k, 0) for k in
                ("recorded_runs_validated", "behaviours_replayed", "histories_validated"))
            c.setdefault("states", 0); c.setdefault("transitions", 0)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(out)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted({k for _, _, k in known}):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if out:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (why, rep, _) in enumerate(out[:5]):
                p = os.path.join(d, f"{self.pid}-{i}.json")
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "why": why, "replay": rep}, f, indent=1)
                log(f"{self.pid}: {why}")
                print(f"VIOLATION property={self.pid} replay={p}")
            if len(out) > 5:
                log(f"... and {len(out)-5} more")
            return 1
        log(f"{self.pid}: held; {json.dumps({k: v for k, v in self.cov.items() if k not in ('samples', 'rule')})} in {ev['wall_s']}s")
        return 0


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def match_known(kf, pid, rep):
    for k in kf:
        if k["property"] == pid and isinstance(rep, dict) and rep.get("key") == k["key"]:
            return k["what"]
    return None


def build_py():
    """Build the Python bindings and the landscapes as shared objects; returns their directory."""
    tdir = os.path.join(TARGET, "py")
    os.makedirs(tdir, exist_ok=True)
    keyf = os.path.join(tdir, "repo.key")
    key = repo_key()
    old = open(keyf).read() if os.path.exists(keyf) else ""
    if old and old != key:
        for d in ("debug/.fingerprint", "debug/deps"):
            p = os.path.join(tdir, d)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith(("globalsearch-", "libglobalsearch-", "pyglobalsearch-", "libpyglobalsearch", "worldlib-", "libworldlib")):
                        q = os.path.join(p, n)
                        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
    with open(keyf, "w") as f:
        f.write(key)
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", PYO3_PYTHON=sys.executable)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--workspace"], cwd=os.path.join(VERIF, "pyharness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if r.returncode != 0:
        raise ToolError("the Python bindings do not build:\n" + r.stdout[-4000:])
    return os.path.join(tdir, "debug")
