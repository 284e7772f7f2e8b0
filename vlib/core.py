"""Shared machinery of the checks: build the harness, run TLC, replay cases, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPECS = os.path.join(ROOT, "specs")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 4)
T0 = time.time()


class ToolError(Exception):
    pass


def cargo_env(target=None):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.87", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=target or os.path.join(BUILD, "target"))
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def _fresh(target):
    """Force a rebuild of the crates under test when their content changed, whatever the time stamps say."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "test-examples"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".pest", ".lalrpop")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    dig = h.hexdigest()
    stamp = os.path.join(BUILD, os.path.basename(target) + ".stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != dig:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("carcara", "vh-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    return stamp, dig


_built = {}


def build_harness():
    if "h" not in _built:
        _built["h"] = _build_harness()
    return _built["h"]


def build_cli():
    if "c" not in _built:
        _built["c"] = _build_cli()
    return _built["c"]


def _build_harness():
    """Build the harness against /repo's current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp, dig = _fresh(os.path.join(BUILD, "target"))
        p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(ROOT, "harness"), env=cargo_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-3000:])
        open(stamp, "w").write(dig)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(BUILD, "target", "debug", "vh")


def _build_cli():
    """Build the carcara executable from /repo's current working tree, outside /repo."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lockcli"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp, dig = _fresh(os.path.join(BUILD, "cli"))
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "carcara-cli"], cwd=REPO,
                           env=cargo_env(os.path.join(BUILD, "cli")), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise ToolError("cli build failed:\n" + p.stdout[-3000:])
        open(stamp, "w").write(dig)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(BUILD, "cli", "debug", "carcara")


_cfgval = lambda v: ("TRUE" if v else "FALSE") if isinstance(v, bool) else (
    str(v) if isinstance(v, int) else v if v.startswith("{") or v.startswith("<<") else '"%s"' % v)


class Tlc:
    def __init__(self, rows, states, distinct, depth, out):
        self.rows, self.states, self.distinct, self.depth, self.out = rows, states, distinct, depth, out


def tlc_(module, consts=None, inv=("Emit",), init="Init", nxt="Next", simulate=None, depth=None, workers=NPROC,
        timeout=int(os.environ.get('TLC_LIMIT', '600')), constraint=None, view=None, extra="", heap="6g", props=(), spec=None, tag="CASE"):
    """Run TLC on specs/<module>.tla; return emitted rows (tab separated fields) and state counts."""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        cfg = ""
        if spec:
            cfg += "SPECIFICATION %s\n" % spec
        else:
            cfg += "INIT %s\nNEXT %s\n" % (init, nxt)
        for k, v in (consts or {}).items():
            cfg += "CONSTANT %s = %s\n" % (k, _cfgval(v))
        for i in inv:
            cfg += "INVARIANT %s\n" % i
        for i in props:
            cfg += "PROPERTY %s\n" % i
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        if view:
            cfg += "VIEW %s\n" % view
        cfg += "CHECK_DEADLOCK FALSE\n" + extra
        open(os.path.join(d, "M.cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "M.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(SEED)]
            if depth:
                cmd += ["-depth", str(depth)]
        else:
            cmd += ["-fp", "1", "-seed", str(SEED)]
        cmd.append(module + ".tla")
        fn = os.path.join(d, "out.txt")
        with open(fn, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout,
                                   env=dict(os.environ, JAVA_TOOL_OPTIONS=""))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on " + module)
        rows, other = [], []
        pre = '"%s\\t' % tag
        seen = set()
        for line in open(fn, errors="replace"):
            if line.startswith(pre):
                if line not in seen:
                    seen.add(line)
                    rows.append(json.loads(line)[len(tag) + 1:].split("\t"))
            elif len(other) < 2000:
                other.append(line)
        out = "".join(other)
        if rc != 0 or "Error:" in out:
            k = out.find("Error:")
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[max(0, k - 1500):k + 3000]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", out) or re.search(r"()(\d+) states", out)
        states, distinct = 0, 0
        m = re.search(r"^(\d+) states generated, (\d+) distinct", out, re.M)
        if m:
            states, distinct = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"(\d+) states checked", out) or re.search(r"generated: (\d+)", out)
            if m:
                states = distinct = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        rows.sort()
        return Tlc(rows, states, distinct, int(m.group(1)) if m else 0, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc(*a, **k):
    return timed(tlc_)(*a, **k)


_hangs = [0]


def run_cmd(cmd, timeout=60, text=False, **k):
    """Run a program of the tree under test; one that does not end has exit status -99."""
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=text, timeout=timeout if _hangs[0] < 8 else 4, **k)
    except subprocess.TimeoutExpired:
        _hangs[0] += 1
        e = "" if text else b""
        return subprocess.CompletedProcess(cmd, -99, e, "it did not end" if text else b"it did not end")


_restarts = [0]


# a runaway loop that allocates ends with an error before the sandbox runs out of memory
CAP = "ulimit -d 3500000; exec \"$0\""


def _shard(exe, cases, limit):
    res = []
    i = 0
    restarts = hangs = 0
    while i < len(cases):
        p = subprocess.Popen(["bash", "-c", CAP, exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                             env=dict(os.environ, VH_LIMIT=str(limit if _hangs[0] < 3 else min(limit, 10))))
        def feed(p=p, i=i):
            try:
                for c in cases[i:]:
                    p.stdin.write(json.dumps(c) + "\n")
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        n0 = i
        for line in p.stdout:
            line = line.strip()
            if not line.startswith("{"):
                continue
            try:
                r = json.loads(line)
            except ValueError:
                continue
            res.append(r)
            i += 1
        p.wait()
        t.join()
        if i < len(cases):
            restarts += 1
            if res and i > n0 and res[-1].get("v") == "hang":
                pass
            else:
                res.append({"v": "crash", "msg": "process died rc=%s" % p.returncode})
                i += 1
            hangs += res[-1].get("v") == "hang"
            _hangs[0] += res[-1].get("v") == "hang"
            _restarts[0] += 1
            if restarts > 40 or hangs > 3 or _hangs[0] > 12 or _restarts[0] > 60:
                res += [{"v": "crash", "msg": "too many restarts"}] * (len(cases) - i)
                i = len(cases)
    return res


def timed(f):
    def g(*a, **k):
        t0 = time.time()
        try:
            return f(*a, **k)
        finally:
            if os.environ.get("VERIF_TIME"):
                print("%s %s %.1fs" % (f.__name__, a[0] if isinstance(a[0], str) else len(a[0]), time.time() - t0), file=sys.stderr)
    return g


@timed
def replay(cases, limit=60, procs=NPROC):
    exe = build_harness()
    if not cases:
        return []
    n = max(1, min(procs, (len(cases) + 19) // 20))
    shards = [cases[k::n] for k in range(n)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda s: _shard(exe, s, limit), shards))
    out = [None] * len(cases)
    for k in range(n):
        for j, r in enumerate(rs[k]):
            if k + j * n < len(out):
                out[k + j * n] = r
    for j, r in enumerate(out):
        if r is None:
            raise ToolError("missing result for a case")
    return out


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def load_known(prop):
    ks = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                ks[m.group(2)] = m.group(3).strip()
    return ks


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.known = load_known(prop)
        self.viol = []          # (key, case, text)
        self.seen_known = {}
        self.states = self.trans = self.replayed = 0
        self.extra = {}
        self.samples = []
        self.nontrivial = set()
        self.assumptions = []

    def model(self, t):
        self.states += t.distinct
        self.trans += t.states
        return t

    def tlc(self, *a, **k):
        return self.model(tlc(*a, **k))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def violation(self, case, text, ident=None):
        """`ident` identifies the failing input (default: the case itself)."""
        key = key_of(ident if ident is not None else case)
        if key in self.known:
            self.seen_known[key] = self.known[key]
            return
        self.viol.append((key, case, text))

    def finish(self, assumptions=()):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.replayed,
                   samples=self.samples or ["(none)"])
        cov.update(self.extra)
        if self.level != "model_checking":
            cov.setdefault("evaluations", self.replayed)
            cov.setdefault("distinct_nontrivial", len(self.nontrivial) or self.replayed)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=list(assumptions) + self.assumptions, wall_s=round(time.time() - T0, 1), violations=len(self.viol))
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for k, what in sorted(self.seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if os.environ.get("VERIF_DUMP"):
            with open(os.environ["VERIF_DUMP"], "w") as f:
                for key, case, text in self.viol:
                    f.write(json.dumps(dict(key=key, text=text, case=case)) + "\n")
        for n, (key, case, text) in enumerate(self.viol[:10]):
            fn = os.path.join(d, "%s-%s.json" % (self.prop, key))
            json.dump(dict(property=self.prop, what=text, case=case), open(fn, "w"), indent=1)
            print("  %s" % text[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, fn))
        if len(self.viol) > 10:
            print("  ... and %d more" % (len(self.viol) - 10))
        print("%s: %d violations, %d known; states=%d replayed=%d %.1fs" % (
            self.prop, len(self.viol), len(self.seen_known), self.states, self.replayed, time.time() - T0))
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)
