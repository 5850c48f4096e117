"""Common machinery of the checks: build, servers, clients, verdicts, evidence."""
import atexit, fcntl, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
VENV_PY = "/opt/vp/venv/bin/python"
T0 = time.time()


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class HarnessError(Exception):
    """The check itself could not run: neither held nor violated."""


# ---------------------------------------------------------------- build
def cargo_env():
    env = dict(os.environ)
    env.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true",
               PYO3_PYTHON="/usr/bin/python3.12", PIP_NO_INDEX="1", UV_OFFLINE="1")
    for k in ("SPARK_REMOTE", "SPARK_HOME", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        env.pop(k, None)
    return env


_built = False


def build(extra=()):
    """Builds the native module from the working tree, with the feature resolution of build.sh."""
    global _built
    if os.environ.get("VERIF_NO_BUILD"):
        return
    t = time.time()
    lock = open("/tmp/.verif-build.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        r = subprocess.run(["cargo", "build", "--workspace", "--lib", "--test", "syntax", "--offline", "--locked", *extra],
                           cwd=REPO, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            raise HarnessError("build failed")
        native = os.path.join(REPO, "python/pysail/_native.so")
        so = os.path.join(REPO, "target/debug/libsail_python.so")
        if not (os.path.islink(native) and os.readlink(native) == so):
            if os.path.lexists(native):
                os.unlink(native)
            os.symlink(so, native)
    finally:
        lock.close()
    _built = True
    log("build done in %.1fs" % (time.time() - t))


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH_BASE", "/tmp")
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ---------------------------------------------------------------- servers
_PDEATH = "import ctypes,signal; ctypes.CDLL('libc.so.6').prctl(1, signal.SIGKILL)"
_SERVER_MAIN = _PDEATH + """
import os, sys, time
sys.path.insert(0, os.environ["VERIF_REPO_PYTHON"])
kind = sys.argv[1]
portfile = sys.argv[2]
if kind == "spark":
    from pysail.spark import SparkConnectServer as Srv
else:
    from pysail.flight import FlightSqlServer as Srv
s = Srv("127.0.0.1", int(sys.argv[3]) if len(sys.argv) > 3 else 0)
s.start(background=True)
host, port = s.listening_address
with open(portfile + ".tmp", "w") as f:
    f.write(str(port))
os.rename(portfile + ".tmp", portfile)
while True:
    if not sys.stdin.buffer.read(1):
        break
os._exit(0)
"""

BASE_ENV = {
    "TZ": "UTC",
    "SAIL_RUNTIME__STACK_SIZE": "16777216",
    "RUST_BACKTRACE": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
}
_servers = []
_nserver = 0
PANIC_RE = re.compile(r"panicked at ([^\n]*)\n([^\n]*)")


class Server:
    """One server process; its standard error is kept and searched for panics."""

    def __init__(self, env=None, kind="spark", name=None, start_timeout=120, preexec=None, port=0):
        global _nserver
        _nserver += 1
        self.name = name or "server%d" % _nserver
        d = os.path.join(scratch(), "srv-%d-%s" % (_nserver, self.name))
        os.makedirs(d, exist_ok=True)
        self.dir = d
        self.stderr_path = os.path.join(d, "stderr")
        portfile = os.path.join(d, "port")
        e = {k: v for k, v in os.environ.items() if not k.startswith(("SAIL_", "AWS_", "SPARK_"))}
        e.update(BASE_ENV)
        e["VERIF_REPO_PYTHON"] = os.path.join(REPO, "python")
        e["PYTHONPATH"] = os.path.join(REPO, "python")
        e["TMPDIR"] = d
        e.update({k: str(v) for k, v in (env or {}).items()})
        self.env = env or {}
        self.proc = subprocess.Popen([VENV_PY, "-c", _SERVER_MAIN, kind, portfile, str(port)], cwd=d, env=e,
                                     stdin=subprocess.PIPE, stdout=open(os.path.join(d, "stdout"), "w"),
                                     stderr=open(self.stderr_path, "w"), preexec_fn=preexec, start_new_session=True)
        _servers.append(self)
        t = time.time()
        while not os.path.exists(portfile):
            if self.proc.poll() is not None:
                raise HarnessError("server exited with %s: %s" % (self.proc.returncode, self.stderr()[-2000:]))
            if time.time() - t > start_timeout:
                raise HarnessError("server did not start: " + self.stderr()[-2000:])
            time.sleep(0.02)
        self.port = int(open(portfile).read())

    @property
    def url(self):
        return "sc://127.0.0.1:%d" % self.port

    def alive(self):
        return self.proc.poll() is None

    def stderr(self):
        try:
            return open(self.stderr_path, errors="replace").read()
        except OSError:
            return ""

    def panics(self):
        # the kernels of arrow compute on the values under nulls: their overflows show in builds with overflow checks only
        return ["%s: %s" % (a.strip(), b.strip()) for a, b in PANIC_RE.findall(self.stderr())
                if not ("/arrow-" in a and "with overflow" in b)]

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(30)
        except Exception:
            pass

    stop = kill


def stop_all():
    for s in _servers:
        if s.proc.poll() is None:
            s.kill()


atexit.register(stop_all)
_patched = False


def _patch_client():
    """Closing a client must not wait for the server (the suite's own session setup does the same)."""
    global _patched
    if _patched:
        return
    _patched = True
    import logging, warnings
    warnings.filterwarnings("ignore")
    logging.getLogger("pyspark").setLevel(logging.CRITICAL)
    logging.getLogger("pyspark.sql.connect.client.logging").setLevel(logging.CRITICAL)


def connect(server, conf=None, tz="UTC", ansi=True):
    _patch_client()
    os.environ.setdefault("TZ", "UTC")
    from pyspark.sql.connect.session import SparkSession
    url = server if isinstance(server, str) else server.url
    spark = SparkSession.builder.remote(url).create()
    spark.conf.set("spark.sql.session.timeZone", tz)
    spark.conf.set("spark.sql.ansi.enabled", "true" if ansi else "false")
    for k, v in (conf or {}).items():
        spark.conf.set(k, v)
    return spark


class QueryError(Exception):
    pass


def run_sql(spark, q):
    """Rows of a statement as a list of tuples."""
    return [tuple(r) for r in spark.sql(q).collect()]


def err_text(e):
    s = str(e)
    return s if len(s) < 800 else s[:800] + "..."


# ---------------------------------------------------------------- verdicts
def load_known(prop):
    """Known findings of a property: signature -> description."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    """Collects what a run observed and turns it into the exit status and the evidence file."""

    def __init__(self, prop, level="exploration", rule="", budget=None):
        self.prop, self.level, self.rule = prop, level, rule
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_seen = {}
        self.inconclusive = []
        self.lock = threading.RLock()
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.max_violations = 3
        self.replay_dir = os.path.join(VERIF, "replays", prop)

    def elapsed(self):
        return time.time() - self.t0

    def count(self, key, n=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def observe(self, key, value):
        """Adds to a set of distinct observations that the evidence counts."""
        with self.lock:
            self.cov.setdefault(key, set()).add(value)

    def case(self, key, nontrivial=True, sample=None):
        with self.lock:
            self.evals += 1
            if nontrivial:
                self.distinct.add(key)
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def violation(self, sig, detail):
        """Reports that the property is broken; sig identifies the failing case."""
        sig = re.sub(r"\s+", "_", sig)
        with self.lock:
            if sig in self.known:
                self.known_seen.setdefault(sig, detail)
                return False
            if any(v["sig"] == sig for v in self.violations):
                return True
            self.violations.append({"sig": sig, "detail": detail})
            log("VIOLATION", sig, json.dumps(detail, default=str)[:500])
            return True

    def too_many(self):
        return len(self.violations) >= self.max_violations

    def note_inconclusive(self, what):
        with self.lock:
            self.inconclusive.append(what)
            log("inconclusive:", what)

    def finish(self, min_cases=1):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["none"]}
        for k, v in self.cov.items():
            if isinstance(v, set):
                cov["distinct_" + k] = len(v)
                cov[k + "_seen"] = sorted(map(str, v))[:40]
            else:
                cov[k] = v
        if self.inconclusive:
            cov["inconclusive"] = [str(x)[:300] for x in self.inconclusive[:20]]
            cov["inconclusive_count"] = len(self.inconclusive)
        cov["known_findings_seen"] = sorted(self.known_seen)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for sig, d in self.known_seen.items():
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, sig, self.known[sig]), flush=True)
        log("evaluations=%d distinct=%d violations=%d inconclusive=%d wall=%.1f" %
            (self.evals, len(self.distinct), len(self.violations), len(self.inconclusive), ev["wall_s"]))
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            for i, v in enumerate(self.violations):
                path = os.path.join(self.replay_dir, "%d-%d.json" % (SEED, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "signature": v["sig"],
                               "command": "VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s" % (SEED, TIER, self.prop),
                               "witness": v["detail"]}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        if self.evals < min_cases:
            log("too few observations: %d < %d" % (self.evals, min_cases))
            return 3
        return 0


def main(fn):
    """Runs a check: fn() returns the exit status."""
    try:
        rc = fn()
    except HarnessError as e:
        log("harness error:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    stop_all()
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
    os._exit(rc)
