"""Common machinery: build of /repo, running minizinc, running TLC, evidence, verdicts."""
import os, sys, json, subprocess, hashlib, time, tempfile, shutil, fcntl, random, threading, re, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MZNBUILD = os.path.join(BUILD, "mzn")
SPECS = os.path.join(VERIF, "specs")
EVID = os.path.join(VERIF, "evidence")
SOLVERS = os.environ.get("VERIF_SOLVERS", "/opt/vp/solvers")
NCPU = min(8, os.cpu_count() or 8)
GUARD = "MZN_VERIF"
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


# a shell may start its background jobs with interrupts ignored; the programs under test expect the default
for _s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGCHLD):
    if threading.current_thread() is threading.main_thread() and signal.getsignal(_s) == signal.SIG_IGN and _s != signal.SIGPIPE:
        signal.signal(_s, signal.SIG_DFL)


class ToolError(Exception):
    """The check could not decide (never reported as a violation)."""


# --------------------------------------------------------------------------- build
def _tree_hash():
    h = hashlib.sha256()
    roots = ["include", "lib", "solvers", "cmake"]
    files = ["CMakeLists.txt", "minizinc.cpp", "mzn2doc.cpp"]
    out = []
    for r in roots:
        for d, ds, fs in os.walk(os.path.join(REPO, r)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    out += [os.path.join(REPO, f) for f in files]
    for p in out:
        try:
            with open(p, "rb") as f:
                b = f.read()
        except OSError:
            continue
        h.update(os.path.relpath(p, REPO).encode() + b"\0" + hashlib.sha256(b).digest())
    return h.hexdigest()


def _env_build():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_COMPILERCHECK"] = "content"
    e["CCACHE_MAXSIZE"] = "3G"
    e["CC"] = "/usr/bin/gcc"
    e["CXX"] = "/usr/bin/g++"
    return e


def build():
    """Build /repo's current tree (content-addressed: ccache, and a full ninja clean when any
    source differs from the last build, so file times never matter). Returns minizinc path."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = os.path.join(MZNBUILD, "minizinc")
        stamp = os.path.join(MZNBUILD, "tree.sha")
        h = _tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old == h and os.path.exists(exe):
            return exe
        e = _env_build()
        log = open(os.path.join(BUILD, "build.log"), "w")

        def sh(cmd):
            r = subprocess.run(cmd, env=e, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            if r.returncode != 0:
                log.flush()
                tail = open(log.name, errors="replace").read()[-2000:]
                raise ToolError("build failed: %s\n%s" % (" ".join(cmd), tail))

        if os.path.exists(stamp):
            os.unlink(stamp)
        cc = shutil.which("ccache")
        launch = ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache", "-DCMAKE_C_COMPILER_LAUNCHER=ccache"] if cc else []
        sh(["cmake", "-S", REPO, "-B", MZNBUILD, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
            "-DCMAKE_CXX_FLAGS=-D" + GUARD, "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG",
            "-DCMAKE_C_FLAGS_RELEASE=-O1 -DNDEBUG"] + launch)
        if os.path.exists(exe) or os.path.exists(os.path.join(MZNBUILD, "libmzn.a")):
            sh(["ninja", "-C", MZNBUILD, "-t", "clean"])
        sh(["ninja", "-C", MZNBUILD, "minizinc", "mzn"])
        with open(stamp, "w") as f:
            f.write(h)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


# --------------------------------------------------------------------------- running
_tls = threading.local()
_scratch_root = None


def scratch():
    """A per-process scratch root, removed at exit."""
    global _scratch_root
    if _scratch_root is None:
        os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
        _scratch_root = tempfile.mkdtemp(prefix="s", dir=os.path.join(BUILD, "tmp"))
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch_root, ignore_errors=True))
    return _scratch_root


def tmpdir():
    return tempfile.mkdtemp(prefix="d", dir=scratch())


def mzn_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("MZN")}
    e["MZN_SOLVER_PATH"] = SOLVERS + ":" + os.path.join(VERIF, "tools", "solvers")
    e["MZN_STDLIB_DIR"] = os.path.join(REPO, "share", "minizinc")
    e["LC_ALL"] = "C.UTF-8"
    e["HOME"] = scratch()
    e["TMPDIR"] = scratch()
    if extra:
        e.update(extra)
    return e


class R:
    __slots__ = ("rc", "out", "err", "timeout", "wall")

    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall


def run(cmd, timeout=60, cwd=None, env=None, stdin=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    to = False
    try:
        o, e = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
    return R(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), to, time.time() - t0)


def mzn(args, files=None, timeout=60, env=None, stdin=None, keep=None):
    """Run minizinc in a fresh directory with the given files {name: text}."""
    d = keep or tmpdir()
    try:
        for n, t in (files or {}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
        return run([os.path.join(MZNBUILD, "minizinc")] + list(args), timeout=timeout, cwd=d, env=mzn_env(env), stdin=stdin)
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))


# --------------------------------------------------------------------------- TLC
class TLC:
    def __init__(self, out, states, distinct, ok, marks):
        self.out, self.states, self.distinct, self.ok, self.marks = out, states, distinct, ok, marks


def tlc(spec, cfg, env=None, workers=None, timeout=600, extra=(), heap="6g", deadlock=False, ok_codes=(0,)):
    """Run TLC on specs/<spec>.tla with specs/<cfg>. Lines printed with PrintT(<<"@", ...>>) are
    returned in marks (as lists of strings)."""
    meta = tmpdir()
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", TLACP, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers or NCPU), "-config", cfg, "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [spec]
    try:
        r = run(cmd, timeout=timeout, cwd=SPECS, env=e)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if r.timeout:
        raise ToolError("TLC timed out on %s/%s" % (spec, cfg))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    st, di = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    marks = []
    for x in re.findall(r'<<"@",\s*(.*?)>>', r.out, re.S):
        marks.append([y.strip().strip('"') for y in x.split(",")])
    ok = r.rc in ok_codes
    return TLC(r.out + r.err, st, di, ok, marks)


# --------------------------------------------------------------------------- check context
def _known():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.viol = []
        self.known = _known().get(pid, {})
        self.knownhit = {}
        self.states = self.transitions = self.traces = 0
        self.thorough = tier == "thorough"
        self.deadline = self.t0 + (3000 if self.thorough else 600)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlcstat(self, t):
        self.states += t.distinct
        self.transitions += t.states

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s if len(json.dumps(s)) < 3000 else json.dumps(s)[:3000])

    def violation(self, what, replay, key=None):
        """key identifies the specific failing input for the known-findings file."""
        if key is not None and key in self.known:
            self.knownhit[key] = self.known[key]
            return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol)))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "key": key, "replay": replay}, f, indent=1, default=str)
        self.viol.append((what, p))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol), assumptions=self.assumptions)
        tmp = os.path.join(EVID, self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        for k, t in self.knownhit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        for what, p in self.viol[:int(os.environ.get("VF_SHOW", "6"))]:
            print("  %s" % what[:600].replace("\n", " | "))
        for what, p in self.viol[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s %s: states=%d transitions=%d traces=%d violations=%d wall=%.1fs %s" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, len(self.viol), time.time() - self.t0,
            {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.viol else 0
