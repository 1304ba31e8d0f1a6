"""Building the code under test, running the conformance drivers, running TLC, writing evidence."""
import atexit, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEXI_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JOBS = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="lexiv-")
        atexit.register(shutil.rmtree, _scratch, True)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


def tmp(name):
    d = os.path.join(scratch(), name)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    return d


# ---------------------------------------------------------------- build

BASE_FLAGS = ["-std=c++14", "-include", "cstdint", "-w"]


def sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))


class Variant:
    """One way of building the library and a driver."""
    def __init__(self, name, cxx="g++", flags=("-O1",), driver="driver.cpp", wrap=None, link=(), defs=()):
        self.name, self.cxx, self.flags, self.driver = name, cxx, list(flags), driver
        self.wrap = wrap or {}          # basename -> wrapper source in harness/
        self.link = list(link)
        self.defs = list(defs)


def build(variants):
    """Compile every variant from the current tree, all translation units in parallel."""
    jobs, out, done = [], {}, {}
    for v in variants:
        key = repr((v.name, v.cxx, v.flags, v.driver, sorted(v.wrap.items()), v.link, v.defs))
        if build.cache.get(v.name, ("",))[0] == key:       # a later round of the same run
            done[v.name] = build.cache[v.name][1]
            continue
        build.cache[v.name] = (key, None)
        d = tmp("b_" + v.name + "/x")
        d = os.path.dirname(d)
        objs = []
        for src in sources() + [os.path.join(HARNESS, v.driver)]:
            base = os.path.basename(src)
            o = os.path.join(d, ("drv_" if src.startswith(HARNESS) else "") + os.path.relpath(src, REPO).replace("/", "_").replace("..", "") + ".o")
            unit = os.path.join(HARNESS, v.wrap[base]) if base in v.wrap and not src.startswith(HARNESS) else src
            cmd = [v.cxx] + BASE_FLAGS + v.flags + v.defs + ["-I", REPO + "/include", "-I", REPO + "/src/detail", "-c", unit, "-o", o]
            jobs.append((0 if src.startswith(HARNESS) else 1, cmd))
            objs.append(o)
        exe = os.path.join(d, "exe")
        out[v.name] = (v, objs, exe)
    jobs.sort(key=lambda j: j[0])

    def one(cmd):
        return cmd, subprocess.run(cmd, capture_output=True, text=True)
    with ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in ex.map(one, [j[1] for j in jobs]):
            if r.returncode:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        links = [[v.cxx] + v.flags + objs + ["-o", exe] + v.link for v, objs, exe in out.values()]
        for cmd, r in ex.map(one, links):
            if r.returncode:
                raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    for n, (v, objs, exe) in out.items():
        build.cache[n] = (build.cache[n][0], exe)
        done[n] = exe
    return done


build.cache = {}


def tidy():
    """Remove what one round left in the scratch directory, except the builds."""
    for d in glob.glob(scratch() + "/tlc*"):
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- drivers

FAULT = '{"o":"fault"}'
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:detect_odr_violation=0",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=66:print_stacktrace=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0",
    "MSAN_OPTIONS": "exitcode=66",
}


def run_once(exe, ops, args=(), env=None, timeout=240):
    """Run the driver on a list of sessions (lists of op lines). Returns (sessions of event texts, fault text or None)."""
    n = run_once.n = getattr(run_once, "n", 0) + 1
    fo, fe = tmp("run%d.ops" % n), tmp("run%d.out" % n)
    with open(fo, "w") as f:
        for s in ops:
            f.write("S\n" + "\n".join(s) + "\n")
    e = dict(os.environ, **SAN_ENV)
    e["LC_ALL"] = "C"
    e.update(env or {})
    fault = None
    try:
        r = subprocess.run([exe, fo, fe] + list(args), capture_output=True, timeout=timeout, env=e, cwd=scratch())
        if r.returncode in (3, 4):
            raise CheckError("driver: " + r.stderr.decode("latin-1")[-500:])
        if r.returncode:
            fault = "exit %d: %s" % (r.returncode, r.stderr.decode("latin-1")[:4000])
    except subprocess.TimeoutExpired:
        fault = "no end within %d s" % timeout
    out = []
    with open(fe, encoding="latin-1") as f:
        for line in f:
            line = line.rstrip("\n")
            if line == "S":
                out.append([])
            elif line.endswith("}"):
                out[-1].append(line)
    os.unlink(fo)
    os.unlink(fe)
    if fault is not None:
        if not out:
            out.append([])
        out[-1].append(FAULT)
    elif len(out) != len(ops):
        raise CheckError("driver logged %d of %d sessions" % (len(out), len(ops)))
    return out, fault


def run_driver(exe, ops, args=(), env=None, timeout=240, shards=JOBS):
    """As run_once, split over several processes; on a fault, only the sessions up to it count."""
    k = max(1, min(shards, len(ops) // 4))
    parts = [ops[i::k] for i in range(k)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda p: run_once(exe, p, args, env, timeout), parts))
    index, sess, faults = [], [], []
    for i, (out, fault) in enumerate(res):
        for j, s in enumerate(out):
            sess.append(s)
            index.append(i + j * k)
        if fault:
            faults.append((index[-1], fault))
    return sess, index, faults


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, workers=JOBS, args=(), timeout=800, heap="12g", env=None):
    """Run TLC on a module of spec/ with the given cfg text. Returns a dict."""
    n = tlc.n = getattr(tlc, "n", 0) + 1
    d = os.path.dirname(tmp("tlc%d/x" % n))
    for f in glob.glob(SPEC + "/*.tla"):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    with open(os.path.join(d, "m.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-nowarning",
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-config", "m.cfg"] + list(args) + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s: no answer within %d s" % (module, timeout))
    out = r.stdout
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        pass
    res = dict(rc=r.returncode, out=out, dir=d, wall=time.time() - t,
               generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0)
    return res


def write_trace(sessions, name):
    p = tmp(name)
    with open(p, "w", encoding="latin-1") as f:
        for s in sessions:
            f.write("[" + ",".join(s) + "]\n")
    return p


FLOAT_PROPS = {"C04", "C05", "C06", "C07", "C08", "C19", "C20", "C23", "C26", "C28", "ALL"}


def validate(sessions, prop, module="Trace", consts="", timeout=800):
    """Check recorded sessions against the specification.
    Returns (None | (session index, event index), stats)."""
    sessions = [s for s in sessions]
    p = write_trace(sessions, "trace%d.ndjson" % (getattr(tlc, "n", 0) + 1))
    pm = 1241 if prop == "C08" else 1240 if prop in FLOAT_PROPS or module == "IeeeTrace" else 0
    cfg = ('CONSTANT PowMax = %d\n' % pm if module not in ("BigTrace", "DiyTrace") else "") + 'SPECIFICATION TraceSpec\nINVARIANT Explained\nCONSTANT Prop = "%s"\nCONSTANT TraceFile = "%s"\n%s' % (prop, p, consts)
    r = tlc(module, cfg, timeout=timeout)
    os.unlink(p)
    known = sorted(set(re.findall(r'<<"KNOWN-[^\n]*>>', r["out"])))
    stats = dict(states=r["distinct"], transitions=r["generated"], wall=r["wall"], known=known)
    if r["rc"] == 0:
        want = sum(len(s) for s in sessions) + len(sessions)
        if r["distinct"] != want:
            raise CheckError("trace validation visited %d states, expected %d" % (r["distinct"], want))
        return None, stats
    if r["rc"] in (11, 12):            # deadlock or Explained violated: an event no action explains
        sid = [int(x) for x in re.findall(r"^/\\ sid = (\d+)", r["out"], re.M)]
        lv = [int(x) for x in re.findall(r"^/\\ l = (\d+)", r["out"], re.M)]
        if not sid or not lv:
            raise CheckError("TLC reported a deadlock without a state\n" + r["out"][-2000:])
        return (sid[-1] - 1, lv[-1] - 1), stats
    raise CheckError("TLC on %s failed (%d)\n%s" % (module, r["rc"], r["out"][-4000:]))
