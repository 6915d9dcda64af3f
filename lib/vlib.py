"""Shared machinery of the checks: building drivers from /repo, running TLC, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CPUS = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (neither a pass nor a violation)."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------ building
def _tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, _, files in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            for f in sorted(files):
                fp = os.path.join(root, f)
                h.update(os.path.relpath(fp, p).encode())
                with open(fp, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


_inc_hash = None


def inc_hash():
    global _inc_hash
    if _inc_hash is None:
        _inc_hash = _tree_hash([os.path.join(REPO, "include"), HARNESS])
    return _inc_hash


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
BASE = ["-std=c++20", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", f"-I{REPO}/include", f"-I{HARNESS}"]


def build(name, units, flags=(), link=(), cxx="g++", opt="-O0"):
    """units: list of (source file in harness/, extra flags).  Returns the path of the executable."""
    flags = list(flags)
    key = hashlib.sha256(json.dumps([inc_hash(), name, units, flags, list(link), cxx, opt]).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    tmp = d + f".tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    t0 = time.time()

    def one(iu):
        i, (src, extra) = iu
        obj = os.path.join(tmp, f"u{i}.o")
        cmd = [cxx, *BASE, opt, *flags, *extra, "-c", os.path.join(HARNESS, src), "-o", obj]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return obj, r, cmd

    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, enumerate(units)))
    for obj, r, cmd in res:
        if r.returncode:
            raise CheckError(f"cannot build {name}: {' '.join(cmd)}\n{r.stderr[-4000:]}")
    cmd = [cxx, *flags, *[o for o, _, _ in res], "-o", os.path.join(tmp, name), "-pthread", *link]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError(f"cannot link {name}\n{r.stderr[-4000:]}")
    for obj, _, _ in res:
        os.unlink(obj)
    # keep only the latest builds of this driver
    for old in os.listdir(BUILD):
        if old.startswith(name + "-") and ".tmp" not in old:
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    log(f"built {name} in {time.time() - t0:.0f} s")
    return exe


RUNENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
              UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", TSAN_OPTIONS="exitcode=97")


def run(cmd, timeout, env=None):
    """Runs a driver; returns (rc, output), rc None on timeout."""
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(RUNENV, **(env or {})))
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace")


# ----------------------------------------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, args=(), timeout=600, heap="3g", workers=1, meta=None):
    """Runs TLC; returns its output."""
    meta = meta or os.path.join(BUILD, "tlc", f"{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JAR, "tlc2.TLC",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-metadir", meta, "-workers", str(workers),
           "-noTE", *args, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC,
                           env=dict(os.environ, **(env or {})))
        out = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        raise CheckError(f"TLC on {module} took more than {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return out


def tlc_trace(module, trace, env=None, cfg=None, timeout=600, heap="3g"):
    """Validates a trace; returns (matched events, events, output)."""
    out = tlc(module, cfg, dict(TRACE=trace, **(env or {})), ["-deadlock"], timeout, heap)
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
    if not m or "Error:" in out.replace("Error: Postcondition", "").replace("Error: The POSTCONDITION", "") and int(m[1]) == int(m[2]):
        raise CheckError(f"TLC could not evaluate {module} on {trace}:\n{out[-3000:]}")
    n, ln = int(m[1]), int(m[2])
    # an evaluation error in the middle of a trace is an error of the specification, not a rejection
    bad = [l for l in out.splitlines() if l.startswith("Error:") and "ostcondition" not in l and "POSTCONDITION" not in l]
    if bad:
        raise CheckError(f"TLC could not evaluate {module} on {trace}:\n{out[-3000:]}")
    return n, ln, out


def tlc_check(module, cfg=None, env=None, timeout=800, workers=None, heap="6g", args=()):
    """Exhaustive model checking; returns (generated, distinct)."""
    out = tlc(module, cfg, env, args, timeout, heap, workers or min(CPUS, 8))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if "No error has been found" not in out or not m:
        raise CheckError(f"the model {cfg or module} does not satisfy its properties:\n{out[-4000:]}")
    return int(m[1]), int(m[2])


# -------------------------------------------------------------------------------------------- results
class Result:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violation = None
        self.samples = []
        self.scratch = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
        os.makedirs(self.scratch, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def report(self, what, files):
        """Records a violation; files: name -> content of the replay directory."""
        if self.violation:
            return
        d = os.path.join(BUILD, "replay", f"{self.prop}-{time.strftime('%H%M%S')}-{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "README"), "w") as f:
            f.write(what + "\n")
        for n, c in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        self.violation = (what, d)

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples[:4]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                           violations=1 if self.violation else 0), f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violation:
            log(self.violation[0])
            log(f"VIOLATION property={self.prop} replay={self.violation[1]}")
            return 1
        log(f"OK property={self.prop} {json.dumps({k: v for k, v in cov.items() if k != 'samples'})} in {time.time() - self.t0:.0f} s")
        return 0


def main(prop, level, body):
    res = Result(prop, level)
    try:
        body(res)
    except CheckError as e:
        log(f"ERROR: the check of {prop} could not be carried out: {e}")
        if not res.violation:
            shutil.rmtree(res.scratch, ignore_errors=True)
            return 2
    return res.finish()


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or CPUS) as ex:
        return list(ex.map(f, xs))
