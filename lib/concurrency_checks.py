"""C09-C14: programs drawn from ConcGen.tla run on the real code under controlled schedules and weak memory, and on
real threads; every distinct history validated by TLC against the specification of the component."""
import json, os, re, threading
from vlib import *

VSH = os.path.join(HARNESS, "vs")
WRAP = [f"-Wl,--wrap=__cxa_guard_{x}" for x in ("acquire", "release", "abort")]
GEN_RE = re.compile(r'<<\s*"L",\s*"([^"]*)"\s*>>')
# primitives the controlled build does not know: without knowing what they synchronise, stale reads are not simulated
UNKNOWN = re.compile(r"\b(std::future|std::promise|std::async|packaged_task|shared_future|pthread_\w+|__atomic_\w+|__sync_\w+|atomic_ref|"
                     r"atomic_signal_fence|syscall|_mm_\w*fence|asm|volatile|osyncstream|atomic_wait\w*|atomic_notify\w*)\b")

SPECS = {"deque": "DequeTrace", "tasks": "TasksTrace", "pfor": "ParallelForTrace", "reserve": "HandlePoolTrace", "sched": "ScheduleTrace"}
# property -> scenario, [(profile, mode, generator processes, programs each, arguments of the driver)]
R = "rand"
PLANS = {
    "C09": ("reserve", [("reserve", R, 6, 60, "execs=60"), ("reserve", "dfs", 2, 12, "execs=1500 dev=2")]),
    "C10": ("sched", [("sched", R, 8, 60, "execs=14")]),
    "C11": ("sched", [("pairs", R, 8, 232, "execs=12"), ("triples", R, 2, 120, "execs=12"), ("sched", R, 2, 40, "execs=8")]),
    "C12": ("tasks", [("tasks", R, 8, 60, "execs=60")]),
    "C13": ("pfor", [("pfor", R, 8, 60, "execs=25")]),
    "C14": ("deque", [("deque", R, 6, 40, "execs=500"), ("dequesmall", "dfs", 4, 16, "execs=6000 dev=3"), ("dequesmall", "dfs", 2, 16, "execs=3000 dev=3 weak=0")]),
}
FIXED = {
    "C09": ["reserve ops=c3,d0,d0,R1.2,s,c2,R1.1.1,s,f2,d0,d0,R2.2,s,c1", "reserve ops=R1.1,c1,s,f2,d0,d1,R2.1,d0,s",
            "reserve ops=c6,d0,d0,d0,R1.1.1,s,f3,R1.1.1,c1,d0,d0,R1.1,s,c3", "reserve ops=c4,d0,d1,d0,C1.2,d0,C2.1,c2,d0,d0,C2.2,R1.1,s"],
    "C10": ["sched w=3 init=12,m12 stages=1,2,m3,12/11,10,0/21 ex=2 runs=2 build=refs", "sched w=2 init=0,10,1,m2 stages=1,m1,m1,2,m2/10,12,m12,3/13,14,32,4 ex=2 runs=1 build=mix reg2=1",
            "sched w=1 init=12 stages=m12,12,m10/21 ex=2 runs=2", "sched w=4 init= stages=5,6,7,8,m9,15,16,18/34,35,36,19,20,25,m29 ex=1 runs=2 build=chain early=1",
            "sched w=1 init=0,1,2,3,4,12,m10 stages=0,0,0,m0,m0//1,1,1,1,m1,m1/12,12,12,12/21 ex=3 runs=2 build=refs early=1",
            "sched w=3 init=37,m40,20,41 stages=37,38,m39,40/20,29,m20,m29,42,41/12,m40,m42,37 ex=3 runs=3 build=refs early=1 reg2=1"],
    "C11": ["sched w=4 init=10,1,12 stages=1,2,m1,m2,3,m10,12/m3,4,m4,7,8,5/10,m12,11,m11 ex=1 runs=2 execs=300"],
    "C12": ["tasks w=3 t=0:S1.0,S2.1,S3.2,W1", "tasks w=2 t=0:S1.0,S2.1,W1;1:S3.0,W3", "tasks w=3 t=0:S1.0,S2.1,W1,S3.0,W3;1:S4.0,S5.4,W4;2:S6.1",
            "tasks w=1 t=0:S1.0,S2.1,W1;1:S3.0,W3", "tasks w=3 t=0: fan=12 execs=200", "tasks w=2 t=0: fan=1100 execs=2 limit=3000000",
            "tasks w=2 t=0: fan=40 rounds=110 execs=1 limit=9000000", "tasks w=4 t=0:S1.0,S2.0,S3.0,W1,W2,W3;1:S4.0,S5.4,S6.5,W4;2:S7.0,S8.7,W7;3:S9.0,W9"],
    "C13": ["pfor w=3 kind=vec n=7", "pfor w=2 kind=list n=5 reps=3", "pfor w=3 kind=iota n=4 inner=4 depth=1", "pfor w=4 kind=view n=12", "pfor w=3 kind=fwd n=3 intask=2",
            "pfor w=3 kind=cvec n=4 inner=3 depth=1 intask=2", "pfor w=2 kind=vec n=3 inner=3 depth=2"],
    "C14": ["deque cap=2 owner=P,P,O,P,O thieves=2 execs=8000", "deque cap=2 owner=P3,G,P2,O,O,P3,O thieves=2,3 ptr=1 execs=8000", "deque cap=2 owner=P2,G,O,O thieves=2 execs=4000",
            "deque cap=4 owner=P4,G,P3,O2,P9 thieves=4,4 ptr=1 execs=3000"],
}


def native_programs(prop, thorough):
    k = 4 if thorough else 1
    if prop == "C14":
        return [f"deque cap=2 owner=P{a},G,P{b},O{c},P{b},O{b} thieves={t} ptr={p} execs={150 * k}"
                for a, b, c in ((0, 40, 10), (30, 5, 30), (1, 200, 50)) for t in ("60", "40,40", "30,30,30") for p in (0, 1)]
    if prop == "C12":
        return [f"tasks w={w} t=0: fan={f} rounds={r} execs={e * k}" for w, f, r, e in
                ((4, 1500, 3, 1), (2, 1200, 4, 1), (8, 300, 20, 1), (3, 40, 120, 1), (1, 1500, 3, 1), (1, 4095, 1, 1), (3, 4095, 1, 1))] + [
            f"tasks w={w} t=0:S1.0,S2.0,S3.1,W1,W2;1:S4.0,S5.4,S6.5,W4,S7.0,W7;2:S8.0,S9.8,W8;5:S10.0,W10 rounds=100 execs={10 * k}" for w in (2, 4, 8)]
    if prop == "C13":
        # every length up to 40 with every number of workers up to 8, for every kind of range
        kinds = ["vec", "cvec", "list", "fwd", "iota", "sub", "filter", "view", "cview"]
        out = [f"pfor w={w} kind={kd} n={n} reps=4 execs=1" for w in range(1, 9) for kd in kinds for n in range(0, 41, 4)]
        out += [f"pfor w={w} kind=vec n={n} execs=1" for w in (2, 5, 8) for n in (1000, 1023, 1500)]
        out += [f"pfor w={w} kind=view n={n} execs=3" for w in (2, 5, 8) for n in (60, 121)]
        out += [f"pfor w={w} kind={kd} n={n} execs=1" for w, kd, n in ((4, "view", 3200), (3, "cview", 3100), (7, "vec", 3500), (5, "list", 2600))]
        out += [f"pfor w={w} kind=vec n={n} inner={m} depth={d} intask={i} reps=3 execs={3 * k}" for w in (2, 4, 8) for n, m, d in ((9, 9, 1), (4, 4, 2), (20, 1, 1)) for i in (0, 3)]
        return out
    if prop == "C09":
        return [f"reserve ops=c{f + 2}," + "".join("d0," for _ in range(f)) + f"{o}{n}.{n}.{n}.{n},s,c3,f4,d0,d0,R{n}.1.{n},s,c1 execs={40 * k}"
                for f in (0, 1, 5, 12) for n in (1, 3, 7) for o in "RC"] + [
            f"reserve ops=c40," + "".join("d0," for _ in range(40)) + "R60.60.60.60,s,c20,f9,d0,d1,d2,C30.30,s,c9 execs=" + str(10 * k)]
    return [p.replace(" execs=300", "") + f" execs={(12 if prop == 'C10' else 6) * k}" for p in FIXED["C10"] + FIXED["C11"]]


def generate(profile, num, seed):
    out = tlc("ConcGen", env=dict(PROFILE=profile), args=["-deadlock", "-simulate", "num=1", "-depth", str(num), "-seed", str(seed)])
    lines = GEN_RE.findall(out)
    if not lines or "Error" in out:
        raise CheckError(f"generation of programs failed:\n{out[-3000:]}")
    return lines


def unknown_primitives():
    for root, _, files in os.walk(os.path.join(REPO, "include")):
        for f in files:
            t = re.sub(r"//.*|/\*.*?\*/", "", open(os.path.join(root, f), errors="replace").read())
            m = UNKNOWN.search(t)
            if m:
                return m[0]
    return None


_core, _lock = [0], threading.Lock()


def core():
    with _lock:
        _core[0] += 1
        return _core[0] % CPUS


def drive(exe, progs, base, args, timeout, pin=True):
    """Runs programs; returns (events, stats)."""
    with open(base + ".txt", "w") as f:
        f.write("\n".join(progs) + "\n")
    trace = base + ".ndjson"
    cmd = (["taskset", "-c", str(core())] if pin else []) + [exe, base + ".txt", trace, *args]
    rc, out = run(cmd, timeout)
    m = re.search(r"STATS execs=(\d+) histories=(\d+) steps=(\d+) exhausted=(\d+)", out)
    stats = tuple(map(int, m.groups())) if m else (0, 0, 0, 0)
    if rc == 3:
        raise CheckError("the driver refused a program: " + out[-500:])
    if rc in (-9, 137):
        raise CheckError("the driver was killed")
    with open(trace, "rb") as f:
        events = f.read().decode(errors="replace").split("\n")
    events = [e for e in events[:-1]]
    if rc is None:
        events.append(json.dumps({"op": "stuck"}))
    elif rc not in (0, 66):
        events.append(json.dumps({"op": "crash", "rc": rc}))
    with open(trace, "w") as f:
        f.write("\n".join(events) + "\n")
    return events, stats, out


def excerpt(events, n):
    i = n
    while i > 0 and '"op":"reset"' not in events[i]:
        i -= 1
    return events[i:n + 1]


def check(prop):
    scen, plan = PLANS[prop]
    spec = SPECS[scen]

    def body(res):
        env = {"ASPECT": prop}
        units = [("vs/conc.cpp", [f"-DSCEN=run_{scen}"]), (f"vs/scen_{scen}.cpp", [])]
        weak = None
        reason = unknown_primitives()
        if reason:
            weak = 0
            res.assumptions.append(f"stale reads not simulated: {reason} is not under the control of the scheduler")
        exes = {}

        def mk(which):
            try:
                if which == "vs":
                    exes["vs"] = build(f"vs_{scen}", units + [("vs/vs_guard.cpp", [])], ["-include", os.path.join(VSH, "vs.hpp")], WRAP, opt="-O1")
                else:
                    exes["native"] = build(f"nat_{scen}", [(u, f + ["-DVS_NATIVE"]) for u, f in units],
                                           ["-include", os.path.join(VSH, "native.hpp")] + SAN, SAN, opt="-O1")
            except CheckError as e:
                exes[which + "_error"] = str(e)
        pmap(mk, ["vs", "native"])
        if "native" not in exes:
            raise CheckError(exes["native_error"])
        if "vs" not in exes:
            log("no controlled build: " + exes["vs_error"][-1500:])
            res.assumptions.append("real threads only: the concurrency primitives could not be substituted")

        jobs = []
        mult = 8 if res.thorough else 1
        if "vs" in exes:
            jobs.append(("fixed", R, 0, None, "execs=%d" % (1000 if scen == "deque" else 200 * mult)))
            for j, (profile, mode, procs, num, args) in enumerate(plan):
                for p in range(procs * mult):
                    jobs.append((profile, mode, res.seed * 1000003 + j * 1009 + p, num, args))
        nat = native_programs(prop, res.thorough)
        for c in range(4):
            jobs.append(("native", R, c, None, ""))

        def one(job):
            if res.violation:
                return
            profile, mode, seed, num, args = job
            base = os.path.join(res.scratch, f"{profile}-{mode}-{seed}")
            native = profile == "native"
            if profile == "fixed":
                progs = FIXED[prop]
            elif native:
                progs = nat[seed::4]
            elif profile == "pairs":
                progs = pairs(seed, num, res)
            else:
                progs = generate(profile, num, seed)
            a = args.split() + [f"seed={seed % 100000 + res.seed}", f"mode={mode}"]
            if weak is not None and not any(x.startswith("weak=") for x in a):
                a.append(f"weak={weak}")
            timeout = 700 if res.thorough else 300
            if not native:
                a.append("secs=%d" % (400 if res.thorough else 25))
            for attempt in (0, 1, 2):
                events, stats, out = drive(exes["native" if native else "vs"], progs, base, a, timeout, pin=not native)
                if not events:
                    return
                n, ln, _ = tlc_trace(spec, base + ".ndjson", env, timeout=800, heap="5g")
                if attempt == 0:
                    res.add("traces_validated_against_impl", sum(1 for e in events if '"op":"reset"' in e))
                    res.add("schedules", stats[0])
                    res.add("scheduler_steps", stats[2])
                    res.add("programs_exhausted", stats[3])
                    res.add("programs", len(progs))
                    res.add("transitions", n)
                if n == ln:
                    break
                ex = excerpt(events, n)
                what = events[n]
                # hangs and crashes are confirmed by a second run
                if '"stuck"' in what or '"crash"' in what:
                    if attempt == 0:
                        continue
                if not res.violation:
                    res.report(f"the real code did what the specification {spec} does not allow, at event {n + 1} of the trace\nevent: {what[:800]}\n"
                               f"history:\n" + "\n".join(x[:300] for x in ex[-60:]) + f"\n{out[-1500:]}",
                               {"programs.txt": "\n".join(progs) + "\n", "history.ndjson": "\n".join(ex) + "\n",
                                "howto": f"{exes['native' if native else 'vs']} programs.txt trace.ndjson {' '.join(a)}; then TRACE=trace.ndjson ASPECT={prop} tlc -config spec/{spec}.cfg spec/{spec}.tla\n"})
                break
            if len(res.samples) < 4:
                res.samples.append({"profile": profile, "program": progs[0], "history": [x[:200] for x in events[:12]]})
            for x in (".txt", ".ndjson"):
                os.unlink(base + x)

        pmap(one, jobs)
        if prop == "C14":
            g, d = tlc_check("Deque")
            res.cov["model_states"] = d
        res.cov["states"] = res.cov.get("transitions", 0)
        res.assumptions += ["weak memory: view-based, without load buffering and without insertion in the middle of the modification order",
                            "schedules sampled (random walks, starvation) or bounded in deviations (dfs), programs of the sizes of ConcGen.tla"]
    return main(prop, "model_checking", body)


def pairs(seed, num, res):
    """All ordered pairs of kinds of systems, dealt over the jobs."""
    kinds, procs = 43, 8
    chunk = (seed - res.seed * 1000003) % procs
    ps = [(a, b) for a in range(kinds) for b in range(kinds)][chunk::procs]
    return [f"sched w=3 init= stages={a},{b}/{a},m{b}/ ex=1 runs=1 build=chain" for a, b in ps]
