"""C01-C08: behaviours of Registry.tla replayed on real registries, and their traces validated."""
import json, os, random, re
from vlib import *

WORLD = [("world.cpp", [])] + [("world_q.cpp", [f"-DPART={i}"]) for i in range(1, 10)] + [("hostile.cpp", [])] + [("world_c.cpp", [f"-DPART={i}"]) for i in (1, 2, 3)]

# profile -> (scripts, steps, entities) in the quick tier, as (number of generator processes, per process)
PLANS = {
    "C01": [("handles", 5, 60, 60, 14), ("cmds", 1, 40, 60, 12), ("bulk", 1, 6, 14, 0), ("handles", 1, 20, 150, 30)],
    "C02": [("data", 3, 60, 60, 16), ("data", 2, 16, 150, 45), ("chunks:L5", 1, 40, 60, 14), ("chunks:L7", 1, 40, 60, 10), ("chunks:L9", 1, 20, 60, 7), ("bulk", 2, 12, 14, 0)],
    "C03": [("life", 3, 60, 60, 16), ("life", 1, 16, 150, 45), ("chunks:L5", 1, 30, 60, 14), ("chunks:L7", 1, 30, 60, 10), ("chunks:L9", 1, 15, 60, 7), ("bulk", 2, 12, 14, 0), ("copies", 1, 40, 60, 14)],
    "C04": [("views", 5, 60, 60, 16), ("views", 2, 16, 150, 45), ("bulk", 1, 12, 14, 0)],
    "C05": [("copies", 6, 320, 60, 14), ("copies", 2, 80, 150, 40)],
    "C06": [("faults", 7, 320, 60, 14), ("faults", 1, 80, 150, 40)],
    "C07": [("cmds", 7, 320, 60, 12), ("cmds", 1, 80, 150, 30)],
    "C08": [("cmdfail", 7, 320, 60, 12), ("cmdfail", 1, 80, 150, 30)],
}
# the same with the library configured to use range-v3, if that is there
V3 = ["-DCO_ECS_USE_RANGE_V3"]
V3_PLAN = [("views", 3, 50, 60, 16), ("views", 1, 16, 150, 45), ("data", 1, 30, 60, 16), ("bulk", 1, 8, 14, 0)]
LIFE = {"C03", "C05", "C06", "C08"}
GEN_RE = re.compile(r'<<\s*"L",\s*"([^"]*)"\s*>>')


def generate(profile, num, steps, ents, seed):
    out = tlc("RegistryGen", env=dict(PROFILE=profile.split(":")[0], FOCUS=(profile + ":").split(":")[1], MAXENTS=str(ents), STEPS=str(steps)),
              args=["-deadlock", "-simulate", f"num={num}", "-depth", str(steps + 1), "-seed", str(seed)])
    lines = GEN_RE.findall(out)
    if not lines or "Error" in out:
        raise CheckError(f"generation of scripts failed:\n{out[-3000:]}")
    return lines


def split_scripts(lines):
    cur, out = [], []
    for l in lines:
        if l.startswith("reset") and cur:
            out.append(cur)
            cur = []
        cur.append(l)
    if cur:
        out.append(cur)
    return out


def execute(exe, lines, base, timeout=300, module="RegistryTrace", env=None, cfg=None):
    """Replays a script and validates the trace: (matched, events, trace lines, driver output)."""
    script, trace = base + ".txt", base + ".ndjson"
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, out = run([exe, script, trace], timeout)
    with open(trace, "rb") as f:
        events = f.read().decode(errors="replace").split("\n")
    complete = events[-1] == ""
    events = [e for e in events[:-1]] if complete else events[:-1]
    if rc == 3:
        raise CheckError("the driver refused a script: " + out[-500:])
    if rc != 0:
        # the code under test crashed or did not return: an event no specification allows
        events.append(json.dumps({"op": "crash" if rc is not None else "stuck"}))
    with open(trace, "w") as f:
        f.write("\n".join(events) + "\n")
    n, ln, tout = tlc_trace(module, trace, env, cfg)
    return n, ln, events, out, tout


def verdict(res, exe, lines, base, env, module="RegistryTrace", cfg=None, timeout=300):
    """Replays and validates lines; a rejection that repeats is a violation."""
    n, ln, events, out, _ = execute(exe, lines, base, timeout, module, env, cfg)
    res.add("traces_validated_against_impl", sum(1 for l in lines if l.startswith("reset")))
    res.add("transitions", n)
    if n == ln:
        return True
    # isolate the rejected execution
    scripts = split_scripts(lines)
    idx = sum(1 for e in events[:n + 1] if '"op":"reset"' in e) - 1
    small = scripts[max(idx, 0)] if idx < len(scripts) else lines
    for attempt, part in enumerate((small, small, lines)):
        n2, ln2, ev2, out2, _ = execute(exe, part, base + f".re{attempt}", timeout, module, env, cfg)
        if n2 != ln2:
            if not res.violation:
                prev = ev2[n2 - 1] if n2 else "(start)"
                res.report(f"the real code did what the specification {module} does not allow, at event {n2 + 1} of the trace\n"
                           f"event: {ev2[n2][:1500]}\nstate before: {prev[:1500]}\n{out2[-2500:]}",
                           {"script.txt": "\n".join(part) + "\n", "trace.ndjson": "\n".join(ev2) + "\n",
                            "howto": f"{exe} script.txt trace.ndjson; then TRACE=trace.ndjson LIFE={env.get('LIFE', '')} tlc -config spec/{cfg or module}.cfg spec/{module}.tla\n"})
            return False
    if '"stuck"' in events[n]:
        # the driver was slow (a busy machine): all of the script has been executed in the meantime
        res.add("slow_runs_repeated", 1)
        return True
    raise CheckError(f"a rejected trace was accepted when the same script was run again (event {events[n][:300]})")


def corpus(prop):
    d = os.path.join(HARNESS, "scripts")
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith(prop) or f.startswith("world") and prop < "C09":
            out += [l for l in open(os.path.join(d, f)).read().split("\n") if l and not l.startswith("#")]
    return out


def pool_scripts(res, k):
    """Walks through every transition of spec/HandlePoolImpl.tla, on pools of several ages."""
    import edges
    rng = random.Random(f"{res.seed} pool {k}")
    es = edges.graph("HandlePoolImpl", "HandlePoolImplEdges", None, least=1000)
    ages = ["age 3 253", "age 1 254", "age 5 252", "age 2 1"]

    def start():
        kind = rng.choice("sse")
        return ["reset " + kind] + rng.choice([[], [rng.choice(ages if kind == "s" else ages[3:])]])
    ws, covered, total = edges.walks(es, rng, start, 10 ** 9 if res.thorough else 10000)
    res.add("pool_edges_covered", covered)
    res.add("pool_edges_total", total)
    return [o for w in ws for o in w]


def build_pool():
    # the pool is made for any type of handle; if it comes to be made for entities only, those alone are used
    try:
        return build("pool", [("comp/pool.cpp", [])], SAN, SAN)
    except CheckError:
        return build("pool", [("comp/pool.cpp", ["-DNOSMALL"])], SAN, SAN)


def check(prop):
    def body(res):
        exe = build("world", WORLD, SAN, SAN)
        if prop == "C01":
            pool = build_pool()
            gen, distinct = tlc_check("HandlePoolImpl", "HandlePoolImplBig" if res.thorough else "HandlePoolImpl", None, timeout=1200)
            res.add("pool_model_states", distinct)
            res.add("pool_model_transitions", gen)
        env = {"LIFE": "1" if prop in LIFE else "0"}
        jobs = []
        reps = 6 if res.thorough else 1
        for rep in range(reps):
            for j, (profile, procs, num, steps, ents) in enumerate(PLANS[prop]):
                for p in range(procs):
                    jobs.append((profile, num * (3 if res.thorough else 1), steps, ents,
                                 res.seed * 1000003 + rep * 1009 + j * 101 + p))
        v3 = None
        if (prop == "C04" or res.thorough) and os.path.exists("/usr/include/range/v3/all.hpp"):
            v3 = build("world_v3", WORLD, SAN + V3, SAN)
            for j, (profile, procs, num, steps, ents) in enumerate(V3_PLAN if prop == "C04" else PLANS[prop]):
                for p in range(procs):
                    jobs.append((profile, num, steps, ents, res.seed * 1000003 + 500009 + j * 101 + p, "v3"))
        import storage
        jobs.append(("corpus",))
        if prop in ("C01", "C02", "C03", "C04"):
            jobs += [("storage", i) for i in range(4 if not res.thorough else 16)]
            storage.prepare(res)
        if prop == "C01":
            jobs += [("pool", i) for i in range(2 if not res.thorough else 4)]
        hists = storage.histories(res) if prop in ("C02", "C03") else []
        jobs += [("history", i) for i in range(len(hists))]

        def one(job):
            if res.violation:
                return
            base = os.path.join(res.scratch, "-".join(map(str, job)).replace(":", "_"))
            if job[0] == "corpus":
                lines = corpus(prop)
            elif job[0] == "pool":
                lines = pool_scripts(res, job[1])
                res.add("operations", len(lines))
                verdict(res, pool, lines, base, {}, "HandlePoolTrace")
                return
            elif job[0] == "history":
                lines = hists[job[1]]
            elif job[0] == "storage":
                lines = storage.scripts(res, job[1], prop)
            else:
                lines = generate(*job[:5])
            if not lines:
                return
            res.add("operations", sum(1 for l in lines if not l.startswith("reset")))
            if len(res.samples) < 3 and job[0] != "corpus":
                res.samples.append({"profile": job[0], "script": split_scripts(lines)[0][:25]})
            if job[-1] == "v3":
                res.add("operations_range_v3", len(lines))
            verdict(res, v3 if job[-1] == "v3" else exe, lines, base, env)
            for x in os.listdir(res.scratch):
                if x.startswith(os.path.basename(base) + "."):
                    os.unlink(os.path.join(res.scratch, x))

        pmap(one, jobs)
        res.cov["states"] = res.cov.get("transitions", 0) + res.cov.get("storage_states", 0)
        res.assumptions += ["single-threaded use of each registry except for recorded commands (threads take turns)",
                            "only component types of harness/comps.hpp; two registries; three recording threads"]
    return main(prop, "model_checking", body)
