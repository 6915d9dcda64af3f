"""C15-C19: behaviours of the specifications of the containers, sets, allocators and type ids replayed on the real code."""
import hashlib, json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import edges
from registry_checks import verdict, split_scripts, corpus
from vlib import *

GEN_RE = re.compile(r'<<\s*"L",\s*"([^"]*)"\s*>>')
HASHMODES = (0, 1, 2, 3, 4, 6, 7, 8, 9)


def generate(module, profile, num, steps, seed, env=None):
    out = tlc(module, env=dict(PROFILE=profile, STEPS=str(steps), **(env or {})),
              args=["-deadlock", "-simulate", f"num={num}", "-depth", str(steps + 1), "-seed", str(seed)])
    lines = [x for l in GEN_RE.findall(out) for x in l.split(";") if x]
    if not lines or "Error" in out:
        raise CheckError(f"generation of scripts failed:\n{out[-3000:]}")
    return lines


# ------------------------------------------------------------------ scripts from state graphs
def covering(res, module, cfg, start, budget, env=None, finish=lambda o, rng: [o], least=100):
    rng = random.Random(f"{res.seed} {module} {cfg} {env}")
    es = edges.graph(module, cfg, env, least=least)
    ws, covered, total = edges.walks(es, rng, lambda: start(rng), 10 ** 9 if res.thorough else budget)
    res.add("model_edges_covered", covered)
    res.add("model_edges_total", total)
    out = []
    for w in ws:
        n = len(start(rng))
        out += w[:n]
        for o in w[n:]:
            out += finish(o, rng)
    return out


def check_models(res, models):
    for m, cfg, big, env in models:
        gen, distinct = tlc_check(m, cfg, env, timeout=400)
        res.add("model_states", distinct)
        res.add("model_transitions", gen)
        if res.thorough and big:
            gen, distinct = tlc_check(m, big, env, timeout=3000, heap="12g")
            res.add("model_states", distinct)
            res.add("model_transitions", gen)


def values(o, rng, hows, kind):
    hows = [h for h in hows if not (kind in ("m", "h") and h not in ("emplace", "pw"))]
    o = o.replace(" emplace ", f" {rng.choice(hows)} ").replace(" V", f" {rng.randrange(10000)}")
    return o


def map_edges(res, prop, mode):
    kinds = ["t", "s", "u", "m"] if prop == "C15" else ["B", "b", "u", "h", "l"]
    current = [None]

    def start(rng):
        current[0] = rng.choice(kinds)
        return ["reset " + current[0], f"new 1 4 {mode}" if prop == "C15" else "new 1"]
    # the kind of a script decides the forms of its operations: look it up as the script is rewritten
    rng = random.Random(f"{res.seed} {prop} {mode}")
    raw = covering(res, "RobinHood" if prop == "C15" else "SparseDense", "RobinHoodEdges" if prop == "C15" else "SparseDenseEdges",
                   start, 6000, {"HASHMODE": str(mode)} if prop == "C15" else None)
    kind, out = None, []
    for o in raw:
        if o.startswith("reset"):
            kind = o.split()[1]
        elif o.startswith("ins"):
            hows = ["emplace", "pw", "insert", "emplacec", "hintc", "hintr"] if prop == "C15" else ["emplace", "pw", "insert"]
            o = values(o, rng, hows, kind)
        elif o.startswith("erase"):
            o = o.replace("HOW", rng.choice(["c", "l", "r", "it", "cit", "own"] if prop == "C15" else ["c", "own"]))
        out.append(o)
        if o.startswith(("ins", "erase", "reserve", "clear")):
            out.append(rng.choice(["probe 1 6", "probe 1 6", f"dump 1 {rng.randrange(5)}"]))
    return out


def set_edges(res, kind):
    pos = {"set": [3, 63, 64, 190], "b64": [0, 63, 64, 128], "b8": [3, 7, 8, 23]}[kind]

    def finish(o, rng):
        o = re.sub(r"P(\d)", lambda m: str(pos[int(m[1])]), o)
        return [o, "eq 1 2", "has %d %s" % (rng.choice((1, 2)), " ".join(map(str, pos)))]
    return covering(res, "BitSets", "BitSetsEdges", lambda rng: ["reset " + kind, "new 1 %d" % rng.choice((1, 2, 8)), "new 2 %d" % rng.choice((1, 4))],
                    5000, finish=finish)


# ------------------------------------------------------------------------------- binaries (C19)
# the component types of harness/ids/types.hpp: name ("" where compilers differ), size, alignment
META = [["n1::a", 4, 4], ["n2::a", 16, 8], ["n1::n2::a", 8, 4], ["outer::a", 24, 4], ["big", 128, 64], ["small", 1, 1], ["templ<int>", 16, 8],
        ["templ<unsigned int>", 16, 8], ["templ<n1::a>", 16, 8], ["a", 4, 4], ["n1::b<n1::a, n2::a>", 4, 4], ["n1::b<n2::a, n1::a>", 4, 4],
        ["many<-1>", 4, 4], ["", 4, 4], ["", 4, 4], ["", 4, 4], ["", 4, 4],
        ["templ<int [3]>|templ<int[3]>", 16, 8], ["templ<int [2][4]>|templ<int[2][4]>", 16, 8], ["templ<int (*)(char)>", 16, 8], ["templ<const int>", 16, 8], ["", 16, 8], ["", 16, 8], ["", 4, 4], ["", 4, 4]]
META = [[n.split("|"), s, a] for n, s, a in META]
MANY = 60
SUBSET = {0: 0xb2e27f, 1: 0x14a60ff, 2: 0x1ffffe5, 3: 0x1ffffff, 6: 0x1ef410f}
STEP = {0: 2, 1: 3, 2: 2, 3: 1, 6: 5}
VIEWS = [0, 2, 4, 5, 6, 14]


def knows(m, mask):
    return [t for t in range(25) if SUBSET[m] & mask & (1 << t)] + [100 + i for i in range(MANY) if (100 + i) % STEP[m] == m % STEP[m]]


GCC, CLANG = "g++", "clang++"
HID = ["-fvisibility=hidden", "-fvisibility-inlines-hidden"]
# name -> (compiler of the host, compilers of libraries 1..3, flags, whether an engine library is the host, types that have distinct names)
CONFIGS = {
    "exports": (GCC, {1: GCC, 2: GCC, 3: GCC}, [], False, 0x1ffffff),
    "hidden": (GCC, {1: GCC, 2: GCC, 3: GCC}, HID, False, 0x1ffffff),
    "engine": (GCC, {1: GCC, 2: GCC, 3: GCC}, [], True, 0x1ffffff),
    "enginehidden": (GCC, {1: GCC, 2: GCC, 3: GCC}, HID, True, 0x1ffffff),
    "mixed": (GCC, {1: GCC, 2: CLANG, 3: GCC}, [], False, 0x1ffffff),
}
MORE_CONFIGS = {
    "clang": (CLANG, {1: CLANG, 2: CLANG, 3: CLANG}, [], False, 0x1ffffff),
    "clanghidden": (CLANG, {1: CLANG, 2: CLANG, 3: CLANG}, HID, True, 0x1ffffff),
    # without run-time type information types are told apart by how the compiler prints them
    "nortti": (GCC, {1: GCC, 2: GCC, 3: GCC}, ["-fno-rtti"], False, 0x1fe3fff),
    "optimized": (GCC, {1: GCC, 2: GCC, 3: GCC}, ["-O2"], False, 0x1ffffff),
}


def build_binaries(res):
    """All binaries of all configurations: name -> directory."""
    confs = dict(CONFIGS, **MORE_CONFIGS)
    key = hashlib.sha256((inc_hash() + json.dumps([confs, MANY, sorted(SUBSET.items()), sorted(STEP.items())])).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "ids-" + key)
    if os.path.exists(d):
        return {c: os.path.join(d, c) for c in confs}
    tmp = d + f".tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    objs, links = {}, []

    def obj(cxx, flags, src, defs):
        k = (cxx, tuple(flags), src, tuple(defs))
        if k not in objs:
            objs[k] = os.path.join(tmp, f"o{len(objs)}.o")
        return objs[k]

    def module(m, cxx, flags, role, mask):
        return obj(cxx, [*flags, "-fPIC"], "ids/module.cpp", [f"-DMOD={m}", f"-DSUBSET={SUBSET[m] & mask}", f"-DMANY={MANY}", f"-DSTEP={STEP[m]}", role]
                   + (["-DPRIVATE_TYPES"] if m in (1, 3) else []))
    for c, (host, libs, flags, engine, mask) in confs.items():
        cd = os.path.join(tmp, c)
        os.makedirs(cd)
        own = module(0, host, flags, "-DCO_ECS_CLIENT" if engine else "-DCO_ECS_HOST", mask)
        main_o = obj(host, flags, "ids/host.cpp", ["-DCO_ECS_CLIENT" if engine else "-DCO_ECS_HOST"] + (["-DENGINE"] if engine else []))
        if engine:
            links.append((0, [host, "-shared", module(6, host, flags, "-DCO_ECS_HOST", mask), "-o", f"{cd}/libm6.so"]))
        for m, cxx in libs.items():
            links.append((0, [cxx, "-shared", module(m, cxx, flags, "-DCO_ECS_CLIENT", mask), "-o", f"{cd}/libm{m}.so"]))
        links.append((1, [host, "-rdynamic", own, main_o, *([f"-L{cd}", "-lm6", "-Wl,-rpath,$ORIGIN"] if engine else []), "-o", f"{cd}/host", "-ldl", "-pthread"]))

    def compile(kv):
        (cxx, flags, src, defs), o = kv
        cmd = [cxx, *BASE, "-O0", "-g0", *flags, *defs, "-c", os.path.join(HARNESS, src), "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError(f"cannot build: {' '.join(cmd)}\n{r.stderr[-3000:]}")

    def link(l):
        r = subprocess.run(l, capture_output=True, text=True)
        if r.returncode:
            raise CheckError(f"cannot link: {' '.join(l)}\n{r.stderr[-3000:]}")
    t0 = time.time()
    pmap(compile, sorted(objs.items(), key=lambda kv: kv[0][2], reverse=True))
    for phase in (0, 1):
        pmap(link, [l for p, l in links if p == phase])
    for o in objs.values():
        os.unlink(o)
    for c, (host, libs, flags, engine, mask) in confs.items():
        with open(os.path.join(tmp, c, "config.json"), "w") as f:
            json.dump({"known": [knows(m, mask) if m in SUBSET else [] for m in range(7)], "meta": META, "libs": list(libs),
                       "views": [v for v in VIEWS if mask & (1 << v)], "engine": int(engine)}, f)
    for old in os.listdir(BUILD):
        if old.startswith("ids-") and ".tmp" not in old:
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    os.rename(tmp, d)
    log(f"built {len(objs)} objects of {len(confs)} configurations in {time.time() - t0:.0f} s")
    return {c: os.path.join(d, c) for c in confs}


def run_binaries(d, scripts, base):
    """Runs each script in a process of its own: lines of the trace, and output."""
    events, outs = [], ""
    for i, s in enumerate(scripts):
        script, trace = f"{base}.{i}.txt", f"{base}.{i}.ndjson"
        with open(script, "w") as f:
            f.write("\n".join(s) + "\n")
        rc, out = run([os.path.join(d, "host"), script, trace, d], 120)
        with open(trace, "rb") as f:
            ev = f.read().decode(errors="replace").split("\n")
        if rc == 3:
            raise CheckError("the driver refused a script: " + out[-500:])
        ev = ev[:-1]
        if rc != 0:
            ev.append(json.dumps({"op": "crash" if rc is not None else "stuck"}))
        if not ev or '"op":"reset"' not in ev[0]:
            ev = ['{"op":"dead"}'] + ev
        events.append(ev)
        outs += out[-1000:] if rc != 0 else ""
        os.unlink(script)
        os.unlink(trace)
    return events, outs


def judge(res, conf, d, scripts, base):
    """Index of the rejected script, or None."""
    env = {"CONFIG": os.path.join(d, "config.json")}

    def once(part):
        per, out = run_binaries(d, part, base)
        flat = [e for ev in per for e in ev]
        trace = base + ".ndjson"
        with open(trace, "w") as f:
            f.write("\n".join(flat) + "\n")
        n, ln, _ = tlc_trace("TypeIdsTrace", trace, env)
        bad = None
        if n != ln:
            bad, at = 0, n
            while at >= len(per[bad]):
                at -= len(per[bad])
                bad += 1
        return n, ln, flat, bad, out
    n, ln, flat, bad, out = once(scripts)
    res.add("traces_validated_against_impl", len(scripts))
    res.add("transitions", n)
    if bad is None:
        return None
    part = [scripts[bad]]
    n2, ln2, flat2, bad2, out2 = once(part)
    if bad2 is None:
        raise CheckError(f"a rejected trace was accepted when the same script was run again (event {flat[n][:300]})")
    return (f"binaries of configuration {conf} did what the specification TypeIds does not allow, at event {n2 + 1}\n"
            f"event: {flat2[n2][:1500]}\n{out2[-1500:]}",
            {"script.txt": "\n".join(part[0]) + "\n", "trace.ndjson": "\n".join(flat2) + "\n",
             "howto": f"{d}/host script.txt trace.ndjson {d}; then CONFIG={d}/config.json TRACE=trace.ndjson tlc -config spec/TypeIdsTrace.cfg spec/TypeIdsTrace.tla\n"})


def known_findings(prop):
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        return [l.strip() for l in f if l.startswith(f"KNOWN-FINDING: property={prop} ")]


def check_ids(res):
    dirs = build_binaries(res)

    def one(job):
        conf, rep = job
        if res.violation:
            return
        d = dirs[conf]
        lines = generate("TypeIdsGen", conf, 12 if not res.thorough else 60, 40, res.seed * 1000003 + rep * 17 + sum(map(ord, conf)), {"CONFIG": os.path.join(d, "config.json")})
        scripts = split_scripts(lines)
        # every library first, last and alone, with all of its ids asked for
        conf_ = json.load(open(os.path.join(d, "config.json")))
        for order in ((1, 2, 3), (3, 2, 1), (2, 1, 3)):
            s = ["reset"]
            for m in order:
                s += [f"load {m} " + ("g" if order[0] == 2 else "l")]
            for m in (0, *order, *([6] if conf_["engine"] else [])):
                s += [f"id {m} {t}" for t in conf_["known"][m]] + [f"meta {m} {t}" for t in conf_["known"][m] if t < 25]
            for m in order:
                s += [f"unload {m}"]
            for m in order:
                s += [f"load {m} l", f"make {m} 2 5", "view 0 2"]
            scripts.append(s)
        res.add("operations", sum(len(s) for s in scripts))
        if len(res.samples) < 2:
            res.samples.append({"configuration": conf, "script": scripts[0][:20]})
        bad = judge(res, conf, d, scripts, os.path.join(res.scratch, f"{conf}-{rep}"))
        if bad and not res.violation:
            res.report(*bad)
    pmap(one, [(c, r) for c in dirs for r in range(1 if not res.thorough else 6)])
    if res.violation:
        return
    # distinct types of the same name in unnamed namespaces
    scripts = [["reset", "load 1 l", "load 3 l", "id 1 50", "id 3 50"]]
    bad = judge(res, "exports", dirs["exports"], scripts, os.path.join(res.scratch, "unnamed"))
    if bad:
        listed = [k for k in known_findings("C19") if "unnamed namespaces" in k]
        last = bad[1]["trace.ndjson"].strip().split("\n")[-1]
        if listed and '"t":1053' in last and bad[1]["trace.ndjson"].count('"op":"id"') == 2 and "at event 5" in bad[0]:
            log(listed[0])
        else:
            res.report(*bad)
    res.cov["configurations"] = len(dirs)
    res.cov["states"] = res.cov.get("transitions", 0)
    res.assumptions += ["Linux, shared libraries opened with dlopen; a binary is unloaded only when no entity of any registry is left",
                        "types of the same name in unnamed namespaces of several translation units are a known finding"]


# ------------------------------------------------------------------------------------ the checks
UNIT = {"C15": "hashmap", "C16": "sparse", "C17": "compset", "C18": "alloc"}
TRACE = {"C15": "MapsTrace", "C16": "MapsTrace", "C17": "CompSetsTrace", "C18": "AllocTrace"}
MODELS = {
    "C15": [("RobinHood", "RobinHood", "RobinHoodBig", {"HASHMODE": str(m)}) for m in HASHMODES],
    "C16": [("SparseDense", "SparseDense", "SparseDenseBig", None)],
    "C17": [("BitSets", "BitSets", "BitSetsBig", None)],
    "C18": [("Arena", "ArenaStack", "ArenaStackBig", None), ("Arena", "ArenaLinear", "ArenaLinearBig", None)],
}
# (generator, profile, number of processes, scripts per process, steps)
PLANS = {
    "C15": [("MapsGen", "hash", 12, 60, 120), ("MapsGen", "hash", 4, 12, 600)],
    "C16": [("MapsGen", "sparse", 12, 60, 120), ("MapsGen", "sparse", 4, 12, 600)],
    "C17": [("CompSetsGen", p, n, 60, 100) for p, n in (("set", 3), ("b64", 2), ("b8", 2), ("meta", 4), ("arch", 5))] + [("CompSetsGen", "arch", 3, 12, 400)],
    "C18": [("AllocGen", "", 10, 80, 150)],
}


def check(prop):
    def body(res):
        if prop == "C19":
            return check_ids(res)
        exe = build(UNIT[prop], [(f"comp/{UNIT[prop]}.cpp", [])], SAN, SAN)
        jobs = [("model", m) for m in MODELS[prop]] + [("corpus",)]
        if prop == "C15":
            jobs += [("edges", map_edges, prop, m) for m in HASHMODES]
        elif prop == "C16":
            jobs += [("edges", map_edges, prop, i) for i in range(2)]
        elif prop == "C17":
            jobs += [("edges", set_edges, k) for k in ("set", "b64", "b8")]
        elif prop == "C18":
            jobs += [("edges", lambda r, h: covering(r, "Arena", f"Arena{h}Edges", lambda rng: ["reset"], 8000), h) for h in ("Stack", "Linear")]
        for rep in range(8 if res.thorough else 1):
            for j, (module, profile, procs, num, steps) in enumerate(PLANS[prop]):
                jobs += [("gen", module, profile, num * (3 if res.thorough else 1), steps, res.seed * 1000003 + rep * 1009 + j * 101 + p) for p in range(procs)]

        def one(job):
            if res.violation:
                return
            if job[0] == "model":
                return check_models(res, [job[1]])
            base = os.path.join(res.scratch, "-".join(str(x) for x in job if not callable(x)))
            if job[0] == "corpus":
                lines = corpus(prop)
            elif job[0] == "edges":
                lines = job[1](res, *job[2:])
            else:
                lines = generate(*job[1:])
            if not lines:
                return
            res.add("operations", sum(1 for l in lines if not l.startswith("reset")))
            if job[0] == "gen" and len(res.samples) < 3:
                res.samples.append({"profile": job[2], "script": split_scripts(lines)[0][:25]})
            verdict(res, exe, lines, base, {}, TRACE[prop])
            for x in os.listdir(res.scratch):
                if x.startswith(os.path.basename(base) + "."):
                    os.unlink(os.path.join(res.scratch, x))
        pmap(one, jobs)
        res.cov["states"] = res.cov.get("transitions", 0) + res.cov.get("model_states", 0)
        res.assumptions += {"C15": ["a number of buckets given to a constructor is a power of two, at least two"], "C16": ["non-negative integer keys"],
                            "C17": ["20 component types whose ids lie in several words; ids up to 20000 in sets"],
                            "C18": ["blocks of the stack and temporary allocators are released in reverse order; alignments of stack blocks up to 128"]}[prop]
    return main(prop, "model_checking", body)
