#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REG = "TLA+ specification Registry.tla: behaviours generated by TLC replayed on the real registry, recorded traces validated against it by TLC"
CONF = ("Every operation of every replayed behaviour is decided by TLC against the specification, on the real headers (ASan, UBSan and "
        "library assertions on). Trusts the projection of harness/world.cpp, TLC and gcc. ")
CLAIMS = {
 "C01": (REG + "; exhaustive model of the storage (Storage.tla) replayed transition by transition", "model_checking", CONF + "Exhaustive in the model for 4 slots of 2 generations; sampled on the code."),
 "C02": (REG + "; exhaustive model of the storage (Storage.tla) replayed transition by transition", "model_checking", CONF + "Exhaustive in the model for 4 slots and 4 component sets (all transitions replayed in the thorough tier); sampled for 12 component types."),
 "C03": (REG + ", including live-object counts and placement", "model_checking", CONF + "Lifetimes observed through instrumented component types."),
 "C04": (REG + ", with the rows of every form of iteration", "model_checking", CONF + "19 queries, 6 forms of iteration (also left early), 5 combinations of constness and argument order, with the standard ranges and with range-v3."),
 "C05": (REG + ", two registries", "model_checking", CONF),
 "C06": (REG + ", with failing operations of every kind", "model_checking", CONF + "Allocation failure is not injected."),
 "C07": (REG + ", deferred commands of three threads", "model_checking", CONF + "Recording threads take turns (command buffers are thread-local)."),
 "C08": (REG + ", failing commands, ended threads", "model_checking", CONF + "Recording threads take turns."),
}
try:
    from claims import MORE
    CLAIMS.update(MORE)
except ImportError:
    pass
NA = {
 "C20": "A program that must not compile has no behaviour: there is no execution for a specification of states and transitions to constrain, and no trace to validate.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
na = [{"property": i, "reason": NA.get(i, "check still under construction")} for i in ids if i not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the drivers use the public headers; concurrency checks substitute the standard library's primitives at compile time."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
