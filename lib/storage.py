"""Turns the state graph of Storage.tla into scripts that cover its transitions."""
import random, re
import edges
from vlib import *

_walks = []


def prepare(res):
    gen, distinct = tlc_check("Storage", timeout=300)
    res.add("storage_states", distinct)
    res.add("storage_transitions", gen)
    if res.thorough:
        gen, distinct = tlc_check("Storage", "StorageBig", timeout=3000, heap="10g")
        res.add("storage_states", distinct)
        res.add("storage_transitions", gen)
    es = edges.graph("Storage", "StorageEdges", least=1000)
    rng = random.Random(res.seed)
    ws, covered, total = edges.walks(es, rng, lambda: ["reset %d" % rng.randrange(10 ** 6)], 10 ** 9 if res.thorough else 40000)
    _walks.extend(ws)
    res.add("storage_edges_covered", covered)
    res.add("storage_edges_total", total)


def scripts(res, i, prop):
    n = 16 if res.thorough else 4
    out = []
    for w in _walks[i::n]:
        out += w
        if prop == "C04":
            out += ["view 0 - 0 0", "view 0 L5 1 0", "view 0 L5 2 1"]
    return out


def histories(res):
    """Scripts of the complete histories enumerated by StorageHist.tla."""
    out = []
    rng = random.Random(res.seed + 5)
    for x, share in (("A", 1), ("B", 2), ("C", 6)) if not res.thorough else (("A", 1), ("B", 1), ("C", 1), ("D", 1)):
        text = tlc("StorageHist", "StorageHist" + x, timeout=600)
        hs = re.findall(r'"H\|([^"]*)"', text)
        if len(hs) < 900 or "is violated" in text or "No error has been found" not in text:
            raise CheckError("no histories from StorageHist.tla:\n" + text[-2000:])
        res.add("storage_histories_total", len(hs))
        hs = hs if share == 1 else rng.sample(hs, len(hs) // share)
        res.add("storage_histories", len(hs))
        out += [["reset %d" % rng.randrange(10 ** 6)] + h.strip(";").split(";") for h in hs]
    n = max(8, len(out) // 300)
    return [sum(out[i::n], []) for i in range(n)]
