"""Turns the state graph of a specification, printed by TLC as transitions, into scripts that cover every transition."""
import random, re
from vlib import *

EDGE_RE = re.compile(r'<<\s*"E",\s*"([^"]*)",\s*"([^"]*)",\s*"([^"]*)"\s*>>')


def graph(module, cfg, env=None, timeout=400, least=100):
    out = tlc(module, cfg, env, timeout=timeout)
    edges = EDGE_RE.findall(out)
    if len(edges) < least or "Error" in out:
        raise CheckError(f"no transitions from {module}.tla:\n" + out[-2000:])
    return edges


def walks(edges, rng, start, budget, length=120):
    """Scripts covering the edges: lists of operations beginning with start(); (scripts, covered, total)."""
    ids, adj = {}, []
    for a, o, b in edges:
        for x in (a, b):
            if x not in ids:
                ids[x] = len(ids)
                adj.append([])
        adj[ids[a]].append((o, ids[b]))
    init = ids[edges[0][0]]
    todo = [list(range(len(x))) for x in adj]
    left = total = sum(map(len, todo))
    ops = 0
    for t in todo:
        rng.shuffle(t)
    out = []
    while left and ops < budget:
        script, cur = list(start()), init
        head = len(script)
        while len(script) < length:
            if todo[cur]:
                o, nxt = adj[cur][todo[cur].pop()]
                left -= 1
                script.append(o)
                cur = nxt
                continue
            # nearest state with transitions not yet covered
            seen, frontier, goal = {cur: None}, [cur], None
            while frontier and goal is None and len(seen) < 4000:
                nf = []
                for s in frontier:
                    for o, n in adj[s]:
                        if n not in seen:
                            seen[n] = (s, o)
                            if todo[n]:
                                goal = n
                                break
                            nf.append(n)
                    if goal is not None:
                        break
                frontier = nf
            if goal is None:
                break
            path = []
            n = goal
            while seen[n]:
                path.append(seen[n][1])
                n = seen[n][0]
            script += reversed(path)
            cur = goal
        if len(script) == head:
            break
        out.append(script)
        ops += len(script)
    return out, total - left, total
