"""Programs from the specification: TLC writes out the transitions of a small
model (Walk_*.tla), and walks through that graph take every one of them."""
import json
import os
import tempfile
from collections import defaultdict, deque
from concurrent.futures import ThreadPoolExecutor

from core import peeks


def graph(ctx, module, consts, view=None, constraint=None, workers=8):
    """The machines and the transitions of a walk module."""
    work = tempfile.mkdtemp(dir=ctx.work)
    mf, cfg = os.path.join(work, "machines"), os.path.join(work, "walk.cfg")
    with open(cfg, "w") as f:
        f.write("CONSTANT %s\n%s%sSPECIFICATION WalkSpec\nCHECK_DEADLOCK FALSE\n" %
                ("\n  ".join(consts), "VIEW %s\n" % view if view else "",
                 "CONSTRAINT %s\n" % constraint if constraint else ""))
    out, st = ctx.tlc(module, cfg, {"WALK_MACHINES": mf}, work, workers=workers)
    if st is None or st[2] != 0 or "Error:" in out:
        raise RuntimeError("%s did not finish:\n%s" % (module, out[-2000:]))
    edges = set()
    for line in out.splitlines():
        if line.startswith('"EDGE '):
            edges.add(json.loads(line)[5:])
    return json.load(open(mf)) if os.path.exists(mf) else None, [json.loads(e) for e in sorted(edges)], st[1]


def walks(ctx, module, edges, start, length, wanted=None):
    """Paths from start that together take all (or a sample of) the edges."""
    r = ctx.rng
    out, todo = defaultdict(list), defaultdict(set)
    for i, e in enumerate(edges):
        out[e[0]].append(i)
    ids = list(range(len(edges)))
    if wanted is not None and wanted < len(ids):
        ids = r.sample(ids, wanted)
    for i in ids:
        todo[edges[i][0]].add(i)
    left = len(ids)
    ctx.walked.append({"module": module, "states": len({e[2] for e in edges} | {start}),
                       "transitions": len(edges), "taken": left})

    def nearest(s):
        """The shortest way from s to a state with something to do."""
        prev, q = {s: None}, deque([s])
        while q:
            u = q.popleft()
            if todo[u]:
                way = []
                while prev[u] is not None:
                    way.append(prev[u])
                    u = edges[prev[u]][0]
                return way[::-1]
            for i in out[u]:
                v = edges[i][2]
                if v not in prev:
                    prev[v] = i
                    q.append(v)
        return None

    while left:
        s, path = start, []
        while len(path) < length and left:
            if todo[s]:
                i = min(todo[s]) if r.random() < .5 else r.choice(sorted(todo[s]))
                todo[s].discard(i)
                left -= 1
                path.append(i)
                s = edges[i][2]
                continue
            way = nearest(s)
            if way is None:
                break
            for i in way:
                if i in todo[edges[i][0]]:
                    todo[edges[i][0]].discard(i)
                    left -= 1
            path += way
            s = edges[path[-1]][2] if path else s
        if not path:
            break
        yield [edges[i] for i in path]


def program(ctx, path, look, finite=None):
    """The calls of a path; with probability look, everything held is looked at.
    Iterators over lists that are known to be finite are used in other ways too."""
    ops = []
    for _, op, _, views, iters in path:
        if op["op"] in ("next", "citer", "sub", "read"):
            op = dict(op, **{"if": op["x"]})
        ops.append(op)
        if ctx.rng.random() < look:
            for x in views:
                ops.append({"op": "read", "x": x, "if": x})
            for x in iters:
                if finite:
                    ops += peeks(ctx, x, finite)
                ops.append({"op": "citer", "x": x, "y": 20 + x, "if": x})
                ops.append({"op": "drain", "x": 20 + x, "max": 40, "if": 20 + x})
    return ops


KINDS = ["desc", "cache", "topo", "topo2", "amdtopo", "dat", "sgx", "state", "attr"]


def iter_walks(ctx, kinds=KINDS, look=.1, longest=2, wanted=None):
    """Every transition of MC_Iter: lists, copies, interleavings."""
    _, edges, n = graph(ctx, "Walk_Iter.tla",
                        ["Max = %d" % longest, "Walked = {%s}" % ", ".join('"%s"' % k for k in kinds)],
                        constraint="Bound")
    by = defaultdict(list)
    for e in edges:
        by[e[0].split('"')[1]].append(e)
    for k in sorted(by):
        start = [e[0] for e in by[k] if e[1]["op"] == "pick"][0]
        share = None if wanted is None else wanted * len(by[k]) // len(edges)
        for p in walks(ctx, "Walk_Iter " + k, by[k], start, 60, share):
            yield {"id": ctx.cid("walk-" + k), "m": [p[0][1]["m"]], "ops": program(ctx, p[1:], look, None if p[0][1]["endless"] else "cache_info" if k == "desc" else k)}


def life_walks(ctx, sets, look=.1, wanted=None):
    """The transitions of MC_Life: objects and views while the CPU changes.
    Each set: the getters, the CPUs, the handles for objects."""
    def one(st):
        consts = ["Asked = {%s}" % ", ".join('"%s"' % g for g in st[0]),
                  "Used = {%s}" % ", ".join(str(i) for i in st[1]),
                  "Objs = {%s}" % ", ".join(str(i) for i in st[2])]
        return graph(ctx, "Walk_Life.tla", consts, view="WithoutOut", workers=2)
    with ThreadPoolExecutor(4) as ex:
        for st, (ms, edges, n) in zip(sets, ex.map(one, sets)):
            start = min(edges, key=lambda e: len(e[0]))[0]
            assert start.startswith("<<1, <<<<>>"), start
            for p in walks(ctx, "Walk_Life " + " ".join(st[0]), edges, start, 160, wanted and wanted // len(sets)):
                yield {"id": ctx.cid("walk"), "m": ms, "ops": program(ctx, p, look)}


def gate_walks(ctx, getters, wanted=None):
    """Every CPU of MC_Gate, all getters asked."""
    _, cpus, n = graph(ctx, "Walk_Gate.tla", ['Steps = "edges"'])
    ctx.walked.append({"module": "Walk_Gate", "states": n, "taken": min(n, wanted or n)})
    if wanted and wanted < len(cpus):
        cpus = ctx.rng.sample(cpus, wanted)
    asked = [{"op": "get", "h": 1, "g": g, "x": 1} for g in getters]
    for i in range(0, len(cpus), 8):
        ms = cpus[i:i + 8]
        ops = []
        for k in range(len(ms)):
            ops += [{"op": "mig", "i": k + 1}, {"op": "new", "h": 1}] + asked
        yield {"id": ctx.cid("walk-gate"), "m": ms, "ops": ops}
