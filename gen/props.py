"""What decides each property: model checks, stimulus, judgement mode."""
import os

from walks import KINDS, gate_walks, iter_walks, life_walks
from gens import *


def gen_latched(ctx):
    r = ctx.rng
    gs = all_getters(ctx)
    ask = lambda h: [o for k, g in enumerate(gs) for o in (op_get(g, 10 + k, h),)]
    vendors = ["Intel", "Amd", "Hygon", "CentaurHauls"]
    # object made on machine 1, asked on machine 2, for all pairs of vendors and
    # many pairs of limits; a clone is asked as well
    def two(v1, v2, l1, l2):
        a, b = full_machine(ctx, v1, *l1), full_machine(ctx, v2, *l2)
        sub = r.sample(gs, 12)
        q = lambda h: [op_get(g, 10 + k, h) for k, g in enumerate(sub)]
        return case(ctx, "latch", [a, b],
                    [NEW] + q(1) + [{"op": "mig", "i": 2}] + q(1) +
                    [{"op": "clone", "h": 1, "h2": 2}] + q(2) +
                    [{"op": "new", "h": 3}] + q(3) + q(1) + q(2) +
                    [{"op": "mig", "i": 1}] + q(3) + q(1) +
                    [{"op": "new", "h": 1}, {"op": "clone", "h": 3, "h2": 2}] + q(1) + q(2))
    for v1 in vendors:
        for v2 in vendors:
            for _ in range(ctx.k(6, 60)):
                yield two(v1, v2, (r.choice(BASIC), r.choice(EXT)), (r.choice(BASIC), r.choice(EXT)))
            yield two(v1, v2, (0x20, 0x80000028), (0, 0))
            yield two(v1, v2, (0, 0x80000000), (0x20, 0x80000028))
    # identification strings: every bit of the known ones, permutations, others.
    # The vendor shows in which leaves are reserved and in AMD-only flags.
    ops = [NEW, op_get("vendor_info"), op_read(1)]
    for k, g in enumerate(["cache_info", "processor_serial", "cache_parameters",
                           "direct_cache_access_info", "performance_monitoring_info",
                           "l1_cache_and_tlb_info", "svm_info", "tsc_info",
                           "extended_processor_and_feature_identifiers", "feature_info"]):
        ops.append(op_get(g, 2 + k))
    ops += [op_read(10), op_read(11), op_drain(4, 5)]

    def ident():
        for v in list(VENDORS.values()):
            b = v.encode()
            for p in range(12):
                for bit in range(8):
                    t = bytearray(b)
                    t[p] ^= 1 << bit
                    yield full_machine(ctx, bytes(t).decode("latin1"), 0x20, 0x80000028), ops
            for perm in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1)):
                t = b"".join(b[4 * k:4 * k + 4] for k in perm)
                yield full_machine(ctx, t.decode("latin1"), 0x20, 0x80000028), ops
            for v2 in list(VENDORS.values()):
                c = v2.encode()
                for cutp in range(0, 13):
                    yield full_machine(ctx, (b[:cutp] + c[cutp:]).decode("latin1"), 0x20, 0x80000028), ops
        for v in OTHERS:
            yield full_machine(ctx, v, 0x20, 0x80000028), ops
        for x in ctx.fresh:
            w = x.to_bytes(4, "little")
            for p in (0, 4, 8):
                for v in VENDORS.values():
                    b = v.encode()
                    yield full_machine(ctx, (b[:p] + w + b[p + 4:]).decode("latin1"), 0x20, 0x80000028), ops
        for _ in range(ctx.k(60, 3000)):
            yield full_machine(ctx, bytes(r.randrange(256) for _ in range(12)).decode("latin1"),
                               0x20, 0x80000028), ops
    yield from batches(ctx, "ident", ident())
    for _ in range(ctx.k(40, 1500)):
        ms, ops2 = history(ctx, nm=r.randint(2, 4), nh=4, length=60)
        yield case(ctx, "hist", ms, ops2)


def gen_iters(ctx):
    r = ctx.rng
    for _ in range(ctx.k(260, 9000)):
        ms, ops = history(ctx, nm=1, nh=2, length=r.choice([30, 60, 120]), only_iters=True, migrate=False)
        yield case(ctx, "iters", ms, ops)
    for _ in range(ctx.k(60, 2000)):
        ms, ops = history(ctx, nm=2, nh=2, length=60, only_iters=True, migrate=True)
        yield case(ctx, "iters-mig", ms, ops)
    # clone at every position of every iterator, advance both in both orders,
    # run past the end
    its = [(g, None) for g in sorted(ctx.t["iters"])] + [("sgx_info", "iter"), ("extended_state_info", "iter")]
    for g, q in its:
        for v in ("Intel", "Amd"):
            for at in range(0, 8):
                m = full_machine(ctx, v, 0x20, 0x80000028)
                if g in ITEM and g != "deterministic_address_translation_info":
                    leaf = iter_leaf(g, v)
                    m.t[leaf] = [valid(g, [rnd_word(r) for _ in range(4)], r) for _ in range(5)]
                    m.t[leaf].append(invalid(g, r))
                elif g == "deterministic_address_translation_info":
                    m.t[0x18] = [valid(g, [rnd_word(r) for _ in range(4)], r) if r.random() < .7
                                 else invalid(g, r) for _ in range(7)]
                    m.t[0x18][0][0] = 6
                elif g == "sgx_info":
                    m.t[0x12] = m.t[0x12][:2] + [valid("sgx", [rnd_word(r) for _ in range(4)], r)
                                                 for _ in range(5)] + [invalid("sgx", r)]
                x = 2
                ops = [NEW, op_get(g, 1)]
                if q:
                    ops.append(op_sub(1, q, 2))
                else:
                    x = 1
                nx = lambda y: {"op": "next", "x": y, "if": y}
                ops += [nx(x)] * at + peeks(ctx, x, g)
                ops += [{"op": "citer", "x": x, "y": 3, "if": x}, nx(3), nx(x), nx(x), nx(3),
                        {"op": "citer", "x": 3, "y": 4, "if": 3}, {"op": "dbg", "x": 3, "if": 3},
                        *peeks(ctx, 4, g), op_drain(3, 40), op_drain(x, 40), op_drain(4, 40), nx(3), nx(x), nx(x), nx(4)]
                ops += peeks(ctx, r.choice((x, 3, 4)), g)
                yield case(ctx, "clone", [m], ops)


def gen_snapshots(ctx):
    r = ctx.rng
    for _ in range(ctx.k(160, 6000)):
        ms, ops = history(ctx, nm=r.randint(2, 4), nh=3, length=r.choice([40, 80]))
        yield case(ctx, "hist", ms, ops)
    # every view: create on one CPU, read on all, sub-queries on all
    full = tour(ctx)
    for v1 in ("Intel", "Amd", "Hygon", "CentaurHauls"):
        for v2 in ("Intel", "Amd"):
            for _ in range(ctx.k(2, 30)):
                a = full_machine(ctx, v1, 0x20, 0x80000028)
                b = full_machine(ctx, v2, 0x20, 0x80000028)
                reread = [dict(o) for o in full if o["op"] in ("read", "sub")]
                gets = [o for o in full if o["op"] in ("new", "get")]
                yield case(ctx, "snap", [a, b],
                           full + [{"op": "mig", "i": 2}] + reread +
                           [{"op": "new", "h": 2}, {"op": "mig", "i": 1}] + reread + gets +
                           [{"op": "mig", "i": 2}] + reread + reread)
    # CPUs that differ in one register of a view, or in all but one: an answer
    # remembered for the first CPU must not be given for the second
    for g in sorted(ctx.t["views"]):
        slots = ctx.t["views"][g]["slots"]
        n = 4 * len(slots)
        t = ctx.t["views"][g]["t"]
        for i in range(n):
            for keep in (False, True):
                for _ in range(ctx.k(1, 12)):
                    v = r.choice(["Amd"] if g in AMD_ONLY else ["Intel"] if g in NOT_AMD else ["Intel", "Amd"])
                    a = full_machine(ctx, v, 0x20, 0x80000028)
                    prepare(a, g)
                    b = a.copy()
                    for k in range(n):
                        if (k == i) != keep:
                            leaf, sub = LEAF_OF(slots[k // 4][0]), slots[k // 4][1]
                            if leaf not in (0, 0x80000000):
                                b.reg(leaf, sub, k % 4, rnd_word(r))
                    prepare(b, g)
                    look = [op_get(g, 1), op_read(1)]
                    for j, q in enumerate(sorted(ctx.t["queries"].get(t, {}))):
                        if ctx.t["queries"][t][q]["t"] == "iter":
                            look += [op_sub(1, q, 3 + j), op_drain(3 + j, 6)]
                        else:
                            look += [op_sub(1, q, 3 + j), op_read(3 + j)]
                    yield case(ctx, "pair", [a, b], [NEW] + look + [op_get(g, 2), {"op": "mig", "i": 2}] + look +
                               [op_read(2)] + [NEW] + look + [{"op": "mig", "i": 1}] + look + [op_read(2)])


def gen_construct(ctx):
    """Every way to make an object or to execute the instruction."""
    r = ctx.rng
    vias = ["reader", "closure", "reader-closure", "fn-reader"]

    def vary(ops, pool):
        out = []
        for o in ops:
            if o["op"] == "new":
                o = dict(o, via=r.choice(pool))
            out.append(o)
        return out
    full = tour(ctx, True)
    for via in vias:
        for v in ("Intel", "Amd", "Hygon", "CentaurHauls"):
            for _ in range(ctx.k(2, 30)):
                m = full_machine(ctx, v, r.choice(BASIC), r.choice(EXT), r.random() < .8)
                yield case(ctx, via, [m], vary(full, [via]))
            yield case(ctx, via, [full_machine(ctx, v, 0x20, 0x80000028)], vary(full, [via]))
    # objects of all kinds side by side, moving between CPUs
    for _ in range(ctx.k(60, 2500)):
        ms, ops = history(ctx, nm=r.randint(1, 3), nh=4, length=60)
        yield case(ctx, "mixed", ms, vary(ops, vias))
    # the instruction through readers
    hows = ["reader1", "reader2", "closure1", "closure2"]

    def execs(leaves, subs, hows, n):
        out = []
        for _ in range(n):
            leaf, how = r.choice(leaves), r.choice(hows)
            sub = 0 if how.endswith("1") else subs()
            out.append({"op": "exec", "leaf": "L%X" % leaf, "sub": sub, "how": how})
        return out
    for _ in range(ctx.k(20, 300)):
        m = full_machine(ctx, "Intel", 0x20, 0x80000028)
        for leaf in r.sample(sorted(m.t), 8):
            m.t[leaf] = [[r.choice([0, 0, 0, 1 << r.randrange(32)]) for _ in range(4)] for _ in range(3)]
        leaves = sorted(m.t) + [r.getrandbits(32) for _ in range(5)] + [x for x in ctx.fresh]
        yield case(ctx, "exec", [m], execs(
            leaves, lambda: r.choice([0, 1, 2, 3, 4, 5, 6, 7, 40, 255, 0x7FFFFFFF, 1 << r.randrange(31)]), hows, 120))
    yield from of_this_cpu(ctx, vary, execs, full)
    if ctx.sim:
        yield from of_any_cpu(ctx, vary, execs, full)


def of_any_cpu(ctx, vary, execs, full):
    """The instruction itself, on simulated CPUs."""
    r = ctx.rng
    for v in ("Intel", "Amd", "Hygon", "CentaurHauls"):
        for via in NATIVES:
            for _ in range(ctx.k(2, 30)):
                m = full_machine(ctx, v, r.choice(BASIC), r.choice(EXT), r.random() < .8)
                yield dict(case(ctx, "sim-" + via, [m], vary(full, [via])), sim=1)
            yield dict(case(ctx, "sim-" + via, [full_machine(ctx, v, 0x20, 0x80000028)], vary(full, [via])), sim=1)
    for name, table in corpus():
        yield dict(case(ctx, "sim-real", [real_machine(table)], vary(full, NATIVES)), sim=1)
    for _ in range(ctx.k(60, 2000)):
        ms, ops = history(ctx, nm=r.randint(1, 3), nh=4, length=60)
        yield dict(case(ctx, "sim-mixed", ms, vary(ops, NATIVES + ["reader", "closure"])), sim=1)
    hows = ["macro1", "macro2", "macro-wide", "count", "native1", "native2"]
    for _ in range(ctx.k(20, 300)):
        m = full_machine(ctx, "Intel", 0x20, 0x80000028)
        for leaf in r.sample(sorted(m.t), 8):
            m.t[leaf] = [[r.choice([0, 0, 0, 1 << r.randrange(32), rnd_word(r)]) for _ in range(4)]
                         for _ in range(70 if r.random() < .2 else 3)]
        m.t[0x12345678] = [[rnd_word(r) for _ in range(4)] for _ in range(3)]
        leaves = sorted(m.t) + [r.getrandbits(32) for _ in range(5)] + list(ctx.fresh)
        yield dict(case(ctx, "sim-exec", [m], execs(
            leaves, lambda: r.choice([0, 1, 2, 3, 4, 5, 6, 7, 40, 64, 69, 255, 256, 0x7FFFFFFF, 1 << r.randrange(31)]),
            hows, 150)), sim=1)


def gen_stored(ctx):
    """Register values that were written out and read back."""
    r = ctx.rng
    for v in ("Intel", "Amd", "Hygon", "CentaurHauls"):
        for _ in range(ctx.k(5, 80)):
            ms = [full_machine(ctx, v, r.choice(BASIC), r.choice(EXT), r.random() < .8),
                  full_machine(ctx, r.choice(["Intel", "Amd"]), 0x20, 0x80000028)]
            ops = [dict(o, via="stored") if o["op"] == "new" else o for o in tour(ctx, True)]
            yield case(ctx, "stored", ms, ops + [{"op": "mig", "i": 2}] + ops[1:])
    for _ in range(ctx.k(40, 2000)):
        ms, ops = history(ctx, nm=r.randint(1, 3), nh=4, length=60)
        yield case(ctx, "stored-mixed", ms,
                   [dict(o, via=r.choice(["stored", "reader"])) if o["op"] == "new" else o for o in ops])
    for name, table in corpus():
        ops = [dict(o, via="stored") if o["op"] == "new" else o for o in tour(ctx)]
        yield case(ctx, "stored-real", [real_machine(table)], ops)
    # every bit of every register, edge words
    words = [0, ALL1] + [1 << b for b in range(32)] + [ALL1 ^ (1 << b) for b in range(32)] + list(BOUNDS)
    for i in range(4):
        for part in range(0, len(words), 40):
            m = M("Intel")
            rows = []
            for w in words[part:part + 40]:
                row = [rnd_word(r) for _ in range(4)]
                row[i] = w
                rows.append(row)
            m.t[5] = rows
            yield case(ctx, "stored-bits", [m],
                       [{"op": "exec", "leaf": "L5", "sub": k, "how": "stored2"} for k in range(len(rows))] +
                       [{"op": "exec", "leaf": "L5", "sub": 0, "how": "stored1"}])


def of_this_cpu(ctx, vary, execs, full):
    """The CPU we run on."""
    r = ctx.rng
    natives = NATIVES
    leaves = sorted(ctx.t["leaves"]) + ["L8", "LC", "LE", "L11", "L13", "L19", "L1A", "L1B", "L1C", "L1D",
                                        "L1E", "L20", "L40000001", "L80000009", "L80000018"]
    SUBS = 66
    nat = {"leaves": leaves, "subs": SUBS}

    def native(prefix, ops):
        return {"id": ctx.cid(prefix), "m": [], "native": nat, "ops": ops}
    for via in natives:
        for _ in range(2):
            yield native(via, vary(full, [via]))
    for _ in range(ctx.k(6, 60)):
        _, ops = history(ctx, nm=1, nh=4, length=60, migrate=False)
        yield native("native-mixed", vary(ops, natives))
    nums = [LEAF_OF(x) for x in leaves]
    hows = ["macro1", "macro2", "macro-wide", "count", "native1", "native2"]
    for how in hows:
        yield native("native-" + how, execs(nums, lambda: r.randrange(SUBS), [how], 150))
        far = lambda: r.choice([1 << r.randrange(7, 31), (1 << r.randrange(7, 31)) + r.randrange(4), r.getrandbits(31)])
        yield native("native-far-" + how, execs(nums, far, [how], 150))


def gen_shown(ctx):
    """Debug representations and display texts."""
    r = ctx.rng

    def look(x):
        return [{"op": "show", "x": x, "if": x}, {"op": "text", "x": x, "if": x}]
    # every view on many words
    for g in sorted(ctx.t["views"]):
        t = ctx.t["views"][g]["t"]
        n = 4 * len(ctx.t["views"][g]["slots"])
        ops = [NEW, op_get(g)] + look(1)
        for q in sorted(ctx.t["queries"].get(t, {})):
            ops.append(op_sub(1, q, 2))
            ops += look(2) if ctx.t["queries"][t][q]["t"] != "iter" else [{"op": "show", "x": 2, "if": 2}]
        ops.append({"op": "show", "x": 1, "if": 1})
        words = list(stimuli(ctx, t, n, light=True))
        keep = ctx.k(90, 2500)
        if len(words) > keep:
            words = words[:2] + r.sample(words[2:], keep - 2)

        def items(words=words, g=g, ops=ops):
            for i, w in enumerate(words):
                m = view_machine(ctx, g, w, vendor_for(ctx, g, i))
                if 0x12 in m.t:
                    m.t[0x12] = m.t[0x12][:2] + [valid("sgx", [rnd_word(r) for _ in range(4)], r)
                                                 for _ in range(r.randint(0, 3))] + [invalid("sgx", r)]
                if g == "soc_vendor_info" and m.t[0x17][0][0] > 9:
                    m.t[0x17][0][0] %= 10
                if g == "processor_topology_info" and (m.t[0x8000001E][0][1] >> 8) & 255 == 255:
                    m.t[0x8000001E][0][1] ^= 0x100
                yield m, ops
        yield from batches(ctx, "show-" + g, items())
    # lists at every position, and their items
    its = [(g, None) for g in sorted(ctx.t["iters"])] + [
        ("sgx_info", "iter"), ("extended_state_info", "iter"), ("soc_vendor_info", "get_vendor_attributes")]
    for g, q in its:
        def items(g=g, q=q):
            for i in range(ctx.k(24, 600)):
                v = vendor_for(ctx, g, i)
                m = full_machine(ctx, v, 0x20, 0x80000028)
                if g in ITEM and g != "deterministic_address_translation_info":
                    m.t[iter_leaf(g, v)] = [valid(g, [rnd_word(r) for _ in range(4)], r)
                                            for _ in range(r.randint(0, 6))] + [invalid(g, r)]
                x = 2 if q else 1
                ops = [NEW, op_get(g, 1)] + ([op_sub(1, q, 2)] if q else [])
                for _ in range(r.randint(1, 7)):
                    ops += [{"op": "show", "x": x, "if": x}, {"op": "next", "x": x, "y": 3, "if": x}] + look(3)
                if q != "get_vendor_attributes":
                    ops += [{"op": "citer", "x": x, "y": 4, "if": x}, {"op": "show", "x": 4, "if": 4}, op_drain(4, 40)]
                ops += [{"op": "show", "x": x, "if": x}] + look(1) + [op_drain(x, 40), {"op": "show", "x": x, "if": x}]
                yield m, ops
        yield from batches(ctx, "shown-" + g, items())
    # every item type on many words
    for g in ITEM:
        dat = g == "deterministic_address_translation_info"
        words = list(stimuli(ctx, ITEM[g], 4, light=True))
        keep = ctx.k(160, 3000)
        if len(words) > keep:
            words = words[:2] + r.sample(words[2:], keep - 2)

        def items(g=g, words=words, dat=dat):
            for i in range(0, len(words), 8):
                subs = [valid(g, w, r) for w in words[i:i + 8]]
                if dat:
                    subs[0][0] = len(subs) - 1
                ops = [NEW, op_get(g), {"op": "show", "x": 1, "if": 1}]
                for _ in range(9):
                    ops += [{"op": "next", "x": 1, "y": 2, "if": 1}] + look(2)
                yield iter_machine(ctx, g, subs + [invalid(g, r)], vendor_for(ctx, g, i // 8)), ops
        yield from batches(ctx, "items-" + g, items())
    # every descriptor
    def descs():
        known = [d for d in range(1, 256) if d != 0xC3]
        for lo in range(0, len(known), 5):
            b = known[lo:lo + 5]
            m = M("Intel")
            m.set(2, 0, words_of(bytes([1] + b + [0] * (15 - len(b)))))
            yield m, [NEW, op_get("cache_info"), {"op": "show", "x": 1, "if": 1}] + [
                o for _ in range(6) for o in [{"op": "next", "x": 1, "y": 2, "if": 1}] + look(2)]
    yield from batches(ctx, "desc", descs())
    # whole objects, on the CPU they were made on and elsewhere
    who = {"op": "showid", "h": 1}
    for v in ("Intel", "Amd", "Hygon", "CentaurHauls"):
        for _ in range(ctx.k(8, 150)):
            m = full_machine(ctx, v, r.choice([0x20, r.choice(BASIC)]), r.choice([0x80000028, r.choice(EXT)]),
                             r.random() < .8)
            m2 = full_machine(ctx, r.choice(["Intel", "Amd"]), r.choice(BASIC), r.choice(EXT), r.random() < .8)
            yield case(ctx, "object", [m, m2], [
                NEW, who, {"op": "mig", "i": 2}, who, {"op": "clone", "h": 1, "h2": 2},
                {"op": "showid", "h": 2}, {"op": "new", "h": 3}, {"op": "showid", "h": 3}])
    for name, table in corpus():
        yield case(ctx, "object", [real_machine(table)], [NEW, who] + [
            o for k, g in enumerate(all_getters(ctx)) for o in [op_get(g, k + 1), {"op": "show", "x": k + 1, "if": k + 1}]])
    # looking changes nothing
    for _ in range(ctx.k(60, 2500)):
        ms, ops = history(ctx, nm=r.randint(1, 3), nh=2, length=60)
        out = []
        for o in ops:
            out.append(o)
            x = o.get("x", 0)
            if o["op"] == "dbg" or x and r.random() < .25:
                out.append({"op": "show", "x": x, "if": x})
            if r.random() < .03:
                out.append({"op": "showid", "h": 1})
        yield case(ctx, "hist", ms, out)


def gen_equal(ctx):
    """Equality of views."""
    r = ctx.rng
    eq = lambda x, y: {"op": "eq", "x": x, "y": y, "if": x}

    def pair(g, n, a, b, va, vb, q=None):
        m1, m2 = view_machine(ctx, g, a, va), view_machine(ctx, g, b, vb)
        for m in (m1, m2):
            if 0x12 in m.t:
                m.t[0x12].append(invalid("sgx", r))
        return m1, m2
    for g in sorted(ctx.t["views"]):
        t = ctx.t["views"][g]["t"]
        n = 4 * len(ctx.t["views"][g]["slots"])
        qs = [q for q in sorted(ctx.t["queries"].get(t, {})) if ctx.t["queries"][t][q]["t"] != "iter"]
        todo = []
        for i in range(n):
            for b in range(32):
                if ctx.deep or n <= 4 or r.random() < .5:
                    todo.append((i, 1 << b))
        for _ in range(ctx.k(12, 300)):
            todo.append((r.randrange(n), r.getrandbits(32)))
            todo.append((0, 0))
        for lo in range(0, len(todo), 12):
            ms, ops = [], []
            for i, x in todo[lo:lo + 12]:
                w = [rnd_word(r) for _ in range(n)]
                if g == "processor_brand_string":
                    w = [0x41414141 + rnd_word(r) % 20 for _ in range(n)]
                w2 = list(w)
                w2[i] ^= x
                v = vendor_for(ctx, g, r.randrange(6))
                v2 = v if r.random() < .8 else vendor_for(ctx, g, r.randrange(6))
                ms += list(pair(g, n, w, w2, v, v2))
                k = len(ms)
                first = [] if k == 2 else [{"op": "mig", "i": k - 1}]
                ops += first + [NEW, op_get(g, 1)]
                for j, q in enumerate(qs):
                    ops.append(op_sub(1, q, 10 + j))
                ops += [{"op": "mig", "i": k}, {"op": "new", "h": 1}, op_get(g, 2), op_get(g, 3),
                        eq(1, 2), eq(2, 1), eq(2, 3), eq(1, 1)]
                for j, q in enumerate(qs):
                    ops += [op_sub(2, q, 20 + j), op_sub(3, q, 30 + j), eq(10 + j, 20 + j), eq(20 + j, 30 + j)]
            yield case(ctx, "eq-" + g, ms, ops)
    # items of lists
    for g in ITEM:
        dat = g == "deterministic_address_translation_info"
        for i in range(ctx.k(16, 300)):
            v = vendor_for(ctx, g, i)
            base = [rnd_word(r) for _ in range(4)]
            subs = [valid(g, list(base), r)]
            for _ in range(5):
                w = list(subs[0])
                if r.random() < .8:
                    w[r.randrange(4)] ^= 1 << r.randrange(32)
                subs.append(valid(g, w, r))
            if dat:
                subs[0][0] = len(subs) - 1
            m = iter_machine(ctx, g, subs + [invalid(g, r)], v)
            ops = [NEW, op_get(g, 1)]
            for k in range(7):
                ops.append({"op": "next", "x": 1, "y": 2 + k, "if": 1})
            ops += [eq(x, y) for x in range(2, 9) for y in range(2, 9)]
            yield case(ctx, "eqitem-" + g, [m], ops)
    # every sub-query view: two CPUs that differ in one register of one sub-leaf
    full = full_machine
    for g, q, leaf, subs in [
            ("rdt_monitoring_info", "l3_monitoring", 0xF, [1]), ("rdt_allocation_info", "l3_cat", 0x10, [1]),
            ("rdt_allocation_info", "l2_cat", 0x10, [2]),
            ("rdt_allocation_info", "memory_bandwidth_allocation", 0x10, [3]),
            ("soc_vendor_info", "get_vendor_brand", 0x17, [1, 2, 3]),
            ("pqos_extended_feature_info", "get_l3_memory_bandwidth_enforcement_info", 0x80000020, [1]),
            ("pqos_extended_feature_info", "get_l3_slow_memory_bandwidth_enforcement_info", 0x80000020, [2]),
            ("pqos_extended_feature_info", "get_bandwidth_monitoring_event_counters_info", 0x80000020, [3]),
            ("pqos_extended_feature_info", "get_assignable_bandwidth_monitoring_counters_info", 0x80000020, [5])]:
        for _ in range(ctx.k(24, 300)):
            a = full(ctx, "Intel", 0x20, 0x80000028)
            a.t[leaf][0] = [ALL1, ALL1, ALL1, ALL1]
            if leaf == 0x17:
                a.t[leaf][0][0] = 3
                for s in subs:
                    a.t[leaf][s] = [0x41414141 + r.randrange(16) for _ in range(4)]
            b = M("Intel")
            b.t = {k: [list(s) for s in v] for k, v in a.t.items()}
            s = r.choice(subs)
            k = r.randrange(4)
            b.t[leaf][s][k] ^= (1 << r.choice([0, 1, 2, 8])) if leaf == 0x17 else (1 << r.randrange(32))
            yield case(ctx, "eqsub", [a, b], [
                NEW, op_get(g, 1), op_sub(1, q, 2), op_sub(1, q, 3), {"op": "mig", "i": 2}, op_sub(1, q, 4),
                eq(2, 3), eq(2, 4), eq(4, 2)])


# name -> (generator, mode, model checks)
def with_lists(gen, *kinds):
    """gen, and every transition of MC_Iter for these kinds of enumeration."""
    def all_of(ctx):
        yield from with_peeks(ctx, gen(ctx))
        if ctx.deep:
            yield from worn_out(ctx, kinds or KINDS)
        yield from iter_walks(ctx, kinds or KINDS, longest=3 if ctx.deep and kinds else 2)
    return all_of


def worn_out(ctx, kinds):
    """Iterators that are asked more than 2^32 times after their end (those that
    need not read the CPU for that)."""
    for kind in kinds:
        ops, table = {
            "state": ([op_get("extended_state_info", 2), op_sub(2, "iter", 1)], {0xD: [[7, 0, 0, 0], [0] * 4, [64, 576, 0, 0]]}),
            "desc": ([op_get("cache_info")], {2: [[0x66000001, 0, 0, 0]]}),
            "dat": ([op_get("deterministic_address_translation_info")], {0x18: [[1, 0, 0, 1], [0, 0, 0, 2]]}),
        }.get(kind, (None, None))
        if ops:
            m = M("Intel")
            for leaf, rows in table.items():
                for sub, row in enumerate(rows):
                    m.set(leaf, sub, row)
            yield case(ctx, "worn", [m], [NEW] + ops + [
                {"op": "peek", "x": 1, "how": "past", "n": 65537, "by": 65536}, op_drain(1, 9)])


def with_lives(gen, *sets):
    """gen, and the transitions of MC_Life for these sets of getters, CPUs and
    object handles (quick: a sample of them)."""
    def all_of(ctx):
        yield from gen(ctx)
        yield from life_walks(ctx, sets, wanted=150000 if ctx.deep else 8000)
    return all_of


def with_gates(gen):
    def all_of(ctx):
        yield from gen(ctx)
        yield from gate_walks(ctx, all_getters(ctx), None if ctx.deep else 1200)
    return all_of


LIVES = [(("feature_info", "hypervisor_info"), (1, 2), (1, 2)),
         (("sgx_info",), (1, 2), (1, 2)),
         (("cache_parameters",), (1, 2), (1, 2)),
         (("extended_state_info",), (1, 2), (1,)),
         (("rdt_allocation_info",), (1, 2), (1, 2)),
         (("soc_vendor_info",), (1, 2), (1,)),
         (("pqos_extended_feature_info",), (1, 2), (1, 2)),
         (("cache_info",), (1, 3), (1,))]

def gen_totals(ctx):
    yield from gen_total(ctx)
    yield from gen_torn(ctx)


def gen_published(ctx):
    """The published table, conversions and numbers."""
    r = ctx.rng
    look = [{"op": o, "x": 1, "if": 1} for o in ("read", "show", "text")]
    ds = [d for d in range(256) if d not in (0, 0xC3)]
    for i in range(0, len(ds), 32):
        yield case(ctx, "entries", [M("Intel")], [NEW, {"op": "table"}] + [
            o for d in ds[i:i + 32] for o in [{"op": "entry", "h": 1, "d": d, "x": 1}] + look])
    # an entry is what the enumeration reports, and both stay what they are
    for _ in range(ctx.k(40, 400)):
        few = r.sample(ds, 6)
        m = M("Intel")
        m.set(2, 0, [1] + [int.from_bytes(bytes(r.choice(few) for _ in range(4)), "little") for _ in range(3)])
        ops = [NEW, op_get("cache_info", 2)]
        for d in few:
            ops += [{"op": "entry", "h": 1, "d": d, "x": 1}, {"op": "next", "x": 2, "y": 3, "if": 2}] + look
            ops += [dict(o, x=3, **{"if": 3}) for o in look]
        yield case(ctx, "entry", [m], ops + [op_drain(2, 20), {"op": "table"}])
    nums = sorted(set(range(0, 66)) | {b for b in BOUNDS if b < 1 << 31} |
                  {x for x in ctx.ints + ctx.fresh if x < 1 << 31} |
                  {r.getrandbits(r.randint(1, 31)) for _ in range(ctx.k(60, 2000))})
    yield case(ctx, "registers", [M("Intel")], [{"op": "conv", "of": "register", "n": n} for n in nums])
    yield case(ctx, "levels", [M("Amd")], [{"op": "conv", "of": "level", "n": n} for n in range(256)])
    yield case(ctx, "numbers", [M("Intel")], [{"op": "numof", "of": of, "n": n} for of, top in
                                               (("cache", 4), ("topology", 6), ("dat", 6)) for n in range(top)])


def gen_program(ctx):
    """The command line program, on the machine the check runs on and on others."""
    r = ctx.rng
    leaves = sorted({s[0] for v in ctx.t["views"].values() for s in v["slots"]})
    runs = [("report", []), ("raw", ["-f", "raw"]), ("report", ["--format", "cli"]),
            ("raw", ["--format=raw"]), ("report", ["-fcli"]), ("raw", ["-fraw"]),
            ("raw", ["--format", "raw"]), ("report", ["-f", "cli"]), ("report", ["--format=cli"]),
            ("refuse", ["-f", "xml"]), ("refuse", ["--format", ""]), ("refuse", ["--format"]),
            ("refuse", ["raw"]), ("refuse", ["-f", "rawcli"])]
    for i in range(ctx.k(3, 20)):
        for does, args, *pipe in runs + [("raw", ["-f", "raw"], 1)]:
            ident = ctx.cid("program")
            c = {"id": ident, "what": "program", "does": does, "args": args, "leaves": leaves,
                 "file": os.path.join(ctx.work, ident + ".cpu")}
            if pipe:
                c["pipe"] = 1
            yield c
    if not ctx.sim:
        return
    # simulated CPUs: some of those that the report and the dump are judged on
    avx2 = " avx2" in open("/proc/cpuinfo").read()
    spelled = {does: [a for d, a in runs if d == does] for does in ("report", "raw")}
    for gen, n in ((gen_report, ctx.k(160, 1500)), (gen_raw, ctx.k(80, 800))):
        cs = [c for c in gen(ctx) if len(c["m"]) == 1]
        for c in r.sample(cs, min(len(cs), n)):
            if not avx2 and "L1" in c["m"][0]:          # else the program's own libraries use it
                for row in c["m"][0]["L1"]:
                    row[5] &= ~0x800
            c = dict(c, id=ctx.cid("sim-" + c["what"]), does=c["what"], what="program", args=r.choice(spelled[c["what"]]),
                     file=os.path.join(ctx.work, "table"))
            if c["does"] == "raw" and r.random() < .3:
                c["pipe"] = 1
            yield c


PLAIN_GENS = [gen_gating, gen_latched, gen_feature_info, gen_family, views("extended_feature_info"),
              views("processor_serial", "monitor_mwait_info", "performance_monitoring_info", "processor_trace_info",
                    "thermal_power_info"),
              gen_tsc, gen_hypervisor, gen_sgx, gen_cache_info, gen_cache_params, gen_topology, gen_state, gen_rdt,
              gen_dat, gen_soc, views("extended_processor_and_feature_identifiers", "processor_capacity_feature_info",
                                      "processor_topology_info", "memory_encryption_info", "svm_info"),
              views("l1_cache_and_tlb_info", "l2_l3_cache_and_tlb_info", "tlb_1gb_page_info"),
              gen_pqos, gen_strings, gen_total, gen_iters, gen_snapshots, gen_construct, gen_shown, gen_published,
              gen_equal]


def gen_builds(ctx):
    """Some of what the other properties look at, for all builds of the crate."""
    def stored(c):
        return any(str(o.get(k, "")).startswith("stored") for o in c["ops"] for k in ("via", "how"))
    for gen in PLAIN_GENS:
        cs = [c for c in gen(ctx) if not stored(c)]
        yield from ctx.rng.sample(cs, min(len(cs), ctx.k(20, 200)))


def gen_small(ctx):
    """The beginnings of some of these that are small, for the build that is interpreted."""
    r = ctx.rng
    def fits(m):        # a known finding is about 2^32 sets
        return not any(row[4:6] == [0xFFFF] * 2 for k in ("L4", "L8000001D") for row in m.get(k, []))
    m = M("Intel")
    m.set(4, 0, [0x21, 0, ALL1, 0])
    yield case(ctx, "small-sets", [m], [NEW, op_get("cache_parameters"), {"op": "next", "x": 1, "if": 1}])
    # every view, item and list on wide values
    def wide(k):
        return [ALL1 if k == 0 else rnd_word(r) | r.choice([0, 0xF0000000, 0x80000000]) for _ in range(16)]
    lists = {"sgx_info": "iter", "extended_state_info": "iter", "soc_vendor_info": "get_vendor_attributes"}
    for g in sorted(ctx.t["views"]):
        t = ctx.t["views"][g]["t"]
        n = 4 * len(ctx.t["views"][g]["slots"])
        for k in range(ctx.k(2, 12)):
            m = M(vendor_for(ctx, g, k))
            w = wide(k)[:n]
            for i, (leaf, sub) in enumerate(ctx.t["views"][g]["slots"]):
                if leaf not in ("L0", "L80000000"):
                    m.set(int(leaf[1:], 16), sub, w[4 * i:4 * i + 4])
            prepare(m, g)
            if g == "sgx_info":
                for i in range(2, 4):
                    m.set(0x12, i, valid("sgx", wide(k)[:4], r))
            elif g == "soc_vendor_info":
                m.set(0x17, 0, [r.choice([3, 4, 5, ALL1])] + w[1:4])
                for i in range(1, 5):
                    m.set(0x17, i, wide(1)[:4])
            elif g == "processor_topology_info":         # another one is about 256 threads
                m.t[0x8000001E][0][1] &= ~0x8000
            ops = [NEW, op_get(g), op_read(1)]
            for q in sorted(ctx.t["queries"].get(t, {})):
                ops.append(op_sub(1, q, 2))
                ops += [{"op": "next", "x": 2, "if": 2}] * 3 if q == lists.get(g) else [op_read(2)]
            yield case(ctx, "wide-" + g, [m], ops)
    for g in ITEM:
        for k in range(ctx.k(3, 20)):
            rows = [valid(g, wide(k)[:4], r) for _ in range(2)]
            if g == "deterministic_address_translation_info":
                rows[0][0] = 1
            if g == "cache_parameters":
                rows = [[w[0], w[1], w[2] & ~1, w[3]] for w in rows]
            yield case(ctx, "wide-" + g, [iter_machine(ctx, g, rows + [invalid(g, r)], vendor_for(ctx, g, k), False)],
                       [NEW, op_get(g)] + [{"op": "next", "x": 1, "if": 1}] * 3)
    for gen in PLAIN_GENS:
        cs = []
        for c in gen(ctx):
            ops = []
            for o in c["ops"]:
                if o["op"] in ("mig", "exec") or o.get("via") in ["stored"] + NATIVES \
                        or str(o.get("how", "")).startswith("stored"):
                    break
                ops.append(o)
            if ops and not c.get("sim") and c["m"] and fits(c["m"][0]):
                c = dict(c, m=c["m"][:1], ops=ops, id="small-" + c["id"])
                if len(str(c)) < ctx.k(800, 2000):
                    cs.append(c)
        yield from r.sample(cs, min(len(cs), ctx.k(2, 40)))


THREADS = 8


def gen_threads(ctx):
    """What so many threads do at the same time: every THREADS cases in a row.
    Those marked `share` are about the same CPU, with the same object."""
    r = ctx.rng
    vendors = ["Intel", "Amd", "Intel", "Amd", "Hygon", "CentaurHauls"]

    def some(i):
        return full_machine(ctx, vendors[i % 6], r.choice([0x20, 0x20, r.choice(BASIC)]),
                            r.choice([0x80000028, 0x80000028, r.choice(EXT)]), r.random() < .9)

    def together(kind, m, programs):
        for ops in programs:
            c = case(ctx, kind, [m], ops)
            c["share"] = 1
            yield c

    def often(g):
        """One query, its accessors and all it leads to, again and again."""
        ops = []
        for _ in range(12):
            ops.append(op_get(g, 1))
            if g not in ctx.t["views"]:
                ops += [{"op": "next", "x": 1, "y": 2, "if": 1}, {"op": "read", "x": 2, "if": 2}, op_drain(1, 40)]
                continue
            ops.append(op_read(1))
            t = ctx.t["views"][g]["t"]
            for k, q in enumerate(sorted(ctx.t["queries"].get(t, {}))):
                ops.append(op_sub(1, q, 3 + k))
                ops.append(op_drain(3 + k, 40) if ctx.t["queries"][t][q]["t"] == "iter" else op_read(3 + k))
        return ops
    # everybody asks everything, in the same order and in different ones
    for i in range(ctx.k(10, 120)):
        yield from together("tour", some(i), [tour(ctx, i % 5 == 4)] * THREADS)
    for i in range(ctx.k(25, 500)):
        m = some(i)
        yield from together("hist", m, [history(ctx, nm=1, nh=2, length=60, migrate=False, on=[m],
                                                only_iters=i % 3 == 2)[1] for _ in range(THREADS)])
    # everybody asks the same, again and again: of one object, and each about a CPU of its own
    for g in all_getters(ctx):
        for i in range(ctx.k(1, 12)):
            v = vendor_for(ctx, g, i)
            m = full_machine(ctx, v, 0x20, 0x80000028)
            yield from together("often-" + g, m, [[NEW] + often(g)] * THREADS)
            for _ in range(THREADS):
                yield case(ctx, "alone-" + g, [full_machine(ctx, v, 0x20, 0x80000028)], [NEW] + often(g))
    # everybody on CPUs of its own, also moving between them
    for i in range(ctx.k(10, 200)):
        for _ in range(THREADS):
            ms, ops = history(ctx, nm=2, nh=2, length=60)
            yield case(ctx, "own", ms, ops)
    for i in range(ctx.k(6, 80)):
        for _ in range(THREADS):
            yield case(ctx, "start", [some(r.randrange(6))], [NEW] + [
                o for k in range(30) for o in [{"op": "new", "h": 1}, op_get("feature_info", 1)]] + [op_read(1)])


PROPS = {
    "P01": (with_gates(gen_gating), "full", ["Gate"]),
    "P02": (gen_reads, "reads", ["Gate"]),
    "P03": (with_lives(gen_latched, (("cache_parameters",), (1, 2), (1, 2)),
                       (("feature_info", "l1_cache_and_tlb_info"), (1, 2, 3), (1, 2))), "full", ["Life"]),
    "P04": (gen_feature_info, "full", ["Tables"]),
    "P05": (gen_family, "full", ["Family"]),
    "P06": (views("extended_feature_info"), "full", ["Tables"]),
    "P07": (views("processor_serial", "monitor_mwait_info", "thermal_power_info",
                  "direct_cache_access_info", "performance_monitoring_info"), "full", ["Tables"]),
    "P08": (gen_tsc, "full", ["Arith"]),
    "P09": (with_lives(gen_hypervisor, (("hypervisor_info",), (1, 2, 3), (1, 2))), "full", ["Life"]),
    "P10": (with_lists(gen_sgx, "sgx"), "full", ["Iter"]),
    "P11": (views("processor_trace_info"), "full", ["Tables"]),
    "P12": (with_lists(gen_cache_info, "desc"), "full", ["Iter"]),
    "P13": (with_lists(gen_cache_params, "cache"), "full", ["Iter"]),
    "P14": (with_lists(gen_topology, "topo", "topo2", "amdtopo"), "full", ["Iter"]),
    "P15": (with_lists(gen_state, "state"), "full", ["Iter"]),
    "P16": (gen_rdt, "full", ["Tables"]),
    "P17": (with_lists(gen_dat, "dat"), "full", ["Iter"]),
    "P18": (with_lists(gen_soc, "attr"), "full", ["Iter"]),
    "P19": (views("extended_processor_and_feature_identifiers"), "full", ["Tables"]),
    "P20": (views("l1_cache_and_tlb_info", "l2_l3_cache_and_tlb_info", "tlb_1gb_page_info"), "full", ["Tables"]),
    "P21": (views("advanced_power_mgmt_info", "processor_capacity_feature_info", "svm_info",
                  "performance_optimization_info", "instruction_based_sampling_capabilities",
                  "processor_topology_info", "memory_encryption_info"), "full", ["Tables"]),
    "P22": (gen_pqos, "full", ["Tables"]),
    "P23": (gen_strings, "full", ["Text"]),
    "P24": (gen_totals, "total", ["Iter"]),
    "P25": (with_lists(gen_iters), "full", ["Iter"]),
    "P26": (with_lives(gen_snapshots, *LIVES), "full", ["Life"]),
    "P29": (gen_construct, "full", ["Life"]),
    "P30": (gen_shown, "full", ["Life"]),
    "P32": (gen_stored, "full", ["Life"]),
    "P33": (gen_published, "full", ["Published"]),
    "P31": (gen_equal, "full", ["Life"]),
    "P36": (gen_threads, "full", ["Threads"]),
    "P35": (gen_builds, "full", ["Iter"]),
    "P34": (gen_program, "full", ["Report"], "harness-display", "ReportTrace"),
    "P27": (gen_raw, "full", ["Report"], "harness-display", "ReportTrace"),
    "P28": (gen_report, "full", ["Report"], "harness-display", "ReportTrace"),
}
