"""Stimulus per property: lists of cases for the conformance driver."""
from core import *

ALL = None   # filled by all_getters


def all_getters(ctx):
    return sorted(ctx.t["views"]) + sorted(ctx.t["iters"])


# ---------------------------------------------------------------- plain views

def views(*gs, light=False):
    def gen(ctx):
        for g in gs:
            yield from view_cases(ctx, g, light=light)
    return gen


def sub_cases(ctx, g, q, n_sub_extra=0):
    """Views behind a sub-query: the parent's words decide presence, the
    sub-leaves its contents."""
    r = ctx.rng
    parent = ctx.t["views"][g]
    query = ctx.t["queries"][parent["t"]][q]
    t = query["t"]
    slots = [(LEAF_OF(l), s) for l, s in query["slots"]]
    pleaf = LEAF_OF(parent["slots"][0][0])
    ops = [NEW, op_get(g), op_sub(1, q, 2), op_read(2)]

    def machine(pw, words, i):
        v = ROTATION[i % len(ROTATION)]
        m = full_machine(ctx, v, 0x20, 0x80000028) if r.random() < 0.15 else M(v)
        m.set(pleaf, 0, pw)
        top = max(s for _, s in slots)
        for s in range(1, top + 1):
            m.set(pleaf, s, [r.getrandbits(32) for _ in range(4)])
        for k, (l, s) in enumerate(slots):
            m.set(l, s, words[4 * k:4 * k + 4])
        m.t[pleaf].append([r.getrandbits(32) for _ in range(4)])
        return m

    def items():
        i = 0
        for words in stimuli(ctx, t, 4 * len(slots)):
            i += 1
            pw = [rnd_word(r) for _ in range(4)]
            if r.random() < 0.5:
                pw = [ALL1] * 4
            yield machine(pw, words, i), ops
        # presence: every single bit of the parent set / cleared
        for reg in range(4):
            for b in range(32):
                for base in (0, ALL1):
                    pw = [base] * 4
                    pw[reg] ^= 1 << b
                    i += 1
                    yield machine(pw, [rnd_word(r) for _ in range(4 * len(slots))], i), ops
        for v in range(0, 40):
            pw = [rnd_word(r) for _ in range(4)]
            pw[0] = v
            i += 1
            yield machine(pw, [rnd_word(r) for _ in range(4 * len(slots))], i), ops
        for _ in range(ctx.k(200, 4000)):
            i += 1
            yield machine([rnd_word(r) for _ in range(4)],
                          [rnd_word(r) for _ in range(4 * len(slots))], i), ops
    yield from batches(ctx, q, items())


# ------------------------------------------------------------------ iterators

ITEM = {"cache_parameters": "CacheParameter", "extended_topology_info": "ExtendedTopologyLevel",
        "extended_topology_info_v2": "ExtendedTopologyLevel",
        "deterministic_address_translation_info": "DatInfo",
        "extended_cpu_topology": "ExtendedCpuTopologyLevel"}


def valid(g, w, r):
    """Makes the words of a sub-leaf one the enumeration reports."""
    w = list(w)
    if g == "cache_parameters":
        if not 1 <= (w[EAX] & 31) <= 3:
            w[EAX] = put(w[EAX], 0, 4, r.randint(1, 3))
    elif g in ("extended_topology_info", "extended_topology_info_v2", "extended_cpu_topology"):
        if w[ECX] & 0xFF00 == 0:
            w[ECX] = put(w[ECX], 8, 15, r.choice([1, 2, 3, 4, 5, 6, 7, r.randint(1, 255)]))
    elif g == "deterministic_address_translation_info":
        if w[EDX] & 31 == 0:
            w[EDX] = put(w[EDX], 0, 4, r.randint(1, 31))
    elif g == "sgx":
        w[EAX] = put(w[EAX], 0, 3, 1)
    return w


def invalid(g, r, w=None):
    w = list(w) if w is not None else [rnd_word(r) for _ in range(4)]
    if g == "cache_parameters":
        w[EAX] = put(w[EAX], 0, 4, r.choice([0, 0, 0, 4, 5, 8, 16, 17, 18, 19, 31]))
    elif g in ("extended_topology_info", "extended_topology_info_v2", "extended_cpu_topology"):
        w[ECX] = put(w[ECX], 8, 15, 0)
    elif g == "deterministic_address_translation_info":
        w[EDX] = put(w[EDX], 0, 4, 0)
    elif g == "sgx":
        w[EAX] = put(w[EAX], 0, 3, r.choice([0, 0, 2, 3, 5, 8, 9, 13, 15]))
    return w


def iter_leaf(g, vendor):
    return {"cache_parameters": 0x8000001D if vendor in ("Amd", "Hygon") else 4,
            "extended_topology_info": 0xB, "extended_topology_info_v2": 0x1F,
            "deterministic_address_translation_info": 0x18,
            "extended_cpu_topology": 0x80000026}[g]


def iter_machine(ctx, g, subs, vendor, behind=True):
    """subs: the sub-leaves up to the end; more items lurk behind the end."""
    r = ctx.rng
    m = M(vendor)
    leaf = iter_leaf(g, vendor)
    for i, s in enumerate(subs):
        m.set(leaf, i, s)
    if behind:
        for k in range(r.randint(0, 3)):
            m.t[leaf].append(valid(g, [rnd_word(r) for _ in range(4)], r))
    m.t[leaf].append(invalid(g, r))
    # the other vendor's / other version's leaf holds something else
    for other in (4, 0x8000001D, 0xB, 0x1F, 0x18, 0x80000026):
        if other != leaf and r.random() < 0.5:
            for k in range(r.randint(1, 3)):
                m.set(other, k, [r.getrandbits(32) for _ in range(4)])
            m.t[other].append([0, 0, 0, 0])
    return m


def related(ctx, t, count, lengths=(2, 3, 4, 5, 7)):
    """Lists whose items have to do with each other: equal ones, ones that
    differ in a field or a bit, fields from a common few values, and sums."""
    r = ctx.rng
    fs = [f for f in fields_of(ctx, t) if f["r"] <= 4]

    def get(w, f):
        return w[f["r"] - 1] >> f["lo"] & ((1 << (f["hi"] - f["lo"] + 1)) - 1)

    def setf(w, f, v):
        top = (1 << (f["hi"] - f["lo"] + 1)) - 1
        w[f["r"] - 1] = put(w[f["r"] - 1], f["lo"], f["hi"], v & top)
    for k in range(count):
        n = r.choice(lengths)
        rows = [[rnd_word(r) for _ in range(4)]]
        kind = k % 6
        few = [r.getrandbits(r.choice((1, 4, 8, 16, 32))) for _ in range(2)] + [0, ALL1][:r.randint(0, 2)]
        while len(rows) < n:
            w = list(r.choice(rows)) if r.random() < 0.3 else list(rows[-1])
            if kind == 0 or r.random() < 0.2:                 # the same again
                pass
            elif kind == 1:                                   # up to a bit
                w[r.randrange(4)] ^= 1 << r.randrange(32)
            elif kind == 2 and fs:                            # up to a field, or to all but one
                f = r.choice(fs)
                setf(w, f, get(w, f) + r.choice((1, -1, 2)))
            elif kind == 3 and fs:                            # one field is the same
                f = r.choice(fs)
                v = get(w, f)
                w = [rnd_word(r) for _ in range(4)]
                setf(w, f, v + r.choice((0, 0, 1)))
            elif kind == 4:                                   # of few values
                for f in fs:
                    setf(w, f, r.choice(few))
            else:                                             # registers add up, or change places
                a, b, c = r.sample(range(4), 3)
                w[a] = (w[b] + w[c]) & ALL1 if r.random() < 0.5 else (w[a] + w[b]) & ALL1
                if r.random() < 0.3:
                    w[b], w[c] = w[c], w[b]
            rows.append(w)
        yield rows


def simple_iter(ctx, g):
    """Lists that end at the first invalid sub-leaf."""
    r = ctx.rng
    ops = [NEW, op_get(g), op_drain(1, 80), {"op": "next", "x": 1, "if": 1}]

    def items():
        i = 0
        chunk = []
        for w in stimuli(ctx, ITEM[g], 4):
            w2 = valid(g, w, r)
            chunk.append(w2)
            if w2 != list(w):                        # the end itself, with these bits
                i += 1
                yield iter_machine(ctx, g, chunk + [list(w)], vendor_for(ctx, g, i)), ops
                chunk = []
            if len(chunk) >= r.randint(3, 9):
                i += 1
                yield iter_machine(ctx, g, chunk + [invalid(g, r)], vendor_for(ctx, g, i)), ops
                chunk = []
        for rows in related(ctx, ITEM[g], ctx.k(300, 6000)):
            i += 1
            rows = [valid(g, w, r) for w in rows]
            yield iter_machine(ctx, g, rows + [r.choice([invalid(g, r), [0, 0, 0, 0]])], vendor_for(ctx, g, i)), ops
        for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 70]:
            for v in ("Intel", "Amd", "Hygon", "CentaurHauls"):
                subs = [valid(g, [rnd_word(r) for _ in range(4)], r) for _ in range(n)]
                yield iter_machine(ctx, g, subs + [invalid(g, r)], v), ops
        for ty in range(256):                         # every type, in first and later place
            for lead in (0, 2):
                subs = [valid(g, [rnd_word(r) for _ in range(4)], r) for _ in range(lead)]
                w = [rnd_word(r) for _ in range(4)]
                if g == "cache_parameters":
                    w[EAX] = put(w[EAX], 0, 7, ty)
                else:
                    w[ECX] = put(w[ECX], 8, 15, ty)
                i += 1
                yield iter_machine(ctx, g, subs + [w], vendor_for(ctx, g, i)), ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, g, items())


def far_cases(ctx, g, mk, pre, x):
    """Lists with more items than any counter but a 32-bit one can count; mk
    turns the first few sub-leaves into a machine whose list never ends."""
    r = ctx.rng
    for n in (16, 32, 64, 100, 128, 200, 256, 512, 1000, 1024, 4096, 32768, 65536, 131072):
        if n in (32768, 131072) and not ctx.deep:
            continue
        m = mk([[rnd_word(r) for _ in range(4)] for _ in range(5)])
        yield case(ctx, g + "-far", [m], [NEW] + pre + far_ops(x, n))


def endless(ctx, g, v):
    def mk(ws):
        m = M(v)
        for k, w in enumerate(ws):
            m.set(iter_leaf(g, v), k, valid(g, w, ctx.rng))
        if g == "deterministic_address_translation_info":
            m.reg(0x18, 0, EAX, ctx.rng.choice([140000, 0x7FFFFFFF, 0xFFFFFFFF]))
        return m
    return mk


def gen_cache_params(ctx):
    yield from simple_iter(ctx, "cache_parameters")
    for v in ("Intel", "Amd"):
        yield from far_cases(ctx, "cache_parameters", endless(ctx, "cache_parameters", v),
                             [op_get("cache_parameters")], 1)
    r = ctx.rng
    for v in ("Intel", "Amd"):
        m = iter_machine(ctx, "cache_parameters",
                         [valid("cache_parameters", [rnd_word(r) for _ in range(4)], r)
                          for _ in range(280)] + [invalid("cache_parameters", r)], v, behind=False)
        yield case(ctx, "caches-long", [m], [NEW, op_get("cache_parameters"), op_drain(1, 290)])


def gen_topology(ctx):
    yield from simple_iter(ctx, "extended_topology_info")
    yield from simple_iter(ctx, "extended_topology_info_v2")
    yield from simple_iter(ctx, "extended_cpu_topology")
    # a sub-leaf index beyond 255 is reported truncated to 8 bits only where
    # the register says so; here a long list of levels
    r = ctx.rng
    for g in ("extended_topology_info", "extended_topology_info_v2", "extended_cpu_topology"):
        n = ctx.k(280, 700)
        m = iter_machine(ctx, g, [valid(g, [rnd_word(r) for _ in range(4)], r)
                                  for _ in range(n)] + [invalid(g, r)], "Intel", behind=False)
        yield case(ctx, g + "-long", [m], [NEW, op_get(g), op_drain(1, n + 5)])
        yield from far_cases(ctx, g, endless(ctx, g, r.choice(["Intel", "Amd"])), [op_get(g)], 1)


def gen_dat(ctx):
    g = "deterministic_address_translation_info"
    r = ctx.rng
    ops = [NEW, op_get(g), op_drain(1, 80), {"op": "next", "x": 1, "if": 1}]

    def mk(count, subs, i, tail=None):
        m = M(["Intel", "Intel", "CentaurHauls", "Amd"][i % 4])
        for k, s in enumerate(subs):
            m.set(0x18, k, s)
        m.reg(0x18, 0, EAX, count)
        m.t[0x18].append(tail if tail else invalid(g, r))
        return m

    def items():
        i = 0
        chunk = []
        for w in stimuli(ctx, "DatInfo", 4):
            chunk.append(list(w))
            if len(chunk) >= r.randint(2, 7):
                i += 1
                yield mk(len(chunk) - 1 + r.choice([0, 0, 1, 2, -1 if len(chunk) > 1 else 0]),
                         chunk, i), ops
                chunk = []
        for rows in related(ctx, "DatInfo", ctx.k(300, 6000)):
            i += 1
            yield mk(len(rows) - 1, rows if i % 3 == 0 else [valid(g, w, r) for w in rows], i), ops
        # every pattern of null entries in lists of up to 6 (9) sub-leaves
        for n in range(1, ctx.k(6, 9) + 1):
            for mask in range(1 << n):
                subs = [valid(g, [rnd_word(r) for _ in range(4)], r) if mask >> k & 1
                        else invalid(g, r) for k in range(n)]
                i += 1
                yield mk(n - 1, subs, i), ops
        # valid entries behind the maximum must not be reported
        for n in range(0, 8):
            subs = [valid(g, [rnd_word(r) for _ in range(4)], r) for _ in range(n + 3)]
            i += 1
            yield mk(n, subs, i, valid(g, [rnd_word(r) for _ in range(4)], r)), ops
        # long runs of null entries, in front, in between and at the end
        for a, b, c in ((0, 60, 0), (40, 0, 30), (20, 50, 90), (100, 100, 10), (255, 1, 0), (256, 0, 0)):
            subs = [invalid(g, r) for _ in range(a)]
            subs.append(valid(g, [rnd_word(r) for _ in range(4)], r))
            subs += [invalid(g, r) for _ in range(b)]
            subs.append(valid(g, [rnd_word(r) for _ in range(4)], r))
            subs += [invalid(g, r) for _ in range(c)]
            i += 1
            yield mk(len(subs) - 1, subs, i), ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, g, items())
    # maxima up to the largest: the first few entries of an endless list
    for cnt in (0x100, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF):
        subs = [valid(g, [rnd_word(r) for _ in range(4)], r) for _ in range(3)]
        m = mk(cnt, subs, 0, valid(g, [rnd_word(r) for _ in range(4)], r))
        yield case(ctx, "dat-huge", [m], [NEW, op_get(g), op_drain(1, 12)])
    yield from far_cases(ctx, g, endless(ctx, g, "Intel"), [op_get(g)], 1)
    for n in (254, 255, 256, 257, 258, 300, 65534, 65535, 65536, 65540):
        m = endless(ctx, g, "Intel")([[rnd_word(r) for _ in range(4)] for _ in range(5)])
        m.reg(0x18, 0, EAX, n)
        yield case(ctx, "dat-end", [m], [NEW, op_get(g)] + far_ops(1, n))


def gen_cache_info(ctx):
    r = ctx.rng
    ops = [NEW, op_get("cache_info"), op_drain(1, 20), {"op": "next", "x": 1, "if": 1}]

    def mk(bs, i):
        m = M(["Intel", "Intel", "GenuineTMx86"][i % 3])
        m.set(2, 0, [int.from_bytes(bytes(bs[k:k + 4]), "little") for k in (0, 4, 8, 12)])
        m.t[2].append([r.getrandbits(32) for _ in range(4)])
        return m

    def items():
        i = 0
        for b in range(256):                    # every byte alone at every position
            pos = range(16) if ctx.deep else sorted(r.sample(range(16), 5) + [0])
            for p in pos:
                bs = [0] * 16
                bs[p] = b
                i += 1
                yield mk(bs, i), ops
        for b in range(256):                    # and surrounded by others
            for _ in range(ctx.k(3, 20)):
                bs = [r.randrange(256) for _ in range(16)]
                bs[r.randrange(16)] = b
                i += 1
                yield mk(bs, i), ops
        for b in range(256):                    # everywhere
            yield mk([b] * 16, i), ops
        for p in range(16):                     # gaps
            for q in range(p, 16):
                bs = [0x2C + (k == p) for k in range(16)]
                bs[p] = 0
                bs[q] = r.choice([0, 7, 0x19, 0xFE])
                i += 1
                yield mk(bs, i), ops
        # repetition counts other than one
        for al in range(256):
            bs = [r.choice([0, 1, 0x2C, 0xF0, 0x5A]) for _ in range(16)]
            bs[0] = al
            yield mk(bs, i), ops
        for _ in range(ctx.k(400, 20000)):
            bs = [r.randrange(256) if r.random() < .6 else 0 for _ in range(16)]
            i += 1
            yield mk(bs, i), ops
        for _ in range(ctx.k(100, 2000)):       # registers with bit 31 set
            bs = [r.choice([1, 2, 0x2C, 0xFF, 0x80, 0xF0, 0]) for _ in range(16)]
            bs[3 + 4 * r.randrange(4)] |= 0x80
            i += 1
            yield mk(bs, i), ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, "cache_info", items())


def gen_state(ctx):
    yield from view_cases(ctx, "extended_state_info")
    r = ctx.rng
    g = "extended_state_info"
    ops = [NEW, op_get(g), op_sub(1, "iter", 2), op_drain(2, 40), {"op": "next", "x": 2, "if": 2}]

    def mk(x0, xss, i, w=None):
        m = M(["Intel", "Amd", "CentaurHauls"][i % 3])
        m.set(0xD, 0, [x0, rnd_word(r), rnd_word(r), rnd_word(r)])
        m.set(0xD, 1, [rnd_word(r), rnd_word(r), xss, rnd_word(r)])
        for k in range(2, 32):
            m.set(0xD, k, [rnd_word(r) for _ in range(4)])
        if w is not None:
            for k in range(2, 32):
                m.t[0xD][k] = [w[(k + j) % len(w)] if j != 1 else w[k % len(w)] for j in range(4)]
        m.t[0xD].append([r.getrandbits(32) for _ in range(4)])
        return m

    def items():
        i = 0
        for b in range(32):                       # single components, holes
            for x0, xss in ((1 << b, 0), (0, 1 << b), (ALL1 ^ (1 << b), 0), (0, ALL1 ^ (1 << b)),
                            (1 << b, 1 << b), (ALL1 ^ (1 << b), 1 << b), (0x7, 1 << b), (1 << b, 0x1F00),
                            (1 << b, 1 << (31 - b))):
                i += 1
                yield mk(x0, xss, i), ops
        for a in range(32):
            for b in range(a, 32):
                i += 1
                yield mk((1 << a), (1 << b), i), ops
        for x0, xss in ((0, 0), (ALL1, ALL1), (ALL1, 0), (0, ALL1), (3, 0), (0, 3)):
            yield mk(x0, xss, i), ops
        for _ in range(ctx.k(120, 4000)):
            i += 1
            yield mk(rnd_word(r), rnd_word(r), i), ops
        for rows in related(ctx, "ExtendedState", ctx.k(120, 3000), (31,)):
            m = mk(r.choice((ALL1, rnd_word(r))), rnd_word(r), i)
            if r.random() < 0.5:
                m.t[0xD][0], m.t[0xD][1] = [m.t[0xD][0][0]] + rows[0][1:], rows[0][:2] + [m.t[0xD][1][2], rows[0][3]]
            m.t[0xD][2:32] = rows[:30]
            i += 1
            yield m, ops
        chunk = []
        for w in stimuli(ctx, "ExtendedState", 4):  # contents of the sub-leaves
            chunk.append(w)
            if len(chunk) == 30:
                m = mk(ALL1 if r.random() < .5 else rnd_word(r), rnd_word(r), i)
                for k in range(30):
                    m.t[0xD][2 + k] = list(chunk[k])
                i += 1
                yield m, ops
                chunk = []
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, "state-iter", items())


def gen_sgx(ctx):
    yield from view_cases(ctx, "sgx_info")
    r = ctx.rng
    ops = [NEW, op_get("sgx_info"), op_read(1), op_sub(1, "iter", 2), op_drain(2, 80),
           {"op": "next", "x": 2, "if": 2}]

    def mk(secs, i):
        m = M(["Intel", "Amd", "CentaurHauls"][i % 3])
        m.orr(7, 0, EBX, 4)
        m.set(0x12, 0, [rnd_word(r) for _ in range(4)])
        m.set(0x12, 1, [rnd_word(r) for _ in range(4)])
        for k, s in enumerate(secs):
            m.set(0x12, 2 + k, s)
        m.t[0x12].append(invalid("sgx", r))
        return m

    def items():
        i = 0
        chunk = []
        for w in stimuli(ctx, "EpcSection", 4):
            w2 = valid("sgx", w, r)
            chunk.append(w2)
            if w2 != list(w) and r.random() < .3:
                i += 1
                yield mk(chunk + [list(w)] + [valid("sgx", w, r)], i), ops
                chunk = []
            if len(chunk) >= r.randint(2, 6):
                i += 1
                yield mk(chunk, i), ops
                chunk = []
        for rows in related(ctx, "EpcSection", ctx.k(240, 6000)):
            i += 1
            yield mk([valid("sgx", w, r) for w in rows], i), ops
        for _ in range(ctx.k(120, 3000)):             # one section after another, without and with gaps
            i += 1
            at, secs = r.getrandbits(r.choice((30, 33, 40, 52))) & ~0xFFF, []
            for _ in range(r.randint(2, 5)):
                size = r.getrandbits(r.choice((16, 28, 32, 36))) & ~0xFFF
                secs.append([1 | at & 0xFFFFF000, at >> 32 & 0xFFFFF, 1 | size & 0xFFFFF000, size >> 32 & 0xFFFFF])
                at += size + (r.choice((0, 0, 0, 0x1000)))
            yield mk(secs if r.random() < 0.8 else secs[::-1], i), ops
        for n in list(range(0, 12)) + [33, 64]:
            i += 1
            yield mk([valid("sgx", [rnd_word(r) for _ in range(4)], r) for _ in range(n)], i), ops
        for ty in range(16):
            for lead in (0, 1, 3):
                secs = [valid("sgx", [rnd_word(r) for _ in range(4)], r) for _ in range(lead)]
                w = [rnd_word(r) for _ in range(4)]
                w[EAX] = put(w[EAX], 0, 3, ty)
                i += 1
                yield mk(secs + [w, valid("sgx", w, r)], i), ops
    yield from batches(ctx, "sgx", items())

    def far(ws):
        m = mk([], 0)
        m.t[0x12][2:] = [valid("sgx", w, r) for w in ws]
        return m
    pre = [op_get("sgx_info"), op_sub(1, "iter", 2)]
    yield from far_cases(ctx, "sgx", far, pre, 2)
    m = mk([valid("sgx", [rnd_word(r) for _ in range(4)], r) for _ in range(280)], 0)
    yield case(ctx, "sgx-long", [m], [NEW] + pre + [op_drain(2, 290)])


def gen_soc(ctx):
    yield from view_cases(ctx, "soc_vendor_info")
    yield from sub_cases(ctx, "soc_vendor_info", "get_vendor_brand")
    r = ctx.rng
    ops = [NEW, op_get("soc_vendor_info"), op_read(1), op_sub(1, "get_vendor_brand", 3), op_read(3),
           op_sub(1, "get_vendor_attributes", 2), op_drain(2, 80),
           {"op": "next", "x": 2, "if": 2}]

    def items():
        i = 0
        for n in list(range(0, 40)) + [63, 64, 70]:
            for _ in range(ctx.k(3, 20)):
                m = M(ROTATION[i % len(ROTATION)])
                m.set(0x17, 0, [n, rnd_word(r), rnd_word(r), rnd_word(r)])
                for k in range(1, r.choice([n, n + 1, n + 2, 5, 1]) + 1):
                    m.set(0x17, k, [rnd_word(r) for _ in range(4)])
                if r.random() < .3:
                    m.t[0x17].append([0, 0, 0, 0])
                else:
                    m.t[0x17].append([r.getrandbits(32) for _ in range(4)])
                i += 1
                yield m, ops
        for rows in related(ctx, "CpuIdRaw", ctx.k(120, 2000)):
            m = M(ROTATION[i % len(ROTATION)])
            m.set(0x17, 0, [3 + len(rows)] + [rnd_word(r) for _ in range(3)])
            for k, w in enumerate(([[rnd_word(r) for _ in range(4)] for _ in range(3)] if i % 2 else rows[:1] * 3) + rows):
                m.set(0x17, 1 + k, w)
            i += 1
            yield m, ops
        for w in stimuli(ctx, "CpuIdRaw", 4):
            if r.random() < .25 or ctx.deep:
                m = M(ROTATION[i % len(ROTATION)])
                m.set(0x17, 0, [r.randint(4, 7)] + [rnd_word(r) for _ in range(3)])
                for k in range(1, 8):
                    m.set(0x17, k, list(w) if k >= 4 else [rnd_word(r) for _ in range(4)])
                i += 1
                yield m, ops
    yield from batches(ctx, "soc-attr", items())
    for n in (0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
        m = M("Intel")
        m.set(0x17, 0, [n, 1, 2, 3])
        for k in range(1, 6):
            m.set(0x17, k, [rnd_word(r) for _ in range(4)])
        yield case(ctx, "soc-huge", [m], [NEW, op_get("soc_vendor_info"),
                                          op_sub(1, "get_vendor_attributes", 2), op_drain(2, 10)])
    pre = [op_get("soc_vendor_info"), op_sub(1, "get_vendor_attributes", 2)]

    def far(n):
        def mk(ws):
            m = M("Intel")
            m.set(0x17, 0, [n, 1, 2, 3])
            for k, w in enumerate(ws):
                m.set(0x17, k + 1, w)
            return m
        return mk
    for n in (140000, 0xFFFFFFFF):
        yield from far_cases(ctx, "soc", far(n), pre, 2)
    for n in (254, 255, 256, 257, 258, 300, 65535, 65536, 65539, 65540):
        m = far(n)([[rnd_word(r) for _ in range(4)] for _ in range(5)])
        yield case(ctx, "soc-end", [m], [NEW] + pre + far_ops(2, n - 3))


def gen_rdt(ctx):
    yield from view_cases(ctx, "rdt_monitoring_info")
    yield from view_cases(ctx, "rdt_allocation_info")
    yield from sub_cases(ctx, "rdt_monitoring_info", "l3_monitoring")
    for q in ("l3_cat", "l2_cat", "memory_bandwidth_allocation"):
        yield from sub_cases(ctx, "rdt_allocation_info", q)


PQ = ["get_l3_memory_bandwidth_enforcement_info", "get_l3_slow_memory_bandwidth_enforcement_info",
      "get_bandwidth_monitoring_event_counters_info",
      "get_assignable_bandwidth_monitoring_counters_info"]


def gen_pqos(ctx):
    yield from view_cases(ctx, "pqos_extended_feature_info")
    for q in PQ:
        yield from sub_cases(ctx, "pqos_extended_feature_info", q)
    for g in ("extended_feature_identification_2", "extended_performance_monitoring_and_debug",
              "multi_key_encrypted_memory_capabilities"):
        yield from view_cases(ctx, g)


# -------------------------------------------------------------------- leaf 1

FAMILY = ("extended_family_id", "extended_model_id", "base_family_id", "base_model_id",
          "family_id", "model_id", "stepping_id")


def fs_of(ctx, t, keep):
    return [i + 1 for i, f in enumerate(ctx.t["fields"][t]) if keep(f["n"])]


def gen_feature_info(ctx):
    fs = fs_of(ctx, "FeatureInfo", lambda n: n not in FAMILY)
    yield from view_cases(ctx, "feature_info", fs=fs)


def gen_family(ctx):
    r = ctx.rng
    fs = fs_of(ctx, "FeatureInfo", lambda n: n in FAMILY)
    ops = [NEW, op_get("feature_info"), op_read(1, fs)]
    vendors = ["Intel", "Amd", "Hygon", "CentaurHauls", "GenuineIotel", ""]

    def mk(v, bf, xf, bm, xm, st=None):
        m = M(v)
        w = r.choice([0, ALL1, r.getrandbits(32)])
        for lo, hi, x in ((20, 27, xf), (16, 19, xm), (8, 11, bf), (4, 7, bm),
                          (0, 3, r.randrange(16) if st is None else st)):
            w = put(w, lo, hi, x)
        m.set(1, 0, [w] + [r.getrandbits(32) for _ in range(3)])
        m.t[1].append([r.getrandbits(32) for _ in range(4)])
        return m

    def items():
        xfs = list(range(256)) if ctx.deep else sorted(
            {0, 1, 2, 6, 7, 8, 9, 10, 11, 14, 15, 16, 17, 31, 32, 63, 64, 127, 128, 225, 239, 240,
             241, 242, 250, 254, 255} | set(r.sample(range(256), 10)))
        for v in vendors:
            for bf in range(16):
                for xf in xfs:
                    yield mk(v, bf, xf, r.randrange(16), r.randrange(16)), ops
        for v in vendors[:4]:
            for bf in range(16):
                for xm in range(16) if ctx.deep else (0, 1, 2, 3, 7, 8, 9, 10, 14, 15):
                    for bm in range(16) if ctx.deep else (0, 1, 6, 7, 8, 13, 14, 15):
                        yield mk(v, bf, r.choice([0, 0, r.randrange(256)]), bm, xm), ops
        for st in range(16):
            yield mk("Intel", 6, 0, 10, 9, st), ops
        for f in ctx.fresh:
            for _ in range(60):
                x = [f & 0xF, f & 0xFF, f & 0xF, f & 0xF]
                for k in range(4):
                    if r.random() < .5:
                        x[k] = r.randrange(256 if k == 1 else 16)
                yield mk(r.choice(vendors), x[0], x[1], x[2], x[3]), ops
        for _ in range(ctx.k(300, 20000)):
            yield mk(r.choice(vendors), r.randrange(16), r.randrange(256), r.randrange(16),
                     r.randrange(16)), ops
        # signatures of CPUs in the field
        for v, sig in SIGNATURES:
            m = M(v)
            m.set(1, 0, [sig, 0, 0, 0])
            yield m, ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, "family", items())


SIGNATURES = [("Intel", x) for x in (
    0x543, 0x619, 0x633, 0x6B1, 0x6D8, 0x6EC, 0x6F6, 0x6FB, 0x10676, 0x1067A, 0x106A5, 0x106C2, 0x106E5,
    0x20652, 0x206A7, 0x206C2, 0x206D7, 0x206F2, 0x30673, 0x306A9, 0x306C3, 0x306D4, 0x306E4, 0x306F2,
    0x40651, 0x40661, 0x406C3, 0x406E3, 0x406F1, 0x50654, 0x50657, 0x5065B, 0x50663, 0x506C9, 0x506E3,
    0x506F1, 0x606A6, 0x606C1, 0x706A1, 0x706E5, 0x806C1, 0x806E9, 0x806EA, 0x806F8, 0x90672, 0x906A3,
    0x906E9, 0x906ED, 0xA0652, 0xA0671, 0xB0671, 0xC06F2, 0xF12, 0xF29, 0xF33, 0xF47, 0xF64, 0x1FF2,
    0x80650, 0x80676, 0xA06D1, 0xA06F3, 0x400F0)] + [("Amd", x) for x in (
        0x4F4, 0x58C, 0x623, 0x681, 0x6A0, 0xF48, 0xF5A, 0x20F12, 0x20F32, 0x40F12, 0x60FB1, 0x100F22,
        0x100F42, 0x100F91, 0x100FA0, 0x200F31, 0x300F10, 0x500F10, 0x500F20, 0x600F12, 0x600F20, 0x610F01,
        0x630F01, 0x660F01, 0x670F00, 0x700F01, 0x730F01, 0x800F11, 0x800F82, 0x810F10, 0x820F01, 0x830F10,
        0x860F01, 0x870F10, 0xA00F11, 0xA10F11, 0xA20F10, 0xA20F12, 0xA40F41, 0xA50F00, 0xA60F12, 0xA70F41,
        0xAA0F01, 0xB00F21, 0xB20F40, 0xB40F40)] + [("Hygon", 0x900F01), ("Hygon", 0x900F22)]


# ----------------------------------------------------------------------- TSC

def gen_tsc(ctx):
    r = ctx.rng
    yield from view_cases(ctx, "processor_frequency_info")
    yield from view_cases(ctx, "tsc_info")
    ops = [NEW, op_get("tsc_info"), op_read(1)]
    edge = [0, 1, 2, 3, 0xFFFF, 0x10000, 0x10001, 0x7FFFFFFF, 0x80000000, 0x80000001,
            0xFFFFFFFE, 0xFFFFFFFF, 24000000, 38400000, 25000000, 19200000, 100000000]

    def items():
        def mk(a, b, c):
            m = M(ROTATION[r.randrange(6)])
            m.set(0x15, 0, [a, b, c, r.getrandbits(32)])
            m.t[0x15].append([r.getrandbits(32) for _ in range(4)])
            return m
        es = edge if ctx.deep else edge[:12]
        for a in es:
            for b in es:
                for c in es:
                    if ctx.deep or a in (0, 1, 2, ALL1) or r.random() < .5:
                        yield mk(a, b, c), ops
        for _ in range(ctx.k(500, 40000)):
            yield mk(r.getrandbits(r.randint(1, 32)), r.getrandbits(r.randint(1, 32)),
                     r.getrandbits(r.randint(1, 32))), ops
        for c in (24000000, 25000000, 38400000, 19200000, 100000000, 24, 38):
            for _ in range(40):
                yield mk(r.randint(1, 4), r.randint(1, 400), c), ops
    yield from batches(ctx, "tsc", items())


# ---------------------------------------------------------------- hypervisor

HV = [b"XenVMMXenVMM", b"VMwareVMware", b"Microsoft Hv", b"KVMKVMKVM\0\0\0", b"TCGTCGTCGTCG",
      b"bhyve bhyve ", b"BHyVE BHyVE ", b"QNXQVMBSQG\0\0", b"ACRNACRNACRN", b"prl hyperv  ",
      b" lrpepyh vr ", b"VBoxVBoxVBox", b"OpenBSDVMM58", b"EVMMEVMMEVMM", b"Jailhouse\0\0\0",
      b"GenuineIntel", b"AuthenticAMD", b"Linux KVM Hv", b"KVMKVMKVMKVM", b"kvmkvmkvm\0\0\0",
      b"\0" * 12, b"\xff" * 12]


def gen_hypervisor(ctx):
    r = ctx.rng
    g = "hypervisor_info"
    ops = [NEW, op_get(g), op_read(1)]

    def mk(sig, mx, timing, i, bit=True):
        m = M(ROTATION[i % len(ROTATION)])
        w = [int.from_bytes(sig[k:k + 4], "little") for k in (0, 4, 8)]
        m.set(0x40000000, 0, [mx] + w)
        m.set(1, 0, [r.getrandbits(32), r.getrandbits(32), put(rnd_word(r), 31, 31, bit),
                     r.getrandbits(32)])
        m.set(0x40000010, 0, timing)
        for k in (1, 2, 3, 5, 0xF, 0x11):
            m.set(0x40000000 + k, 0, [r.getrandbits(32) for _ in range(4)])
        m.t[0x40000000].append([r.getrandbits(32) for _ in range(4)])
        m.t[0x40000010].append([r.getrandbits(32) for _ in range(4)])
        return m

    maxes = [1, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x4000000A, 0x4000000F, 0x40000010, 0x40000011,
             0x40000082, 0x400000FF, 0x4000FFFF, 0x80000000, 0xFFFFFFFF, 0]

    def items():
        i = 0
        for s in HV:
            for mx in maxes:
                i += 1
                yield mk(s, mx, [rnd_word(r) for _ in range(4)], i), ops
        for s in HV[:9]:                                 # near misses
            for p in range(12):
                for b in (range(8) if ctx.deep else r.sample(range(8), 2)):
                    t = bytearray(s)
                    t[p] ^= 1 << b
                    i += 1
                    yield mk(bytes(t), r.choice(maxes[:-1]), [rnd_word(r) for _ in range(4)], i), ops
            for perm in ((0, 2, 1), (1, 0, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1)):
                t = b"".join(s[4 * k:4 * k + 4] for k in perm)
                i += 1
                yield mk(t, r.choice(maxes[:-1]), [rnd_word(r) for _ in range(4)], i), ops
        for a in range(9):                                # mixtures of two signatures
            for b in range(9):
                if a != b:
                    for cut in (4, 8):
                        i += 1
                        yield mk(HV[a][:cut] + HV[b][cut:], 0x40000010, [1, 2, 3, 4], i), ops
        for x in ctx.fresh:
            t = (x.to_bytes(4, "little")) * 3
            for s in HV[:9]:
                for p in (0, 4, 8):
                    i += 1
                    yield mk(s[:p] + t[:4] + s[p + 4:], 0x40000010, [1, 2, 3, 4], i), ops
        for _ in range(ctx.k(300, 10000)):
            i += 1
            yield mk(bytes(r.getrandbits(8) for _ in range(12)),
                     r.choice(maxes + [r.getrandbits(32), 0x40000000 + r.getrandbits(6)]),
                     [rnd_word(r) for _ in range(4)], i, r.random() < .8), ops
        for w in stimuli(ctx, "HypervisorInfo", 4, extra_regs=(0, 1)):  # timing words
            i += 1
            yield mk(r.choice(HV), r.choice(maxes[6:13]), list(w), i), ops
    yield from batches(ctx, g, items())
    # the frequencies are read when they are asked for
    ms = [mk(HV[0], 0x40000010, [k * 1000 + 1, k * 1000 + 2, 3, 4], 0) for k in range(4)]
    yield case(ctx, "hv-mig", ms, [NEW, op_get(g), op_read(1)] +
               [o for k in range(2, 5) for o in ({"op": "mig", "i": k}, op_read(1))])


# -------------------------------------------------------------------- strings

def texts(ctx, nbytes):
    r = ctx.rng
    spaces = [b" ", b"\t", b"\n", b"\x0b", b"\x0c", b"\r", "\u0085".encode(), "\u00a0".encode(),
              "\u1680".encode(), "\u2000".encode(), "\u2003".encode(), "\u200a".encode(),
              "\u2028".encode(), "\u202f".encode(), "\u205f".encode(), "\u3000".encode(),
              "\u200b".encode(), "\u180e".encode(), "\ufeff".encode()]
    good = [b"Intel(R) Core(TM) i7-12700K", b"AMD Ryzen 9 3950X 16-Core Processor", b"A", b"",
            "Prozessör".encode(), "中央处理器".encode(), "\U0001f600 cpu".encode()]
    bad = [b"\xff", b"\x80", b"\xc0\xaf", b"\xc1\xbf", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80",
           b"\xf8\x88\x80\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98"]
    good += [b"\x7f", b"\xc2\x80", b"\xdf\xbf", b"\xe0\xa0\x80", b"\xed\x9f\xbf", b"\xee\x80\x80",
             b"\xef\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf"]

    def fit(b, fill=b"\0"):
        return (b + fill * nbytes)[:nbytes]
    for s in good + bad:
        for fill in (b"\0", b" ", b"x"):
            yield fit(s, fill)
        for p in range(0, nbytes, max(1, nbytes // 8)):
            yield fit(b"y" * p + s, b"z")
            yield fit(b"y" * p + s, b"\0")
            yield fit(b"y" * p + b"\0" + s, b"z")
        yield (b"q" * nbytes + s)[-nbytes:]
        if s:
            yield (b"q" * (nbytes - 1) + s)[:nbytes]
    for s in spaces:
        yield fit(s * 3 + b"CPU" + s * 2)
        yield fit(s + b"CPU", s)
        yield fit(b"C" + s + b"PU" + s)
        yield fit(s, s)
        yield (b" " * nbytes + b"CPU" + s)[-nbytes:]
    for b in range(256):
        for p in sorted(r.sample(range(nbytes), min(nbytes, ctx.k(2, 8)))):
            t = bytearray(b"Brand string of a processor, all 48 bytes used!!"[:nbytes].ljust(nbytes, b"."))
            t[p] = b
            yield bytes(t)
        yield bytes([b]) * nbytes
    for p in range(nbytes):                       # NUL at every position
        t = bytearray(r.choice(b"abcdefXYZ 019") for _ in range(nbytes))
        t[p] = 0
        yield bytes(t)
        t = bytearray(b" " * p + b"x" * (nbytes - p))
        yield bytes(t)
        yield bytes(t[::-1])
    for _ in range(ctx.k(150, 8000)):
        k = r.random()
        if k < .4:
            yield bytes(r.randrange(32, 127) for _ in range(nbytes))
        elif k < .6:
            yield bytes(r.randrange(256) for _ in range(nbytes))
        else:
            s = b"".join(r.choice(good + spaces + bad[:1]) for _ in range(6))
            yield fit(s, r.choice([b"\0", b" ", b"w"]))


def words_of(b):
    return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]


def gen_strings(ctx):
    r = ctx.rng

    def vendor():
        ops = [NEW, op_get("vendor_info"), op_read(1)]
        strs = [v.encode("latin1").ljust(12, b"\0")[:12] for v in list(VENDORS.values()) + OTHERS]
        for s in strs + list(texts(ctx, 12)):
            m = M(s.decode("latin1"))
            m.t[0].append([r.getrandbits(32) for _ in range(4)])
            yield m, ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, "vendor", vendor())

    def brand():
        ops = [NEW, op_get("processor_brand_string"), op_read(1)]
        for i, s in enumerate(texts(ctx, 48)):
            m = M(ROTATION[i % len(ROTATION)])
            w = words_of(s)
            for k in range(3):
                m.set(0x80000002 + k, 0, w[4 * k:4 * k + 4])
                m.t[0x80000002 + k].append([r.getrandbits(32) for _ in range(4)])
            m.set(0x80000005, 0, words_of(b"not the brand!!!"))
            yield m, ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, "brand", brand())

    def soc():
        ops = [NEW, op_get("soc_vendor_info"), op_sub(1, "get_vendor_brand", 2), op_read(2)]
        for i, s in enumerate(texts(ctx, 48)):
            m = M(ROTATION[i % len(ROTATION)])
            m.set(0x17, 0, [r.choice([3, 3, 4, 9]), 1, 2, 3])
            w = words_of(s)
            for k in range(3):
                m.set(0x17, 1 + k, w[4 * k:4 * k + 4])
            m.set(0x17, 4, words_of(b"not the brand!!!"))
            yield m, ops
    yield from batches(ctx, "soc-brand", soc())


# --------------------------------------------------------------------- gating

BASIC = list(range(0, 0x22)) + [0x23, 0x29, 0x80, 0xFF, 0x100, 0x3FFFFFFF, 0x40000000, 0x7FFFFFFF,
                                0x80000000, 0x80000008, 0xFFFFFFFF]
EXT = [0x80000000 + k for k in range(0, 0x29)] + [0, 1, 0x20, 0x7FFFFFFF, 0x800000FF, 0x8000FFFF,
                                                  0xC0000000, 0xFFFFFFFF, 0x40000010]


def full_machine(ctx, vendor, maxb, maxe, conds=True):
    """Every leaf holds something, every list ends; all conditions hold."""
    r = ctx.rng
    m = M(vendor, maxb, maxe)
    for name in ctx.t["leaves"]:
        leaf = LEAF_OF(name)
        if leaf in (0, 0x80000000):
            continue
        m.set(leaf, 0, [r.getrandbits(32) for _ in range(4)])
    for leaf in (8, 0xC, 0xE, 0x11, 0x13, 0x1A, 0x1B, 0x1C, 0x1D, 0x1E, 0x20):
        m.set(leaf, 0, [r.getrandbits(32) for _ in range(4)])
    for g in ("cache_parameters", "extended_topology_info", "extended_topology_info_v2",
              "extended_cpu_topology"):
        for v in ("Intel", "Amd"):
            leaf = iter_leaf(g, v)
            m.t[leaf] = [valid(g, [r.getrandbits(32) for _ in range(4)], r) for _ in range(r.randint(1, 3))]
            m.t[leaf].append(invalid(g, r))
    g = "deterministic_address_translation_info"
    n = r.randint(0, 5)
    m.t[0x18] = [[r.getrandbits(32) for _ in range(4)] for _ in range(n + 2)]
    m.t[0x18][0][0] = n
    m.t[0x17] = [[r.getrandbits(32) for _ in range(4)] for _ in range(8)]
    m.t[0x17][0][0] = r.choice([0, 2, 3, 3, 4, 5, 7, 8])
    m.t[0x12] = [[r.getrandbits(32) for _ in range(4)] for _ in range(2)]
    for _ in range(r.randint(0, 3)):
        m.t[0x12].append(valid("sgx", [r.getrandbits(32) for _ in range(4)], r))
    m.t[0x12].append(invalid("sgx", r))
    for leaf in (7, 0xD, 0xF, 0x10, 0x14, 0x80000020):
        while len(m.t[leaf]) < 6:
            m.t[leaf].append([r.getrandbits(32) for _ in range(4)])
    if r.random() < 0.6:
        m.reg(1, 0, EAX, some_cpu(ctx, m))
    # fields that a known finding is about stay clear of it
    m.t[0x8000001E][0][1] &= ~0x8000
    m.t[0x80000019] = [[x & 0xF0FFF0FF for x in m.t[0x80000019][0]]]
    m.t[2][0] = [int.from_bytes(bytes(0 if b == 0xC3 else b for b in x.to_bytes(4, "little")), "little")
                 for x in m.t[2][0]]
    m.set(0x40000000, 0, [r.choice([0x40000000, 0x40000001, 0x40000010, 0x40000010, 0x400000FF])]
          + words_of(r.choice(HV)))
    if conds:
        for g in ("sgx_info", "hypervisor_info", "svm_info"):
            prepare(m, g)
    return m


Ctx.full = staticmethod(full_machine)
Ctx.hvs = [words_of(h) for h in HV]


def gen_gating(ctx):
    r = ctx.rng
    gs = all_getters(ctx)
    ops = [NEW] + [op_get(g) for g in gs]
    vendors = ["Intel", "Amd", "Hygon", "CentaurHauls"] + (OTHERS[4:8] if ctx.deep else [])

    def items():
        for v in vendors:
            for mb in BASIC:
                for me in (EXT if ctx.deep else [0x80000028, r.choice(EXT)]):
                    yield full_machine(ctx, v, mb, me), ops
            for me in EXT:
                for mb in [0x20] + ([] if ctx.deep else [r.choice(BASIC)]):
                    yield full_machine(ctx, v, mb, me), ops
        # the announcing bits
        for v in vendors:
            for k in range(ctx.k(24, 200)):
                m = full_machine(ctx, v, 0x20, 0x80000028)
                if k & 1:
                    m.t[7][0][1] &= ~4 & ALL1
                if k & 2:
                    m.t[1][0][2] &= 0x7FFFFFFF
                if k & 4:
                    m.t[0x40000000][0][0] = 0
                if k & 8:
                    m.t[0x80000001][0][2] &= ~4 & ALL1
                yield m, ops
            for reg in range(4):                        # exactly one bit of the announcing leaves
                for b in range(32):
                    for base in (0, ALL1):
                        m = full_machine(ctx, v, 0x20, 0x80000028)
                        for leaf in (1, 7, 0x80000001):
                            w = [base] * 4
                            w[reg] ^= 1 << b
                            m.t[leaf] = [w] + m.t[leaf][1:]
                        yield m, [NEW] + [op_get(g) for g in ("sgx_info", "hypervisor_info", "svm_info")]
            for hv in (0, 1, 2, 0xFF, 0x100, 0x10000, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x80000000, ALL1):
                m = full_machine(ctx, v, 0x20, 0x80000028)
                m.t[0x40000000][0][0] = hv
                yield m, [NEW, op_get("hypervisor_info")]
        # whatever model it is
        for cpus, vs in ((INTEL_CPUS, ["Intel", "Intel", "CentaurHauls"]), (AMD_CPUS, ["Amd", "Amd", "Hygon"])):
            for k, (fam, model) in enumerate(cpus):
                m = full_machine(ctx, vs[k % 3], 0x20, 0x80000028)
                m.reg(1, 0, EAX, signature(fam, model, r.choice([0, 1, 2, r.randrange(16)])))
                yield m, ops
        # zero contents are contents too
        for v in vendors:
            m = M(v)
            yield m, ops
            m = full_machine(ctx, v, 0x20, 0x80000028)
            for leaf in m.t:
                if leaf not in (0, 0x80000000):
                    m.t[leaf] = [[0] * 4]
            yield m, ops
        for _ in range(ctx.k(150, 4000)):
            yield full_machine(ctx, r.choice(vendors + OTHERS), r.choice(BASIC), r.choice(EXT),
                               r.random() < .5), ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, "gate", items())


# --------------------------------------------- everything an object can be asked

def tour(ctx, debug=False):
    """All queries, reads, sub-queries and enumerations of one object."""
    ops = [NEW]
    x = 0
    for g in all_getters(ctx):
        x += 1
        ops.append(op_get(g, x))
        if g in ctx.t["views"]:
            t = ctx.t["views"][g]["t"]
            ops.append(op_read(x))
            if debug:
                ops.append({"op": "dbg", "x": x, "if": x})
            parent = x
            for q in sorted(ctx.t["queries"].get(t, {})):
                x += 1
                ops.append(op_sub(parent, q, x))
                if ctx.t["queries"][t][q]["t"] == "iter":
                    if debug:
                        ops.append({"op": "dbg", "x": x, "if": x})
                    ops.append(op_drain(x, 80))
                else:
                    ops.append(op_read(x))
                    if debug:
                        ops.append({"op": "dbg", "x": x, "if": x})
        else:
            if debug:
                ops.append({"op": "dbg", "x": x, "if": x})
            ops.append(op_drain(x, 80))
    if debug:
        ops.append({"op": "dbgid", "h": 1})
    return ops


NATIVES = ["native", "default", "native-reader"]


def gen_reads(ctx):
    r = ctx.rng
    full = tour(ctx, True)
    vendors = ["Intel", "Amd", "Hygon", "CentaurHauls"]
    for v in vendors:
        mbs = BASIC if ctx.deep else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xF, 0x10, 0x12,
                                      0x14, 0x15, 0x17, 0x18, 0x1F, 0x20, 0x80000000, ALL1]
        for mb in mbs:
            yield case(ctx, "reads", [full_machine(ctx, v, mb, r.choice(EXT))], full)
        for me in EXT:
            if ctx.deep or me & 3 == 0 or r.random() < .5:
                yield case(ctx, "reads", [full_machine(ctx, v, r.choice(BASIC), me)], full)
    for _ in range(ctx.k(60, 2500)):
        m = full_machine(ctx, r.choice(vendors), r.choice(BASIC), r.choice(EXT), r.random() < .5)
        for leaf in (0xF, 0x10, 0x80000020, 0x14, 7, 0xD, 0x12, 1):
            for s in m.t[leaf][:1]:
                for k in range(4):
                    if r.random() < .5:
                        s[k] = rnd_word(r)
        if r.random() < .5:
            m.t[0x40000000][0][0] = r.choice([0, 1, 0x3FFFFFFF, 0x40000000, 0x40000009, 0x4000000F,
                                              0x40000010, ALL1])
        yield case(ctx, "reads", [m], full)
    for name, table in corpus():
        yield case(ctx, "reads", [real_machine(table)], full)
    # what is executed without a reader
    if ctx.sim:
        for via in NATIVES + [None]:
            for i in range(ctx.k(12, 200)):
                m = full_machine(ctx, vendors[i % 4], r.choice(BASIC), r.choice(EXT), r.random() < .5)
                ops = [dict(o, via=via) if via and o["op"] == "new" else o for o in full]
                yield dict(case(ctx, "executed", [m], ops), sim=1)


def gen_total(ctx):
    r = ctx.rng
    full = tour(ctx, True)
    for g in sorted(ctx.t["views"]):
        t = ctx.t["views"][g]["t"]
        n = 4 * len(ctx.t["views"][g]["slots"])
        ops = [NEW, op_get(g), op_read(1), {"op": "dbg", "x": 1, "if": 1}]
        for q in sorted(ctx.t["queries"].get(t, {})):
            if ctx.t["queries"][t][q]["t"] != "iter":
                ops += [op_sub(1, q, 2), op_read(2), {"op": "dbg", "x": 2, "if": 2}]
        words = list(stimuli(ctx, t, n, light=True))
        if not ctx.deep and len(words) > 420:
            words = words[:2] + r.sample(words[2:], 418)

        def items(words=words, g=g, ops=ops):
            for i, w in enumerate(words):
                m = view_machine(ctx, g, w, vendor_for(ctx, g, i))
                # lists of sub-leaves behind the view must end
                for leaf, k in ((0x12, "sgx"),):
                    if leaf in m.t:
                        m.t[leaf].append(invalid(k, r))
                if g == "soc_vendor_info" and m.t[0x17][0][0] > 400:
                    m.t[0x17][0][0] %= 400
                yield m, ops
        yield from batches(ctx, "total-" + g, items())
    for _ in range(ctx.k(150, 6000)):
        m = full_machine(ctx, r.choice(["Intel", "Amd", "Hygon"] + OTHERS),
                         r.choice(BASIC[20:]), r.choice(EXT[20:]), r.random() < .7)
        fill = r.choice([None, 0, ALL1, "rnd", "rnd"])
        for leaf in m.t:
            if leaf in (0, 0x80000000, 0x12, 0x18, 0x17, 4, 0x8000001D, 0xB, 0x1F, 0x80000026, 0x40000000):
                continue
            if fill is not None and r.random() < .7:
                m.t[leaf] = [[rnd_word(r) if fill == "rnd" else fill for _ in range(4)] for _ in m.t[leaf]]
        if r.random() < .3:
            m.orr(7, 0, EBX, 4)
        yield case(ctx, "total", [m], full)
    for name, table in corpus():
        yield case(ctx, "total", [real_machine(table)], full)
    # iterators over extreme items
    for g in ITEM:
        dat = g == "deterministic_address_translation_info"
        ops = [NEW, op_get(g), {"op": "dbg", "x": 1, "if": 1}, op_drain(1, 400)]
        words = list(stimuli(ctx, ITEM[g], 4, light=True))
        if not ctx.deep and len(words) > 300:
            words = words[:2] + r.sample(words[2:], 298)

        def items(g=g, words=words, ops=ops, dat=dat):
            for i in range(0, len(words), 8):
                subs = [valid(g, w, r) for w in words[i:i + 8]]
                if dat:
                    subs[0][0] = r.choice([len(subs) - 1, len(subs) + 2, 300])
                yield iter_machine(ctx, g, subs + [invalid(g, r)], vendor_for(ctx, g, i // 8)), ops
        yield from batches(ctx, "total-" + g, items())
    # the end of the sub-leaf range
    g = "deterministic_address_translation_info"
    for cnt in (0xFFFFFFFF, 0xFFFFFFFE):
        m = M("Intel")
        m.set(0x18, 0, valid(g, [cnt, 1, 2, 3], r))
        m.reg(0x18, 0, EAX, cnt)
        yield case(ctx, "total-dat", [m], [NEW, op_get(g), op_drain(1, 20)])
    yield from cut(ctx, gen_cache_info(ctx), 40)
    yield from cut(ctx, gen_strings(ctx), 60)
    yield from cut(ctx, gen_family(ctx), 60)
    yield from cut(ctx, gen_tsc(ctx), 60)
    yield from cut(ctx, gen_hypervisor(ctx), 40)


def gen_torn(ctx):
    """Calls during which the CPU changes: after some of their reads another one answers."""
    r = ctx.rng
    full = tour(ctx, True)
    vs = ["Intel", "Amd", "Hygon", "CentaurHauls"]

    def torn(ops, n):
        for o in ops:
            if o["op"] == "drain":
                for _ in range(12):
                    yield from torn([{"op": "next", "x": o["x"], "if": o["x"]}], n)
            elif r.random() < .5 and o["op"] in ("get", "sub", "next", "read", "dbg", "dbgid", "show", "new", "peek"):
                yield dict(o, flip=[r.choice([0, 1, 1, 1, 2, 3, r.randrange(40)]), r.randint(1, n)])
            else:
                yield o
    for i in range(ctx.k(120, 3000)):
        ms = [full_machine(ctx, r.choice(vs), r.choice([0x20, r.choice(BASIC)]), r.choice([0x80000028, r.choice(EXT)]),
                           r.random() < .8) for _ in range(r.randint(2, 3))]
        for m in ms:
            for leaf in m.t:
                if leaf not in (0, 0x80000000, 4, 0xB, 0x12, 0x17, 0x18, 0x1F, 0x8000001D, 0x80000026) and r.random() < .1:
                    m.t[leaf] = [[r.choice([0, ALL1, rnd_word(r)]) for _ in range(4)] for _ in m.t[leaf]]
            if 0x8000001E in m.t:
                m.t[0x8000001E][0][1] &= ~0x8000         # a known finding is about 256 threads
        ops = full if i % 2 else history(ctx, nm=len(ms), nh=2, length=80, on=ms)[1]
        yield dict(case(ctx, "torn", ms, list(torn(ops, len(ms)))), blind=1)


def cut(ctx, gen, n):
    cs = list(gen)
    if ctx.deep or len(cs) <= n:
        return cs
    return ctx.rng.sample(cs, n)


# ------------------------------------------------------------------ histories

def history(ctx, nm=3, nh=3, length=60, only_iters=False, migrate=True, on=None):
    """A random program over several machines (or these), objects, views and iterators."""
    r = ctx.rng
    vendors = ["Intel", "Amd", "Hygon", "CentaurHauls", "GenuineIotel"]
    if only_iters:
        lim = lambda: (0x20, 0x80000028)
    else:
        lim = lambda: (r.choice([0x20, 0x20, r.choice(BASIC)]), r.choice([0x80000028, 0x80000028, r.choice(EXT)]))
    ms = on or []
    for _ in range(0 if on else nm):
        mb, me = lim()
        ms.append(full_machine(ctx, r.choice(vendors), mb, me, r.random() < .9))
    ops = [NEW]
    hs = [1]
    vs = {}           # handle -> ("view", t) or ("iter", clonable)
    nx = 0
    gs = all_getters(ctx)
    its = sorted(ctx.t["iters"])
    for _ in range(length):
        k = r.random()
        if k < .06 and not only_iters or k < .03:
            h = r.randint(1, nh)
            ops.append({"op": "new", "h": h})
            if h not in hs:
                hs.append(h)
        elif k < .12 and not only_iters or k < .06:
            h = r.choice(hs)
            h2 = r.randint(1, nh)
            ops.append({"op": "clone", "h": h, "h2": h2})
            if h2 not in hs:
                hs.append(h2)
        elif migrate and k < .24:
            ops.append({"op": "mig", "i": r.randint(1, nm)})
        elif k < .45 or not vs:
            g = r.choice(its) if only_iters and r.random() < .7 else r.choice(gs)
            if only_iters and g in ctx.t["views"] and r.random() < .6:
                g = r.choice(["sgx_info", "extended_state_info", "soc_vendor_info"])
            x = r.randint(1, 8) if r.random() < .7 else nx % 8 + 1
            nx += 1
            ops.append(op_get(g, x, r.choice(hs)))
            vs[x] = ("view", ctx.t["views"][g]["t"]) if g in ctx.t["views"] else ("iter", True)
        else:
            x = r.choice(sorted(vs))
            kind, what = vs[x]
            if kind == "view":
                qs = sorted(ctx.t["queries"].get(what, {}))
                if qs and r.random() < .6:
                    q = r.choice(qs)
                    y = r.randint(1, 8)
                    qt = ctx.t["queries"][what][q]["t"]
                    if y != x:
                        ops.append(op_sub(x, q, y))
                        vs[y] = ("iter", q != "get_vendor_attributes") if qt == "iter" else ("view", qt)
                        continue
                ops.append(op_read(x))
            else:
                z = r.random()
                if z < .2 and r.random() < .5:
                    y = r.randint(1, 8)
                    if y != x:
                        ops.append({"op": "next", "x": x, "y": y, "if": x})
                        vs[y] = ("view", "an item")
                        continue
                if z < .72:
                    ops.append({"op": "next", "x": x, "if": x})
                elif z < .9 and what:
                    y = r.randint(1, 8)
                    ops.append({"op": "citer", "x": x, "y": y, "if": x})
                    if y != x:
                        vs[y] = ("iter", True)
                else:
                    ops.append({"op": "dbg", "x": x, "if": x})
    for x in sorted(vs):
        ops.append(op_drain(x, 70) if vs[x][0] == "iter" else op_read(x))
    return ms, ops


# --------------------------------------------------------------------------
# The display feature

PLAIN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.()@-/,+:"


def plain_text(r, n):
    """n bytes of text that the renderer passes through: no markup, no leading,
    trailing or repeated blanks."""
    k = r.randint(1, n)
    t = "".join(r.choice(PLAIN) if i % 7 else r.choice("ABCxyz") for i in range(k))
    t = list(t)
    for i in range(1, k - 1):
        if t[i - 1] != " " and r.random() < 0.15:
            t[i] = " "
    return "".join(t).encode().ljust(n, b"\0")


def plain_machine(ctx, m):
    """Gives every text of the machine plain characters."""
    r = ctx.rng
    b = plain_text(r, 47) + b"\0"
    for k in range(3):
        m.set(0x80000002 + k, 0, words_of(b[16 * k:16 * k + 16]))
    b = plain_text(r, 48)
    if r.random() < 0.8:
        b = plain_text(r, 47) + b"\0"
    while len(m.t.setdefault(0x17, [])) < 4:
        m.t[0x17].append([0] * 4)
    for k in range(3):
        m.t[0x17][k + 1] = words_of(b[16 * k:16 * k + 16])
    return m


PLAIN_VENDORS = ["Intel", "Amd", "Hygon", "CentaurHauls", "VIA VIA VIA", "GenuineTMx86", "AMDisbetter!"]


def display_case(ctx, prefix, what, *machines, **kw):
    return dict({"id": ctx.cid(prefix), "m": [m.enc() for m in machines], "what": what}, **kw)


def stimulated(ctx, queues, vendor, maxb, maxe):
    """A machine whose views all show the next stimulus of their queue."""
    m = full_machine(ctx, vendor, maxb, maxe)
    for g, q in queues.items():
        w = q[ctx.n % len(q)]
        for k, (leaf, sub) in enumerate(ctx.t["views"][g]["slots"]):
            leaf = LEAF_OF(leaf)
            if leaf not in (0, 0x80000000, 0x80000002, 0x80000003, 0x80000004, 0x12, 0x17, 0xD):
                m.set(leaf, sub, w[4 * k:4 * k + 4])
    for g in ("sgx_info", "hypervisor_info", "svm_info"):
        prepare(m, g)
    m.t[0x8000001E][0][1] &= ~0x8000                  # known findings
    m.t[0x80000019] = [[x & 0xF0FFF0FF for x in m.t[0x80000019][0]]]
    return m


def gen_report(ctx):
    r = ctx.rng
    for name, table in corpus():
        yield display_case(ctx, "corpus", "report", real_machine(table))
    queues = {}
    for g in sorted(ctx.t["views"]):
        if g in ("vendor_info", "hypervisor_info", "processor_brand_string"):
            continue
        q = list(stimuli(ctx, ctx.t["views"][g]["t"], 4 * len(ctx.t["views"][g]["slots"]), light=True))
        r.shuffle(q)
        queues[g] = q
    top = lambda: (0x20, 0x80000028)
    for i in range(ctx.k(180, 4000)):
        v = PLAIN_VENDORS[i % len(PLAIN_VENDORS)] if i % 3 else ["Intel", "Amd"][i // 3 % 2]
        yield display_case(ctx, "full", "report",
                           plain_machine(ctx, stimulated(ctx, queues, v, *top())))
    # limits: the object decides what is shown
    for v in ("Intel", "Amd", "CentaurHauls"):
        for mb in BASIC:
            yield display_case(ctx, "limit", "report",
                               plain_machine(ctx, full_machine(ctx, v, mb, r.choice(EXT))))
        for me in EXT:
            yield display_case(ctx, "limit", "report",
                               plain_machine(ctx, full_machine(ctx, v, r.choice(BASIC), me)))
    for _ in range(ctx.k(30, 400)):
        m = full_machine(ctx, r.choice(PLAIN_VENDORS), *top(), conds=False)
        for leaf in list(m.t):
            if leaf not in (0, 0x80000000) and r.random() < 0.3:
                m.t[leaf] = [[0] * 4]
        if r.random() < 0.5:
            m.t[7] = [[x & ~4 & ALL1 for x in m.t[7][0]]] + m.t[7][1:]
        yield display_case(ctx, "sparse", "report", plain_machine(ctx, m))
    # the views' own iterators
    for g in ("cache_parameters", "extended_topology_info", "extended_topology_info_v2",
              "extended_cpu_topology", "deterministic_address_translation_info"):
        for _ in range(ctx.k(10, 150)):
            v = r.choice(["Intel", "Amd"])
            m = full_machine(ctx, v, *top())
            leaf = iter_leaf(g, v)
            n = r.choice([0, 1, 2, 4, 8, 12])
            if g == "deterministic_address_translation_info":
                m.t[leaf] = [valid(g, [rnd_word(r) for _ in range(4)], r) if r.random() < .6
                             else invalid(g, r) for _ in range(n + 1)]
                m.t[leaf][0][0] = n
            else:
                m.t[leaf] = [valid(g, [rnd_word(r) for _ in range(4)], r) for _ in range(n)]
                m.t[leaf].append(invalid(g, r))
            yield display_case(ctx, "list", "report", plain_machine(ctx, m))
    for _ in range(ctx.k(20, 200)):
        m = full_machine(ctx, "Intel", *top())
        m.t[0x12] = m.t[0x12][:2] + [valid("sgx", [rnd_word(r) for _ in range(4)], r)
                                     for _ in range(r.randint(0, 9))] + [invalid("sgx", r)]
        while len(m.t[0xD]) < r.choice([2, 20, 64]):
            m.t[0xD].append([rnd_word(r) for _ in range(4)])
        yield display_case(ctx, "state", "report", plain_machine(ctx, m))
    # every descriptor byte
    ds = [d for d in range(256) if d != 0xC3]
    r.shuffle(ds)
    for i in range(0, len(ds), 15):
        b = (ds[i:i + 15] + [0] * 15)[:15]
        m = full_machine(ctx, "Intel", *top())
        ws = [1 | b[0] << 8 | b[1] << 16 | b[2] << 24] + \
             [int.from_bytes(bytes(b[3 + 4 * k:7 + 4 * k]), "little") & 0x7FFFFFFF for k in range(3)]
        m.t[2] = [ws]
        yield display_case(ctx, "desc", "report", plain_machine(ctx, m))
    # the object and the CPU that prints it differ
    for _ in range(ctx.k(40, 600)):
        a = full_machine(ctx, r.choice(PLAIN_VENDORS), r.choice(BASIC), r.choice(EXT))
        b = plain_machine(ctx, full_machine(ctx, r.choice(PLAIN_VENDORS), r.choice(BASIC), r.choice(EXT)))
        yield display_case(ctx, "moved", "report", a, b)
    # and change while it is printed: judged by whether the report completes
    for _ in range(ctx.k(60, 1500)):
        ms = [full_machine(ctx, r.choice(PLAIN_VENDORS), r.choice([0x20, r.choice(BASIC)]),
                           r.choice([0x80000028, r.choice(EXT)]), r.random() < .8) for _ in range(2)]
        yield display_case(ctx, "torn", "report", *[plain_machine(ctx, m) for m in ms], lax=1,
                           flip=r.choice([2, 3, 4, r.randrange(12), r.randrange(120)]))
    # any bytes for texts: judged by whether the report completes
    for _ in range(ctx.k(40, 800)):
        v = bytes(r.choice(PLAIN.encode() + b"|*`~#_\\ \n\t\0\x01\x1b\xff{}$") for _ in range(12))
        m = full_machine(ctx, v.decode("latin1"), *top())
        for leaf in (0x80000002, 0x80000003, 0x80000004):
            m.set(leaf, 0, [r.getrandbits(32) for _ in range(4)])
        yield display_case(ctx, "text", "report", m, lax=1)
    for x in ctx.fresh:
        for _ in range(6):
            m = full_machine(ctx, r.choice(["Intel", "Amd"]), *top())
            for leaf in list(m.t):
                if leaf not in (0, 0x80000000, 0x80000019, 0x8000001E, 2):
                    for regs in m.t[leaf][:2]:
                        if r.random() < 0.4:
                            regs[r.randrange(4)] = x
            m.t[0x18][0][0] %= 8
            yield display_case(ctx, "fresh", "report", plain_machine(ctx, m))


def gen_raw(ctx):
    r = ctx.rng
    for name, table in corpus():
        yield display_case(ctx, "corpus", "raw", real_machine(table))

    def dump(vendor, mb, me, mh, dense):
        m = M(vendor, mb, me)
        m.set(0x40000000, 0, [mh] + [rnd_word(r) for _ in range(3)])
        for base, lim in ((0, mb), (0x40000000, mh), (0x80000000, me)):
            for leaf in range(base, min(lim, base + 0x500) + 4):
                if leaf in (0, 0x40000000, 0x80000000) or r.random() > dense:
                    continue
                m.t[leaf] = [[rnd_word(r) for _ in range(4)] for _ in range(r.choice([1, 1, 2, 3]))]
        return display_case(ctx, "dump", "raw", m)
    basics = [0, 1, 2, 3, 4, 0xC, 0xD, 0xE, 0x10, 0x14, 0x1F, 0x20, 0x24]
    exts = [0, 1, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x80000002, 0x80000008, 0x80000010, 0x80000028]
    hyps = [0, 1, 0x10, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x40000002, 0x40000005, 0x40000010]
    for mb in basics:
        yield dump(r.choice(PLAIN_VENDORS), mb, r.choice(exts), r.choice(hyps), 0.8)
    for me in exts:
        for mh in hyps:
            yield dump(r.choice(PLAIN_VENDORS), r.choice(basics), me, mh, 0.8)
    for _ in range(ctx.k(60, 800)):
        yield dump(r.choice(PLAIN_VENDORS), r.randrange(0x30),
                   r.choice(exts + [0x80000000 + r.randrange(0x30)]),
                   r.choice(hyps + [0x40000000 + r.randrange(0x30)]), r.choice([0, 0.3, 1, 1]))
    for big in ([0x80, 0x101, 0x1FF] if not ctx.deep else [0x80, 0x101, 0x1FF, 0x400, 0x800, 0x1001]):
        yield dump("Intel", big, 0x80000008, 0, 0.3)
        yield dump("Amd", 0x10, 0x80000000 + big, 0x40000000 + big // 2, 0.3)
    for x in ctx.fresh:
        for base in (0, 0x40000000, 0x80000000):
            if base <= x < base + 0x1000:
                for d in (-1, 0, 1):
                    lims = {0: 3, 0x40000000: 0, 0x80000000: 0x80000001}
                    lims[base] = max(base, x + d)
                    yield dump("Intel", lims[0], lims[0x80000000], lims[0x40000000], 0.9)
        m = M("Intel", 0x10, 0x80000008)
        for leaf in (1, 2, 7, 0x80000001):
            m.set(leaf, 0, [x if r.random() < 0.6 else rnd_word(r) for _ in range(4)])
        m.set(0x40000000, 0, [0x40000001, x, x, x])
        yield display_case(ctx, "fresh", "raw", m)
