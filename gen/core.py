"""Shared pieces of the stimulus generators: the model's tables, cases, words."""
import json
import random
from functools import partial

from machine import (ALL1, BOUNDS, EAX, EBX, ECX, EDX, M, OTHERS, VENDORS,
                     corpus, literals, real_machine, rnd_word, w4)

LEAF_OF = lambda name: int(name[1:], 16)
# vendors a view is read on, in rotation; AMD-only views use the second list
ROTATION = ["Intel", "Amd", "Hygon", "CentaurHauls", "Intel", "Amd"]
AMDS = ["Amd", "Amd", "Amd", "Hygon"]


class Ctx:
    full = None           # gens.full_machine
    sim = None            # CPUID instructions can be simulated

    def __init__(self, tables, seed, tier, repo, base_literals):
        self.t = tables
        self.rng = random.Random(seed)
        self.tier = tier
        self.deep = tier == "thorough"
        ints, multi = literals(repo)
        self.ints, self.multi = ints, multi
        base = set(base_literals["ints"])
        bmulti = set(base_literals["multi"])
        # literals the implementation gained since the model was written
        self.fresh = ([x for x in ints if x not in base] +
                      [x for x in multi if x not in bmulti])[:64]
        self.n = 0
        self.walked = []      # what the walks through the model's graphs take

    def k(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 12) if self.deep else quick

    def cid(self, prefix):
        self.n += 1
        return "%s-%d" % (prefix, self.n)


def case(ctx, prefix, machines, ops):
    return {"id": ctx.cid(prefix), "m": [m.enc() for m in machines], "ops": ops}


# --------------------------------------------------------------------------
# Words for the registers of a view

def fields_of(ctx, t):
    return [f for f in ctx.t["fields"][t] if f["r"] > 0]


def put(w, lo, hi, v):
    mask = ((1 << (hi - lo + 1)) - 1) << lo
    return (w & ~mask) | ((v << lo) & mask)


def background(r, n):
    k = r.random()
    if k < 0.2:
        return [0] * n
    if k < 0.4:
        return [ALL1] * n
    return [rnd_word(r) for _ in range(n)]


def stimuli(ctx, t, n, extra_regs=(), light=False):
    """Assignments to the n register words of a view of type t: walking bits,
    all values of narrow fields, boundary and dictionary values of wide ones,
    whole-register dictionary words and random words."""
    r = ctx.rng
    yield [0] * n
    yield [ALL1] * n
    fs = fields_of(ctx, t)
    regs = sorted({f["r"] - 1 for f in fs} | set(extra_regs)) or list(range(n))
    regs = [x for x in regs if x < n]
    for i in regs:
        for b in range(32):
            w = [0] * n
            w[i] = 1 << b
            yield w
            w = [ALL1] * n
            w[i] = ALL1 ^ (1 << b)
            yield w
            for _ in range(ctx.k(1, 6)):
                w = [rnd_word(r) for _ in range(n)]
                w[i] ^= 1 << b
                yield w
    for f in fs:
        lo, hi, i = f["lo"], f["hi"], f["r"] - 1
        width = hi - lo + 1
        if width == 1 or i >= n:
            continue
        if width <= 8:
            vals = list(range(1 << width))
            if light and width > 5:
                vals = sorted(set(r.sample(vals, 24) + [0, 1, 2, (1 << width) - 1]))
        else:
            top = (1 << width) - 1
            vals = {0, 1, 2, 3, top, top - 1, top >> 1, (top >> 1) + 1}
            vals |= {1 << k for k in range(width)} | {(1 << k) - 1 for k in range(width)}
            vals |= {b for b in BOUNDS if b <= top}
            vals |= {r.getrandbits(width) for _ in range(ctx.k(16, 200))}
            vals |= {x for x in ctx.fresh if x <= top}
            vals = sorted(vals)
        for v in vals:
            for _ in range(ctx.k(1, 3)):
                w = background(r, n)
                w[i] = put(w[i], lo, hi, v)
                yield w
    for i in regs:
        for v in list(BOUNDS) + [x for x in ctx.ints if light is False or r.random() < 0.25]:
            w = background(r, n)
            w[i] = v
            yield w
    yield from fresh_words(ctx, fs, regs, n)
    yield from palettes(ctx, [f for f in fs if f["r"] - 1 < n], n)
    for _ in range(ctx.k(150, 6000)):
        yield [rnd_word(r) for _ in range(n)]


def palettes(ctx, fs, n):
    """Combinations of fields: each holds one of a few values, so that pairs of
    extreme fields, equal fields and fields in small relations all occur."""
    r = ctx.rng
    multi = [f for f in fs if f["hi"] > f["lo"]]
    if not multi:
        return
    for _ in range(ctx.k(120, 3000)):
        few = [0, ALL1] + [r.choice(BOUNDS) for _ in range(2)] + [r.getrandbits(r.randint(1, 32))]
        few.append((few[-1] + r.choice((-1, 1))) & ALL1)
        if r.random() < 0.5:
            few[r.randrange(len(few))] = r.choice((few[-1] * 2, few[-1] // 2, few[-1] * 4)) & ALL1
        w = background(r, n)
        for f in multi:
            if r.random() < 0.9:
                top = (1 << (f["hi"] - f["lo"] + 1)) - 1
                w[f["r"] - 1] = put(w[f["r"] - 1], f["lo"], f["hi"], r.choice(few) & top)
        yield w


def fresh_words(ctx, fs, regs, n):
    """Combinations of literals that are new in the implementation."""
    r = ctx.rng
    if not ctx.fresh:
        return
    for v in ctx.fresh:
        for i in regs:
            for _ in range(3):
                w = [rnd_word(r) for _ in range(n)]
                w[i] = v
                yield w
    multi = [f for f in fs if f["hi"] > f["lo"] and f["r"] - 1 < n]
    for _ in range(ctx.k(1500, 20000)):
        w = background(r, n)
        for f in r.sample(multi, min(len(multi), r.randint(1, 4))):
            w[f["r"] - 1] = put(w[f["r"] - 1], f["lo"], f["hi"], r.choice(ctx.fresh))
        if r.random() < 0.3:
            w[r.choice(regs)] = r.choice(ctx.fresh)
        yield w


# --------------------------------------------------------------------------
# Machines on which a getter succeeds

def prepare(m, g):
    """Sets the conditions getter g needs beyond available leaves."""
    if g == "sgx_info":
        m.orr(7, 0, EBX, 1 << 2)
    elif g == "hypervisor_info":
        m.orr(1, 0, ECX, 1 << 31)
        if m.t.get(0x40000000, [[0] * 4])[0][EAX] == 0:
            m.reg(0x40000000, 0, EAX, 0x40000010)
    elif g == "svm_info":
        m.orr(0x80000001, 0, ECX, 1 << 2)
    return m


AMD_ONLY = {"svm_info", "l1_cache_and_tlb_info"}
# leaf 2, 3, 4, 8, 9, A are reserved on AMD
NOT_AMD = {"cache_info", "processor_serial", "direct_cache_access_info",
           "performance_monitoring_info"}


def vendor_for(ctx, g, i):
    if g in AMD_ONLY:
        return AMDS[i % len(AMDS)]
    if g in NOT_AMD:
        return ["Intel", "Intel", "GenuineTMx86"][i % 3]
    return ROTATION[i % len(ROTATION)]


def poison(ctx, m, keep):
    """Random words in some other leaves and behind the listed sub-leaves: a
    value read from a wrong place must not be the right one by accident."""
    r = ctx.rng
    for leaf in keep:
        if leaf in m.t and leaf not in (0, 0x80000000):
            m.t[leaf].append([r.getrandbits(32) for _ in range(4)])
            for nb in (leaf - 1, leaf + 1):
                if nb not in m.t and nb not in (0, 0x80000000) and nb > 0:
                    m.set(nb, 0, [r.getrandbits(32) for _ in range(4)])
    return m


def view_machine(ctx, g, words, vendor, full=None):
    m = M(vendor) if full is None else full(vendor, 0x20, 0x80000028)
    slots = ctx.t["views"][g]["slots"]
    for k, (leaf, sub) in enumerate(slots):
        leaf = LEAF_OF(leaf)
        if leaf in (0, 0x80000000):
            continue
        m.set(leaf, sub, words[4 * k:4 * k + 4])
    prepare(m, g)
    return poison(ctx, m, {LEAF_OF(s[0]) for s in slots})


def signature(fam, model, step):
    """Leaf 1 EAX of a CPU with this (displayed) family, model and stepping."""
    base, ext = (fam, 0) if fam < 15 else (15, fam - 15)
    return step | (model & 15) << 4 | base << 8 | (model >> 4) << 16 | ext << 20


INTEL_CPUS = [(6, m) for m in (0x0F, 0x17, 0x1A, 0x1C, 0x1E, 0x25, 0x26, 0x2A, 0x2C, 0x2D, 0x2E, 0x2F, 0x37, 0x3A,
                               0x3C, 0x3D, 0x3E, 0x3F, 0x45, 0x46, 0x47, 0x4C, 0x4D, 0x4E, 0x4F, 0x55, 0x56, 0x57,
                               0x5C, 0x5E, 0x5F, 0x66, 0x6A, 0x6C, 0x7A, 0x7D, 0x7E, 0x85, 0x86, 0x8A, 0x8C, 0x8D,
                               0x8E, 0x8F, 0x96, 0x97, 0x9A, 0x9C, 0x9E, 0xA5, 0xA6, 0xA7, 0xAA, 0xAC, 0xAD, 0xAF,
                               0xB5, 0xB7, 0xBA, 0xBD, 0xBE, 0xBF, 0xC5, 0xC6, 0xCF, 1, 3, 5, 6, 7, 8, 9, 0xA, 0xB,
                               0xD, 0xE)] + [(15, m) for m in range(7)] + [(5, m) for m in (1, 2, 4, 7, 9)] + [(11, 1), (19, 1)]
AMD_CPUS = ([(0x17, m) for m in (0x01, 0x08, 0x11, 0x18, 0x20, 0x31, 0x47, 0x60, 0x68, 0x71, 0x84, 0x90, 0x98, 0xA0)] +
            [(0x19, m) for m in (0x00, 0x01, 0x08, 0x10, 0x11, 0x18, 0x21, 0x40, 0x44, 0x50, 0x61, 0x74, 0x75, 0x78,
                                 0x7C, 0xA0)] +
            [(0x1A, m) for m in (0x02, 0x08, 0x10, 0x11, 0x20, 0x24, 0x44, 0x60, 0x70)] +
            [(0x18, m) for m in (0, 1, 2, 4)] + [(0x16, m) for m in (0, 4, 0x30)] +
            [(0x15, m) for m in (1, 2, 0x10, 0x13, 0x30, 0x38, 0x60, 0x65, 0x70)] + [(0x14, m) for m in (1, 2)] +
            [(0x12, 1), (0x11, 3)] + [(0x10, m) for m in (2, 4, 5, 6, 8, 9, 10)] +
            [(15, m) for m in (4, 5, 0x21, 0x23, 0x41, 0x43, 0x4B, 0x5F, 0x68, 0x6B, 0x7F, 0xC1)] +
            [(6, m) for m in (1, 2, 3, 4, 6, 7, 8, 10)] + [(5, m) for m in range(14)])


# vendors that are neither Intel, AMD nor Hygon, and would-be ones
STRANGERS = ["CentaurHauls", "VIA VIA VIA ", "  Shanghai  ", "GenuineTMx86", "TransmetaCPU", "CyrixInstead",
             "NexGenDriven", "RiseRiseRise", "SiS SiS SiS ", "UMC UMC UMC ", "Geode by NSC", "Genuine  RDC",
             "E2K MACHINE\0", "Vortex86 SoC", "MiSTer AO486", "GenuineIotel", "AMDisbetter!", "AMD ISBETTER",
             "Virtual CPU "]


def some_cpu(ctx, m):
    """The signature of one CPU after another, mostly of m's vendor."""
    r = ctx.rng
    amd = m.t[0][0][EBX] in (0x68747541, 0x6F677948)
    cpus = AMD_CPUS if amd != (r.random() < 0.1) else INTEL_CPUS
    ctx.cpu = getattr(ctx, "cpu", r.randrange(1000)) + 1
    fam, model = cpus[ctx.cpu % len(cpus)]
    few = list(ctx.fresh) + [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15]
    if r.random() < 0.15:
        fam, model = r.choice(few + [15 + x for x in few]) % 271, r.choice(few + [r.getrandbits(8)]) & 255
    return signature(fam, model, r.choice(few) & 15)


LIMITS = [5, 7, 0xA, 0xB, 0xD, 0x10, 0x14, 0x16, 0x1B, 0x1F, 0x20, 0x24]
EXT_LIMITS = [0x80000000 + x for x in (1, 4, 6, 7, 8, 0xA, 0x18, 0x1A, 0x1B, 0x1E, 0x1F, 0x20, 0x21, 0x22, 0x26, 0x28)]


def surround(ctx, m):
    """A CPU with the registers in question is also some family and model, has
    some features, some highest leaf, perhaps a hypervisor: none of it is their
    business. Leaves that m has stay as they are."""
    r = ctx.rng
    if r.random() < 0.3:
        return m
    one = m.t.get(1)
    if one is None or one == [[0, 0, 1 << 31, 0]]:
        if m.t[0][0][1:] == M("CentaurHauls").t[0][0][1:]:
            m.vendor(r.choice(STRANGERS), m.t[0][0][EAX])
        hv = one[0][ECX] if one else 0
        if not hv and 0x40000000 not in m.t and r.random() < 0.2:
            hv = 1 << 31
            m.set(0x40000000, 0, [0x40000000 + r.choice([0, 1, 5, 0x10])] + r.choice(ctx.hvs))
        rest = [rnd_word(r) for _ in range(3)] if r.random() < 0.5 else [0, 0, 0]
        m.set(1, 0, [some_cpu(ctx, m), rest[0], rest[1] & ~(1 << 31) | hv, rest[2]])
    if 7 not in m.t and r.random() < 0.3:             # without SGX
        m.set(7, 0, [0, rnd_word(r) & ~(1 << 2), rnd_word(r), rnd_word(r)])
    if 0x80000001 not in m.t and r.random() < 0.3:    # without SVM
        m.set(0x80000001, 0, [0, 0, rnd_word(r) & ~(1 << 2), rnd_word(r)])
    if m.t[0][0][EAX] == 0x20 and r.random() < 0.4:
        top = max(l for l in m.t if l < 0x20000000)
        m.reg(0, 0, EAX, r.choice([top, top, top + 1, r.randint(top, max(top, 0x40))] + [x for x in LIMITS if x > top]))
    if m.t.get(0x80000000) == [[0x80000028, 0, 0, 0]] and r.random() < 0.4:
        top = max(l for l in m.t if 0x80000000 <= l < 0x90000000)
        m.reg(0x80000000, 0, EAX, r.choice([top, top, top + 1, r.randint(top, max(top, 0x80000040))] + [x for x in EXT_LIMITS if x > top]))
    return m


PER_CASE = 24


def batches(ctx, prefix, items):
    """items: (machine, ops) pairs, each starting with its own `new`."""
    ms, ops = [], []
    for m, o in items:
        if 0 in m.t:
            m = surround(ctx, m)
        ms.append(m)
        if len(ms) > 1:
            ops.append({"op": "mig", "i": len(ms)})
        ops += o
        if len(ms) == PER_CASE:
            yield case(ctx, prefix, ms, ops)
            ms, ops = [], []
    if ms:
        yield case(ctx, prefix, ms, ops)


NEW = {"op": "new", "h": 1}


def op_get(g, x=1, h=1):
    return {"op": "get", "h": h, "g": g, "x": x}


def op_read(x=1, fs=None):
    o = {"op": "read", "x": x, "if": x}
    if fs:
        o["fs"] = fs
    return o


def op_sub(x, q, y):
    return {"op": "sub", "x": x, "q": q, "y": y, "if": x}


def op_drain(x, mx=64):
    return {"op": "drain", "x": x, "if": x, "max": mx}


def op_skip(x, n):
    return {"op": "skip", "x": x, "n": n, "if": x}


def far_ops(x, n):
    """Looks around the n-th item of a long list."""
    ops = [op_skip(x, n - 3)] if n > 3 else []
    return ops + [{"op": "next", "x": x, "if": x}] * 7


def peeks(ctx, x, g=None):
    """Uses (a copy of) a finite iterator in other ways than by next."""
    r = ctx.rng
    ops = [{"op": "peek", "x": x, "how": h, "if": x} for h in ("count", "hint")]
    ops.append({"op": "peek", "x": x, "how": "past", "n": r.choice((1, 40, 300, 300, 70000)), "if": x})
    if g != "cache_info":
        ops += [{"op": "peek", "x": x, "how": h, "if": x} for h in ("last", "fold")]
        ops += [{"op": "peek", "x": x, "how": how, "n": n, "if": x} for how in ("nth", "after")
                for n in (0, r.randint(0, 3), r.randint(0, 9))]
    return r.sample(ops, min(len(ops), 3))


ENDS = {"cache_parameters": (("L4", "L8000001D"), lambda w: not 1 <= w[0] & 31 <= 3),
        "extended_topology_info": (("LB",), lambda w: w[4] >> 8 == 0),
        "extended_topology_info_v2": (("L1F",), lambda w: w[4] >> 8 == 0),
        "extended_cpu_topology": (("L80000026",), lambda w: w[4] >> 8 == 0),
        "sgx_info": (("L12",), lambda w: w[0] & 15 != 1)}
COUNTS = {"deterministic_address_translation_info": "L18", "soc_vendor_info": "L17"}


def short(ms, g):
    """Whether the enumeration of these (encoded) CPUs ends soon."""
    if g in ENDS:
        leaves, end = ENDS[g]
        return all(end(m[l][-1]) for m in ms for l in leaves if l in m)
    if g in COUNTS:
        return all(m[COUNTS[g]][0][1] == 0 and m[COUNTS[g]][0][0] < 300 for m in ms if COUNTS[g] in m)
    if g == "cache_info":                             # no known finding
        return not any(b == 0xC3 for m in ms for r in m.get("L2", []) for w in r for b in (w & 255, w >> 8))
    return g == "extended_state_info"


def with_peeks(ctx, cases):
    """The cases, with some iterators used in other ways before they are drained."""
    r = ctx.rng
    for c in cases:
        got, ops = {}, []
        for o in c["ops"]:
            if o["op"] == "mig":
                got.clear()          # ended iterators may resume
            elif o["op"] == "get":
                got[o["x"]] = o["g"]
            elif o["op"] == "sub":
                got[o["y"]] = got.get(o["x"]) if o["q"] in ("iter", "get_vendor_attributes") else None
            elif o["op"] == "citer":
                got[o["y"]] = got.get(o["x"])
            elif o["op"] == "drain" and got.get(o["x"]) and r.random() < 0.6:
                x = o["x"]
                ps = peeks(ctx, x, got[x])
                if not short(c["m"], got[x]):
                    ps = [p for p in ps if p["how"] == "nth" and got[x] != "cache_info"]
                ops += ps
            ops.append(o)
        yield dict(c, ops=ops)


def view_cases(ctx, g, light=False, fs=None, words=None):
    r = ctx.rng
    t = ctx.t["views"][g]["t"]
    n = 4 * len(ctx.t["views"][g]["slots"])
    ops = [NEW, op_get(g), op_read(1, fs)]
    src = words if words is not None else stimuli(ctx, t, n, light=light)

    def items():
        for i, w in enumerate(src):
            # now and then every other leaf holds something too
            full = partial(ctx.full, ctx) if r.random() < 0.15 else None
            yield view_machine(ctx, g, w, vendor_for(ctx, g, i), full), ops
        for name, table in corpus():
            yield real_machine(table), ops
    yield from batches(ctx, g, items())
