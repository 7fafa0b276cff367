"""Register tables (machines) and stimulus vocabulary."""
import json, os, re, random

HERE = os.path.dirname(os.path.abspath(__file__))
ALL1 = 0xFFFFFFFF
EAX, EBX, ECX, EDX = 0, 1, 2, 3


def w4(s):
    b = s.encode("latin1") if isinstance(s, str) else bytes(s)
    b = b.ljust(12, b"\0")[:12]
    return [int.from_bytes(b[i:i + 4], "little") for i in (0, 4, 8)]


VENDORS = {
    "Intel": "GenuineIntel",
    "Amd": "AuthenticAMD",
    "Hygon": "HygonGenuine",
}
# CPUs of other vendors and near misses of the known identification strings
OTHERS = ["CentaurHauls", "VIA VIA VIA ", "  Shanghai  ", "GenuineTMx86",
          "GenuineIotel", "genuineintel", "AMDisbetter!", "AuthenticAMC",
          "AuthenticIntl", "ntelGenuineI", "cAMDAuthenti", "GenuineHygon",
          "HygonGenuin\0", "", "\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8\xf7\xf6\xf5\xf4"]


class M:
    """leaf -> list of sub-leaves [eax, ebx, ecx, edx]."""

    def __init__(self, vendor="Intel", maxb=0x20, maxe=0x80000028):
        self.t = {}
        self.vendor(vendor, maxb)
        self.set(0x80000000, 0, [maxe, 0, 0, 0])

    def vendor(self, vendor, maxb):
        s = VENDORS.get(vendor, vendor)
        ebx, edx, ecx = w4(s)
        self.set(0, 0, [maxb, ebx, ecx, edx])
        return self

    def set(self, leaf, sub, regs):
        subs = self.t.setdefault(leaf, [])
        while len(subs) <= sub:
            subs.append([0, 0, 0, 0])
        subs[sub] = [r & ALL1 for r in regs]
        return self

    def reg(self, leaf, sub, r, v):
        subs = self.t.setdefault(leaf, [])
        while len(subs) <= sub:
            subs.append([0, 0, 0, 0])
        subs[sub][r] = v & ALL1
        return self

    def orr(self, leaf, sub, r, v):
        cur = self.t.get(leaf, [])
        old = cur[sub][r] if len(cur) > sub else 0
        return self.reg(leaf, sub, r, old | v)

    def end(self, leaf):
        """Terminates the sub-leaf list with an all-zero one."""
        self.t.setdefault(leaf, []).append([0, 0, 0, 0])
        return self

    def copy(self):
        m = M.__new__(M)
        m.t = {k: [list(s) for s in v] for k, v in self.t.items()}
        return m

    def enc(self):
        out = {}
        for leaf, subs in self.t.items():
            out["L%X" % leaf] = [[x for r in s for x in (r & 0xFFFF, r >> 16)] for s in subs]
        return out


def corpus():
    """Register dumps of real CPUs: list of (name, {leaf: {sub: regs}})."""
    d = json.load(open(os.path.join(HERE, "corpus.json")))
    return [(n, {int(l): {int(s): r for s, r in subs.items()} for l, subs in t.items()})
            for n, t in d.items()]


def real_machine(table):
    m = M.__new__(M)
    m.t = {}
    for leaf, subs in table.items():
        for s in range(max(subs) + 1):
            m.set(leaf, s, subs.get(s, [0, 0, 0, 0]))
        if len(subs) > 1:
            m.end(leaf)
    return m


def literals(repo):
    """Integer literals of the implementation (and 4-byte pieces of its byte
    strings): unusual inputs a special case in the code would look for."""
    out, multi = set(), []
    src = os.path.join(repo, "src")
    files = [os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs
             if f.endswith(".rs") and "tests" not in d.split(os.sep) and not f.startswith("test")
             and "bin" not in d.split(os.sep)]
    for fn in sorted(files):
        try:
            s = open(fn, encoding="utf-8").read()
        except OSError:
            continue
        s = re.sub(r"//[^\n]*", "", s)
        for x in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.])", s):
            try:
                v = int(x.replace("_", ""), 0) if x[:2] in ("0x", "0b", "0o") else int(x.replace("_", ""))
            except ValueError:
                continue
            if 0 <= v <= 0xFFFFFFFF:
                out.add(v)
            elif v <= (1 << 64) - 1:
                out.update((v & ALL1, v >> 32))
        for x in re.findall(r'b?"((?:[^"\\]|\\.){4,16})"', s):
            b = x.encode("latin1", "ignore")
            for i in range(0, len(b) - 3, 4):
                if i < 12:
                    multi.append(int.from_bytes(b[i:i + 4], "little"))
    return sorted(out), sorted(set(multi))


BOUNDS = [0, 1, 2, 3, 4, 5, 7, 8, 0xF, 0x10, 0x1F, 0x20, 0x7F, 0x80, 0xFF, 0x100,
          0xFFF, 0x1000, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000,
          0xFFFFFFFE, 0xFFFFFFFF, 0x55555555, 0xAAAAAAAA, 0x0F0F0F0F, 0xF0F0F0F0,
          0x00FF00FF, 0xFF00FF00, 0x01234567, 0x89ABCDEF]


def rnd_word(r):
    k = r.random()
    if k < 0.5:
        return r.getrandbits(32)
    if k < 0.65:
        return r.getrandbits(32) & r.getrandbits(32) & r.getrandbits(32)
    if k < 0.8:
        return (r.getrandbits(32) | r.getrandbits(32) | r.getrandbits(32)) & ALL1
    if k < 0.9:
        return r.choice(BOUNDS)
    return r.getrandbits(r.randint(1, 32))
