"""Records what the display feature prints.

The real report is printed to a pseudo terminal that is wide enough not to fold
any line; lines are reduced to their cells (see spec/Report.tla)."""
import fcntl
import json
import os
import pty
import re
import select
import signal
import struct
import subprocess
import termios
import time
import tty

WIDTH = 4000


def run(binary, casefile, timeout, quiet=120):
    """Runs the driver; returns (output, exit code or None if it did not end, or
    one of its cases did not)."""
    m, s = pty.openpty()
    tty.setraw(s)
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 200, WIDTH, 0, 0))

    def pre():
        os.setsid()
        fcntl.ioctl(1, termios.TIOCSCTTY, 0)
        if "CPUID_BIN" in os.environ:      # each CPU has its own identity
            try:
                os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[-1]})
            except OSError:
                pass

    p = subprocess.Popen([binary, "run", casefile], stdin=subprocess.DEVNULL, stdout=s,
                         stderr=subprocess.DEVNULL, preexec_fn=pre,
                         env=dict(os.environ, TERM="xterm", COLUMNS=str(WIDTH)))
    os.close(s)
    end = time.time() + timeout
    out, last, size = [], time.time() + quiet, 0
    try:
        while True:
            left = min(end, last) - time.time()
            if left <= 0 or size > 256 << 20 or not select.select([m], [], [], left)[0]:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return b"".join(out), None
            try:
                b = os.read(m, 1 << 16)
            except OSError:
                break
            if not b:
                break
            out.append(b)
            size += len(b)
            if b"\x01BEGIN" in b:
                size, last = 0, time.time() + quiet
    finally:
        os.close(m)
    p.wait()
    return b"".join(out), p.returncode


ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")


def plain(s):
    s = s.replace("\u2705", "yes").replace("\u274c", "no")
    return "".join(c if 32 <= ord(c) < 127 else "{u%x}" % ord(c) for c in s)


def cells(lines):
    """Printed lines -> lists of cells."""
    out = []
    for l in lines:
        l = l.strip()
        if not l or l[0] in "\u250c\u251c\u2514":      # table borders
            continue
        if l[0] == "\u2502":
            out.append([plain(c.strip()) for c in l.strip("\u2502").split("\u2502")])
        else:
            out.append([plain(l)])
    return out


RAW = re.compile(r"\((0x[0-9a-f]+), (0x[0-9a-f]+)\) => \w+ \{ eax: (0x[0-9a-f]+), ebx: (0x[0-9a-f]+), "
                 r"ecx: (0x[0-9a-f]+), edx: (0x[0-9a-f]+) \}$")


def words(lines):
    out = []
    for l in lines:
        l = l.strip()
        if not l:
            continue
        m = RAW.match(l)
        if not m:
            out.append([plain(l)])
            continue
        vals = [int(x, 16) for x in m.groups()]
        out.append([[v & 0xFFFF, v >> 16] for v in vals])
    return out


def parse(out):
    """Output of the driver -> [(id, "END"/"PANIC"/None, lines)]"""
    text = ANSI.sub("", out.decode("utf8", "replace"))
    res = []
    for part in text.split("\x01BEGIN ")[1:]:
        ident, _, body = part.partition("\n")
        ident = ident.strip()
        end = None
        for mark in ("END", "PANIC"):
            i = body.rfind("\x01" + mark)
            if i >= 0 and body[i:].strip() == "\x01" + mark:
                end, body = mark, body[:i]
        res.append((ident, end, body.split("\n")))
    return res


def record(binary, cases, work, tag):
    """Like check.record, for display cases."""
    cf, tf = os.path.join(work, tag + ".cases"), os.path.join(work, tag + ".traces")
    lost = []
    todo = cases
    with open(tf, "w") as f:
        while todo:
            with open(cf, "w") as g:
                for c in todo:
                    g.write(json.dumps(c, separators=(",", ":")) + "\n")
            out, rc = run(binary, cf, 300 + len(todo) // 4)
            got = [x for x in parse(out) if x[1]]
            for c, (ident, end, lines) in zip(todo, got):
                if c["id"] != ident:
                    raise RuntimeError("the driver lost a case")
                f.write(json.dumps(trace(c, end, lines), separators=(",", ":")) + "\n")
            if rc == 0 and len(got) == len(todo):
                break
            if rc == 2 or len(got) >= len(todo):
                raise RuntimeError("the driver failed (%r)" % rc)
            lost.append((todo[len(got)], "the call did not return (%r)" % rc))
            todo = todo[len(got) + 1:]
            if len(lost) >= 3:
                break
    return tf, lost


# What the renderer passes through as it is
PLAIN = re.compile(r"[A-Za-z0-9.()@/,+:-]+( [A-Za-z0-9.()@/,+:-]+)*")


def texts(m):
    """The texts of a CPU."""
    def text(rows, regs=(0, 1, 2, 3)):
        b = b"".join(r[2 * i + j].to_bytes(2, "little") for r in rows for i in regs for j in (0, 1))
        return b.split(b"\0")[0].decode("latin1")
    row = lambda leaf, sub=0: m.get(leaf, [[0] * 8] * 4)[sub]
    yield text([row("L0")], (1, 3, 2))
    yield text([row("L8000000%d" % i) for i in (2, 3, 4)])
    if "L17" in m and len(m["L17"]) > 3:
        yield text(m["L17"][1:4])


def program(c, end, lines):
    """The trace of a run of the command line program."""
    m = c["m"][0] if "m" in c else json.load(open(c["file"]))
    if m is None:
        return {"id": c["id"], "m": [], "ev": []}
    e = {"op": c["does"], "end": end, "r": []}
    if c["does"] == "raw":
        e["r"] = words(lines)
    elif c["does"] == "report":
        e["h"] = 1
        narrow = m.get("L80000019", [[0] * 8])[0]
        threads = m.get("L8000001E", [[0] * 8])[0]
        if "m" in c and c.get("lax"):
            e["lax"] = 1
        elif (not all(PLAIN.fullmatch(t.strip(" ")) or not t.strip(" ") for t in texts(m))
                or any(x & 0x0F00 for x in narrow) or threads[2] >> 8 == 255):
            e["lax"] = 1                   # renderer's characters, known findings
        else:
            e["r"] = cells(lines)
    else:
        e["r"] = []
    return {"id": c["id"], "m": [m], "ev": [{"op": "new", "h": 1}] * (c["does"] == "report") + [e]}


def trace(c, end, lines):
    if c["what"] == "program":
        return program(c, end, lines)
    if c["what"] == "raw":
        ev = [{"op": "raw", "end": end, "r": words(lines)}]
    else:
        e = {"op": "report", "h": 1, "end": end, "r": cells(lines)}
        if c.get("lax"):
            e["lax"] = 1
            e["r"] = []
        ev = [{"op": "new", "h": 1}]
        if len(c["m"]) > 1:
            ev.append({"op": "mig", "i": len(c["m"])})
        ev.append(e)
    return {"id": c["id"], "m": c["m"], "ev": ev}


def corrupt(rng, t):
    """A copy of a trace with one wrong cell, a missing, an additional or a
    displaced line."""
    t = json.loads(json.dumps(t))
    if not t["ev"]:
        return None
    e = t["ev"][-1]
    k = rng.randrange(4)
    n = len(e["r"])
    if "lax" in e or n == 0:
        e["end"] = "PANIC" if e["op"] != "refuse" else "END"
    elif k == 0:
        i = rng.randrange(n)
        l = e["r"][i]
        j = rng.randrange(len(l))
        if isinstance(l[j], str):
            l[j] += "0"
        else:
            l[j][rng.randrange(2)] += 70000
    elif k == 1:
        del e["r"][rng.randrange(n)]
    elif k == 2:
        i = rng.randrange(n)
        e["r"].insert(i, e["r"][i])
    else:
        e["end"] = "PANIC"
    t["id"] = "CORRUPT-" + t["id"]
    return t
