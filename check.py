#!/usr/bin/env python3
"""Runs the check of one property:  check.py <id> [quick|thorough]

1. builds the conformance driver against /repo's current working tree,
2. model checks the specification configurations that belong to the property,
3. generates stimulus from the specification's tables, runs the real code on it,
   and lets TLC validate the recorded traces against the specification,
4. rewrites evidence/<id>.json.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "gen"))
import report  # noqa: E402
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
JAVA = ["java", "-XX:+UseParallelGC", "-Xss512m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]


CRATES = ["harness", "harness-display"]
BINARY = {"harness": "cpuid-conformance", "harness-display": "cpuid-display"}


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, env=None, cwd=None, **kw):
    return subprocess.run(cmd, timeout=timeout, env=env, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ builds

# Other ways to build the driver of P35: arguments, where the program is
VARIANTS = {"release without features": (("--release", "--no-default-features"), "release"),
            "debug with all features": (("--features", "all"), "debug")}


def cargo_build(crate, extra=(), out="debug"):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target-" + crate + "".join("-" + x for x in ("all", "threads") if x in extra)),
               CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable")
    env.pop("RUSTFLAGS", None)
    src = os.path.join(HERE, crate)
    r = run(["cargo", "build", "--offline", "--locked", *extra], 800, env=env, cwd=src)
    if r.returncode != 0 and "--locked" in r.stdout:
        # /repo's own dependencies or version changed: build from a copy
        tmp = tempfile.mkdtemp(dir=BUILD)
        try:
            for c in (crate, "harness-sim"):
                shutil.copytree(os.path.join(HERE, c), os.path.join(tmp, c))
            r = run(["cargo", "build", "--offline", *extra], 800, env=env, cwd=os.path.join(tmp, crate))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (crate, r.stdout[-4000:]))
    return os.path.join(BUILD, "target-" + crate + "".join("-" + x for x in ("all", "threads") if x in extra), out)


NARROW = "i686-unknown-linux-gnu"


def interpreter(driver):
    """How to run the driver built for a 32-bit CPU, interpreted by Miri; None
    if this machine cannot do that (a text if the crate is why)."""
    src = os.path.join(HERE, driver)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target-%s-narrow" % driver), RUSTUP_TOOLCHAIN="nightly",
               XDG_CACHE_HOME=os.path.join(BUILD, "cache"),
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
    for k in ("RUSTFLAGS", "MIRI_SYSROOT"):
        env.pop(k, None)
    cmd = ["cargo", "miri", "run", "-q", "--offline", "--no-default-features", "--target", NARROW, "--"]
    try:
        r = run(cmd + ["meta"], 400, env=env, cwd=src)
    except (subprocess.TimeoutExpired, OSError):
        return None
    if r.returncode != 0:
        log(r.stdout[-1500:])
        return "does not compile" if "could not compile `raw-cpuid`" in r.stdout else None
    return cmd, env, src


def interpret(how, cases, work, limit):
    """Like record, by so many interpreters at a time; what takes longer than
    the limit is left out."""
    cmd, env, src = how
    n, jobs = os.cpu_count() or 1, []
    for i in range(n):
        cf, of = os.path.join(work, "n%d.cases" % i), os.path.join(work, "n%d.traces" % i)
        part = cases[i::n]
        with open(cf, "w") as f:
            for c in part:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        ef = open(of + ".err", "w+")
        jobs.append((part, of, ef, subprocess.Popen(cmd + ["run", cf, of], env=env, cwd=src, stdout=subprocess.DEVNULL,
                                                    stderr=ef, start_new_session=True)))
    tf, lost, end = os.path.join(work, "n.traces"), [], time.time() + limit
    with open(tf, "w") as f:
        for part, of, ef, p in jobs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 0
            done = [l for l in open(of) if l.endswith("\n")] if os.path.exists(of) else []
            f.writelines(done)
            ef.seek(0)
            why = ef.read()
            ef.close()
            if rc != 0 and len(done) < len(part) and "unsupported operation" not in why:
                lost.append((part[len(done)], "interpreted: " + why[-600:]))
    return tf, lost


def sim_library():
    """The library that lets a program run on a simulated CPU; None if this
    machine cannot do that."""
    lib = os.path.join(cargo_build("harness-sim"), "libcpusim.so")
    fd, f = tempfile.mkstemp(dir=BUILD)
    try:
        os.write(fd, b"0 0 0 0 0 0\n")
        os.close(fd)
        r = run(["/bin/true"], 60, env=dict(os.environ, LD_PRELOAD=lib, CPUSIM_FILE=f))
    finally:
        os.unlink(f)
    return lib if r.returncode == 0 else None


def program_build():
    """The command line program, from /repo's own manifest."""
    target = os.path.join(BUILD, "target-program")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable", CARGO_PROFILE_DEV_DEBUG="0")
    env.pop("RUSTFLAGS", None)
    r = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
             "--features", "cli", "--bin", "cpuid", "--target-dir", target], 800, env=env)
    if r.returncode != 0:
        raise ToolError("building the program failed:\n%s" % r.stdout[-4000:])
    return os.path.join(target, "debug", "cpuid")


# --------------------------------------------------------------------- TLC

def tlc(module, cfg, env, work, workers=8, extra=(), timeout=800, heap="8g"):
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = JAVA[:1] + ["-Xmx" + heap] + JAVA[1:] + [
        "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
        "-config", cfg, *extra, module]
    e = dict(os.environ, **env)
    try:
        r = run(cmd, timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.stdout)
    st = tuple(int(x) for x in m[-1]) if m else None
    return r.stdout, st


def tables(work):
    """The specification's own tables, exported by TLC."""
    f = os.path.join(work, "tables.json")
    out, _ = tlc("Dump.tla", "Dump.cfg", {"DUMP_FILE": f}, work, workers=1)
    if not os.path.exists(f):
        raise ToolError("exporting the tables failed:\n" + out[-3000:])
    return json.load(open(f))


# ---------------------------------------------------------- known findings

def findings():
    """(kind, tag, property, text) of known_findings.txt"""
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        m = re.match(r"known: (\S+) property=(\S+) (.*)", line)
        if m:
            out.append((m.group(1), m.group(2), m.group(3)))
    return out


# ------------------------------------------------------- trace validation

def one_cpu():
    """Keeps the recording on one CPU: each has its own identity."""
    try:
        os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[-1]})
    except OSError:
        pass


def follow(cmd, out, pre=None):
    """Runs the driver; returns (exit code, what it said), with None as the exit
    code if a case does not end: a minute of computing, or three of waiting,
    without a new trace."""
    def used():
        try:
            t = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
            return (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0
    with tempfile.TemporaryFile("w+", errors="replace") as err:
        p = subprocess.Popen(cmd, preexec_fn=pre, stdout=subprocess.DEVNULL, stderr=err)
        size, since, cpu = -1, time.time(), 0
        while True:
            try:
                rc = p.wait(1)
                break
            except subprocess.TimeoutExpired:
                pass
            now = os.path.getsize(out) if os.path.exists(out) else 0
            if now != size:
                size, since, cpu = now, time.time(), used()
            elif time.time() - since > 180 or used() - cpu > (60 if pre else 240):
                p.kill()
                p.wait()
                rc = None
                break
        err.seek(0)
        return rc, err.read()


def record(binary, cases, work, tag, threads=()):
    """Runs the real code on the cases (so many at a time, and so often, if threads); returns
    (trace file, ids that never ended)."""
    cf, tf = os.path.join(work, tag + ".cases"), os.path.join(work, tag + ".traces")
    with open(cf, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    todo, lost = cases, []
    open(tf, "w").close()
    while todo:
        part = tf + ".part"
        why = None
        how, more = ("threads", [str(x) for x in threads]) if threads else ("run", [])
        rc, said = follow([binary, how, cf, part] + more, part, None if threads else one_cpu)
        if rc == 2 and "tool error" in said:
            raise ToolError(said)
        if rc is None:
            why = "the call did not return"
        elif rc != 0:
            why = "the process died (%d) %s" % (rc, said[-300:])
        done = [l for l in open(part, errors="replace") if l.endswith("\n")]
        with open(tf, "a") as f:
            f.writelines(done)
        os.remove(part)
        if why is None:
            if len(done) != len(todo):
                raise ToolError("the driver lost cases")
            break
        lost.append((todo[len(done)], why))
        todo = todo[len(done) + (threads[0] if threads else 1):]
        if len(lost) >= 3:
            break
        with open(cf, "w") as f:
            for c in todo:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
    return tf, lost


def corrupt(rng, trace):
    """A copy of a trace in which one returned value is wrong; None if there is
    nothing to corrupt."""
    t = json.loads(json.dumps(trace))
    spots = [(i, j) for i, e in enumerate(t["ev"]) if e["op"] in ("read", "next")
             for j, v in enumerate(e["r"]) if v and v not in ([-1], [-2])]
    if not spots:
        spots = [(i, 0) for i, e in enumerate(t["ev"]) if e["op"] in ("get", "sub") and e["r"]]
        if not spots:
            return None
        i, j = rng.choice(spots)
        t["ev"] = t["ev"][:i + 1]
        t["ev"][i]["r"] = [[1 - t["ev"][i]["r"][0][0]]]
    else:
        i, j = rng.choice(spots)
        t["ev"] = t["ev"][:i + 1]
        v = t["ev"][i]["r"][j]
        v[rng.randrange(len(v))] += 70000      # no limb, flag, tag or byte is that large
    t["id"] = "CORRUPT-" + t["id"]
    return t


def corrupt_mode(rng, trace, mode):
    if mode == "full":
        return corrupt(rng, trace)
    t = json.loads(json.dumps(trace))
    if not t["ev"]:
        return None
    i = rng.randrange(len(t["ev"]))
    t["ev"] = t["ev"][:i + 1]
    if mode == "total":
        t["ev"][i]["r"] = [[-1]]
        if t["ev"][i]["op"] in ("dbg", "dbgid", "read"):
            return None                          # may be a known finding
    else:
        if t["ev"][i]["op"] == "mig" or any(m["L0"][0][1] >= 0x4fff for m in t["m"] if "L0" in m):
            return None
        t["ev"][i]["rd"] = t["ev"][i]["rd"] + [[0x1234, 0x4fff]]
    t["id"] = "CORRUPT-" + t["id"]
    return t


def validate(tf, meta, mode, known, work, rng, module="Trace", bits=64):
    """TLC's verdict on the traces."""
    lines = open(tf).read().splitlines()
    sizes, chunk, chunks = 0, [], []
    for l in lines:
        chunk.append(l)
        sizes += len(l)
        if sizes > 40 << 20:
            chunks.append(chunk)
            chunk, sizes = [], 0
    if chunk:
        chunks.append(chunk)
    res = {"states": 0, "generated": 0, "mismatch": [], "known": {}, "corrupt": 0, "traces": 0, "events": 0}
    for chunk in chunks:
        traces = [json.loads(l) for l in chunk]
        bad = []
        for t in rng.sample(traces, min(6, len(traces))):
            b = corrupt_mode(rng, t, mode) if module == "Trace" else report.corrupt(rng, t)
            if b:
                bad.append(b)
        part = os.path.join(work, "chunk.traces")
        with open(part, "w") as f:
            for l in chunk:
                f.write(l + "\n")
            for b in bad:
                f.write(json.dumps(b) + "\n")
        cfg = os.path.join(work, "trace.json")
        json.dump({"mode": mode, "known": known, "bits": bits}, open(cfg, "w"))
        out, st = tlc(module + ".tla", module + ".cfg",
                      {"TRACE_FILE": part, "TRACE_CFG": cfg, "META_FILE": meta}, work)
        os.remove(part)
        if st is None or "Error:" in out:
            raise ToolError("TLC failed:\n" + "\n".join(l for l in out.splitlines()
                                                        if not l.startswith('"') and not l.startswith(("Parsing", "Semantic")))[-4000:])
        if st[2] != 0:
            raise ToolError("TLC stopped early")
        mism, caught = [], set()
        for l in out.splitlines():
            if l.startswith('"MISMATCH '):
                d = json.loads(json.loads(l)[len("MISMATCH "):])
                if d[0].startswith("CORRUPT-"):
                    caught.add(d[0])
                elif d not in mism:
                    mism.append(d)
            elif l.startswith('"KNOWN '):
                d = json.loads(json.loads(l)[len("KNOWN "):])
                res["known"].setdefault(d[0], set()).add(d[1])
        want = sum(len(t["ev"]) + 1 for t in traces + bad)
        res["states"] += st[1]
        res["generated"] += st[0]
        res["traces"] += len(traces)
        res["events"] += sum(len(t["ev"]) for t in traces)
        res["mismatch"] += mism
        res["corrupt"] += len(bad)
        if not mism:
            # a rejected corrupted trace ends with its last event: nothing is missing
            if st[1] != want:
                raise ToolError("trace validation consumed %d of %d states" % (st[1], want))
            if caught != {b["id"] for b in bad}:
                raise ToolError("a corrupted trace was accepted: %s" %
                                sorted({b["id"] for b in bad} - caught))
    return res


# ------------------------------------------------------------ model checks

def types_of(cases, tab):
    """The types of the views that the cases look at."""
    out = set()
    item = {"cache_parameters": "CacheParameter", "extended_topology_info": "ExtendedTopologyLevel",
            "extended_topology_info_v2": "ExtendedTopologyLevel",
            "deterministic_address_translation_info": "DatInfo",
            "extended_cpu_topology": "ExtendedCpuTopologyLevel", "sgx_info": "EpcSection",
            "extended_state_info": "ExtendedState", "soc_vendor_info": "CpuIdRaw"}
    subs = {q: d["t"] for t in tab["queries"].values() for q, d in t.items() if d["t"] != "iter"}
    for c in cases:
        for o in c.get("ops", []):
            if "g" in o:
                if o["g"] in tab["views"]:
                    out.add(tab["views"][o["g"]]["t"])
                if o["g"] in item:
                    out.add(item[o["g"]])
            if o.get("q") in subs:
                out.add(subs[o["q"]])
    return sorted(out)


def model_check(name, tier, work, types):
    """Checks spec/MC_<name>.tla; returns (distinct states, generated)."""
    tf = os.path.join(work, "types.json")
    json.dump(types, open(tf, "w"))
    cfg = "MC_%s.cfg" % name
    if tier == "thorough" and os.path.exists(os.path.join(SPEC, "MC_%s_deep.cfg" % name)):
        cfg = "MC_%s_deep.cfg" % name
    out, st = tlc("MC_%s.tla" % name, cfg, {"MC_TYPES": tf}, work, timeout=850)
    if "No error has been found" not in out or st is None:
        raise ToolError("model check %s failed:\n%s" % (name, out[-5000:]))
    return st[1], st[0]


# ------------------------------------------------------------------- main

def write_replay(pid, case, what, driver):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, pid + ".json")
    json.dump({"property": pid, "what": what, "case": case,
               "how": "write the case as one line of a file and run: .build/target-%s/debug/%s run FILE%s" %
                      (driver, BINARY[driver], " OUT" if driver == "harness" else "")}, open(f, "w"))
    return f


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    import core
    import props
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(work)
    try:
        rc = check(pid, tier, seed, t0, core, props, work)
    except ToolError as e:
        log("check %s could not decide: %s" % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, t0, core, props, work):
    gen, mode, mcs = props.PROPS[pid][:3]
    driver = props.PROPS[pid][3] if len(props.PROPS[pid]) > 3 else "harness"
    tag_of = {t: (p, text) for t, p, text in findings()}

    binary = os.path.join(cargo_build(driver), BINARY[driver])
    if pid == "P34":
        os.environ["CPUID_BIN"] = program_build()
    builds = {"": binary}
    if pid == "P36":
        try:
            builds = {"": os.path.join(cargo_build(driver, ("--features", "threads")), BINARY[driver])}
        except ToolError as e:
            if "E0277" not in str(e):
                raise
            # an object can no longer be shared by threads
            log(str(e)[-1500:])
            print("VIOLATION property=%s replay=%s" % (pid, write_replay(pid, {"id": "build"}, str(e)[-1500:], driver)),
                  flush=True)
            return 1
    if pid == "P35":
        for name, (extra, out) in VARIANTS.items():
            builds[name] = os.path.join(cargo_build(driver, extra, out), BINARY[driver])
    meta = os.path.join(work, "meta.json")
    if driver == "harness":
        with open(meta, "w") as f:
            f.write(subprocess.run([binary, "meta"], stdout=subprocess.PIPE, text=True, check=True).stdout)
    tab = tables(work)
    log("%s: built, %.1fs" % (pid, time.time() - t0))

    base = json.load(open(os.path.join(HERE, "gen", "base_literals.json")))
    ctx = core.Ctx(tab, seed * 1000003 + int(pid[1:]), tier, REPO, base)
    ctx.work, ctx.tlc = work, tlc
    # can CPUID instructions be simulated on this machine?
    if pid == "P34":
        ctx.sim = sim_library()
        os.environ["CPUSIM_LIB"] = ctx.sim or ""
    elif driver == "harness":
        ctx.sim = run([binary, "sim"], 60).stdout.strip() == "true"
    module = props.PROPS[pid][4] if len(props.PROPS[pid]) > 4 else "Trace"
    narrowed = states = gens = ntr = nev = ncor = 0
    known, violation, samples, machines = {}, None, [], 0
    cases = list(gen(ctx))
    mc = {}
    for name in mcs:
        mc[name] = model_check(name, tier, work, types_of(cases, tab))
        log("%s: model check %s: %d states, %.1fs" % (pid, name, mc[name][0], time.time() - t0))
    STEP = 4000
    parts = [(lo, name) for lo in range(0, len(cases), STEP) for name in builds]
    small, narrow = [], None
    if pid == "P35":
        small = list(props.gen_small(ctx))
        narrow = interpreter(driver)
        if narrow:
            parts.insert(0, (0, "32 bits"))
    for lo, name in parts:
        part = small if name == "32 bits" else cases[lo:lo + STEP]
        machines += sum(len(c.get("m", [])) for c in part)
        if pid == "P36":
            tf, lost = record(builds[name], part, work, "t", (props.THREADS, ctx.k(40, 400)))
        elif name == "32 bits":
            tf, lost = (None, [(part[0], narrow)]) if isinstance(narrow, str) else interpret(narrow, part, work, ctx.k(60, 300))
        else:
            tf, lost = (record if driver == "harness" else report.record)(builds[name], part, work, "t")
        if lost:
            violation = (lost[0][0], lost[0][1])
        else:
            res = validate(tf, meta, mode, sorted(tag_of), work, ctx.rng, module, 32 if name == "32 bits" else 64)
            narrowed += res["traces"] if name == "32 bits" else 0
            states += res["states"]
            gens += res["generated"]
            ntr += res["traces"]
            nev += res["events"]
            ncor += res["corrupt"]
            for k, v in res["known"].items():
                known.setdefault(k, set()).update(v)
            if res["mismatch"]:
                d = res["mismatch"][0]
                byid = {c["id"]: c for c in part}
                violation = (byid.get(d[0]), d)
                for d in res["mismatch"][:5]:
                    log("%s: mismatch in %s at call %s (%s %s): %s" % (pid, d[0], d[1], d[2], d[3],
                                                                        json.dumps(d[4:])[:500]))
        if violation:
            if name:
                violation = (violation[0], [name, violation[1]])
            break
        if tier == "thorough" and time.time() - t0 > 780:
            break
        log("%s: validated %d traces%s, %.1fs" % (pid, ntr, name and " (%s)" % name, time.time() - t0))
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        samples.append({"id": c["id"], "machines": len(c.get("m", [])), "ops": c.get("ops", [c.get("what")])[:6]})

    for tag, (p, text) in sorted(tag_of.items()):
        if p == pid and tag in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, tag, text), flush=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states + sum(x[0] for x in mc.values()),
            "transitions": gens + sum(x[1] for x in mc.values()),
            "traces_validated_against_impl": ntr,
            "calls_validated": nev,
            "register_tables": machines,
            "corrupted_traces_rejected": ncor,
            "model_checks": {k: {"distinct_states": v[0], "generated": v[1]} for k, v in mc.items()},
            "cases_generated": len(cases),
            "model_transitions_replayed": ctx.walked,
            "mode": mode,
            **({"traces_of_32_bit_build": narrowed} if pid == "P35" else {}),
            "native_instruction": "simulated" if ctx.sim else "this machine's",
            "samples": samples,
        },
        "assumptions": [
            "the CPU is what the reader (or the instruction) returns",
            "the tables of spec/Fields.tla transcribe the vendor manuals correctly",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if violation:
        f = write_replay(pid, violation[0], violation[1], driver)
        print("VIOLATION property=%s replay=%s" % (pid, f), flush=True)
        return 1
    return 0


if __name__ == "__main__":
    main()
