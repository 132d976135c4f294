#!/usr/bin/env python3
"""Check one property: model check the specification, replay its behaviours on the real
code and validate the recorded traces against the specification.

  check.py Cxx [--thorough]    tier from VERIF_TIER (quick|thorough) if not given, seed from VERIF_SEED
  check.py Cxx --replay FILE   re-run one recorded session on the current tree

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: error."""
import collections
import concurrent.futures as cf
import json
import os
import queue
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
HANG_S = 25

EXPR, NUM = ("Enum", "Sess"), ("NumEnum", "NumSess")
# property: list of (enumeration module, session module); quick (sessions, steps); thorough
PLAN = {
    "C01": ([EXPR], (1200, 10), (6000, 14)),
    "C02": ([EXPR], (1200, 10), (6000, 14)),
    "C03": ([NUM], (2500, 30), (20000, 40)),
    "C04": ([NUM], (2000, 30), (15000, 40)),
    "C05": ([NUM, EXPR], (1200, 12), (6000, 20)),
    "C06": ([NUM], (2000, 25), (12000, 40)),
    "C07": ([EXPR], (900, 8), (4000, 10)),
    "C08": ([EXPR], (1200, 8), (5000, 10)),
    "C09": ([EXPR], (900, 10), (6000, 14)),
    "C10": ([EXPR], (1200, 10), (6000, 14)),
    "C11": ([EXPR], (700, 5), (2400, 6)),
    "C12": ([EXPR], (560, 5), (2400, 6)),
    "C13": ([EXPR], (900, 6), (5000, 8)),
    "C14": ([NUM], (1000, 10), (5000, 12)),
    "C15": ([EXPR], (900, 6), (5000, 8)),
    "C16": ([EXPR], (1200, 10), (5000, 14)),
    "C17": ([EXPR], (1500, 24), (6000, 40)),
    "C18": ([EXPR], (1000, 8), (4000, 12)),
    "C19": ([NUM, EXPR], (500, 10), (4000, 14)),
    "C20": ([EXPR], (1200, 6), (5000, 8)),
    "C21": ([EXPR], (1000, 10), (5000, 14)),
}


class ToolError(Exception):
    pass


class TlcTimeout(ToolError):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.big = "2" if self.tier == "thorough" else "1"
        self.dir = os.path.join(HERE, "build", "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.error = None
        self.cov = collections.OrderedDict()

    def log(self, *a):
        print("[%6.1f] " % (time.time() - self.t0), *a, flush=True)


def build_java(c):
    out = os.path.join(c.dir, "java")
    os.makedirs(out)
    src = [os.path.join(HERE, "java", f) for f in sorted(os.listdir(os.path.join(HERE, "java")))]
    p = subprocess.run(["javac", "-encoding", "UTF-8", "-cp", TLA, "-d", out] + src, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("javac: " + p.stderr)
    c.cp = ":".join([out, TLA, CM])


def build_harness(c):
    tgt = os.path.join(c.dir, "target")
    env = dict(os.environ, RUSTFLAGS="--cfg verif_hooks", CARGO_TARGET_DIR=tgt,
               VERIF_HARNESS=os.path.join(HERE, "harness", "harness.rs"))
    p = subprocess.run(["cargo", "build", "--locked", "--offline", "--quiet"], cwd=REPO, env=env,
                       capture_output=True, text=True)
    if p.returncode:
        raise ToolError("cargo build with hooks failed:\n" + p.stderr[-4000:])
    c.bin = os.path.join(c.dir, "harness_bin")
    shutil.copy2(os.path.join(tgt, "debug", "symbolic_rust"), c.bin)
    shutil.rmtree(tgt, ignore_errors=True)


def source_words(c):
    """Literals of the code under test, as material for sampled inputs: special cases in the code are
    often guarded by them.  They choose what is tried, never what is accepted."""
    ints, reals, names = set(), set(), set()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            s = re.sub(r"//[^\n]*", " ", re.sub(r"/\*.*?\*/", " ", s, flags=re.S))
            s = s.split("#[cfg(test)]")[0]
            names |= {w for w in re.findall(r'"((?:[^"\\\n]|\\.)*)"', s) if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{0,11}", w)}
            names |= set(re.findall(r"'([A-Za-z_])'", s))
            s = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", s)
            for w in re.findall(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)", s):
                reals.add(float(w.replace("_", "")))
            for w in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])", s):
                w = w.replace("_", "")
                if len(w) <= 20:
                    ints.add(int(w, 16) if w.startswith("0x") else int(w))
    big = [n for n in sorted(ints) if n > 2]
    near = sorted({m for n in big for m in (n - 1, n, n + 1)})[:60]
    fit = [n for n in near if n < 2 ** 63]
    flo = sorted(x for x in reals if 1e-30 < abs(x) < 1e30 and x not in (0.5, 1.0, 2.0))[:40]
    d = {"ints": [str(n) for n in fit] + [str(-n) for n in fit],
         "pos": [str(n) for n in fit if n > 0],
         "sizes": [n for n in near if 5 < n <= 450],
         "reals": [repr(x) for x in sorted({y for x in flo for y in (x, -x, x * 0.875, x * 1.125)})],
         "names": sorted(names)[:40]}
    c.dict = os.path.join(c.dir, "dict.json")
    with open(c.dict, "w", encoding="utf-8") as f:
        f.write(json.dumps(d) + "\n")


def tlc(c, module, name, workers, env, xmx="3g", timeout=3000):
    meta = os.path.join(c.dir, "meta-" + name)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss96m",
           "-XX:TieredStopAtLevel=4", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           "-Djava.io.tmpdir=" + c.dir, "-cp", c.cp, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", module + ".cfg", module + ".tla"]
    e = dict(os.environ, V_PROP=c.prop, V_BIG=c.big, V_DICT=c.dict, **env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "spec"), env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcTimeout("TLC timed out on " + name)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    with open(os.path.join(c.dir, name + ".out"), "w") as f:
        f.write(out)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if "Model checking completed. No error has been found." not in out or not m:
        tail = "\n".join(x for x in out.splitlines() if not x.startswith(('"', "Parsing ", "Semantic processing")))[-3000:]
        raise ToolError("TLC failed on %s:\n%s" % (name, tail))
    return out, int(m.group(1)), int(m.group(2))


def printed(out, tag):
    pre = '"' + tag + "|"
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            yield line[len(pre):-1].replace('\\"', '"').replace("\\\\", "\\")


def sessions_of(out):
    """'SESS|key|cmd|cmd...' lines, in a deterministic order."""
    r = []
    for x in printed(out, "SESS"):
        p = x.split("|")
        r.append((int(p[0]), p[1:]))
    r.sort()
    return [cmds for _, cmds in r if cmds]


def generate(c):
    mods, quick, thorough = PLAN[c.prop]
    n, steps = thorough if c.tier == "thorough" else quick
    jobs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for enum, sess in mods:
            jobs.append((enum, "exhaustive", ex.submit(tlc, c, enum, enum, 4, {"V_SEED": str(c.seed)})))
            parts = NPROC - 2 if c.tier == "quick" else 2 * NPROC
            for i in range(parts):
                lo, hi = n * i // parts + 1, n * (i + 1) // parts
                if hi >= lo:
                    jobs.append((sess, "sampled", ex.submit(
                        tlc, c, sess, "%s-%d" % (sess, i), 1,
                        {"V_SEED": str(c.seed), "V_LO": str(lo), "V_HI": str(hi), "V_STEPS": str(steps)},
                        timeout=300 if c.tier == "quick" else 3000)))
    sess, st, tr = [], collections.Counter(), collections.Counter()
    per = collections.Counter()
    skipped = 0
    for mod, kind, j in jobs:
        try:
            out, gen, dist = j.result()
        except TlcTimeout as e:  # a part that takes too long on this machine: the others still count
            if kind != "sampled":
                raise
            c.log(e)
            skipped += 1
            continue
        got = sessions_of(out)
        if not got:
            raise ToolError("no behaviours from " + mod)
        sess += [(kind, g) for g in got]
        st[mod] += dist
        tr[mod] += gen
        per[kind] += len(got)
    c.cov["states"] = sum(st.values())
    c.cov["transitions"] = sum(tr.values())
    c.cov["model_states_by_module"] = dict(st)
    c.cov["behaviours"] = dict(per)
    c.cov["sampled_parts_over_time"] = skipped
    if not per["sampled"]:
        raise ToolError("no sampled part finished in time")
    return sess


def unpct(w):
    if w.endswith("%"):  # marks an empty name
        w = w[:-1]
    b = bytearray()
    i = 0
    s = w.encode()
    while i < len(s):
        if s[i:i + 1] == b"%":
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b.append(s[i])
            i += 1
    return b.decode()


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_part(c, sess):
    """Run sessions on the real code; returns a list of per-session event lines."""
    out = [[] for _ in sess]
    i, crashes, hangs = 0, 0, 0
    while i < len(sess):
        flat = [(k, w) for k in range(i, len(sess)) for w in ["new"] + sess[k]]
        env = {"PATH": os.environ.get("PATH", ""), "RUST_BACKTRACE": "0"}
        p = subprocess.Popen([c.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=env, cwd=c.dir, preexec_fn=limit_mem)
        q = queue.Queue()

        def feed():
            try:
                p.stdin.write(("\n".join(w for _, w in flat) + "\n").encode())
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass

        def read():
            for line in p.stdout:
                q.put(line)
            q.put(None)

        threading.Thread(target=feed, daemon=True).start()
        threading.Thread(target=read, daemon=True).start()
        done, fate = 0, None
        while done < len(flat):
            try:
                line = q.get(timeout=HANG_S)
            except queue.Empty:
                fate = "hang"
                break
            if line is None or not line.endswith(b"}\n"):
                fate = "abort"
                break
            out[flat[done][0]].append(line.decode())
            done += 1
        p.kill()
        p.wait()
        if fate is None:
            break
        k, w = flat[done]
        out[k].append(json.dumps({"cmd": [unpct(x) for x in w.split()], "st": fate}, ensure_ascii=False) + "\n")
        crashes += 1
        hangs += fate == "hang"
        i = k + 1
        if hangs >= 3 or crashes >= 40:
            break
    return out


def run_main(c):
    """The example program itself (the binary's own main)."""
    ev = {"cmd": ["main"], "st": "abort", "lines": []}
    try:
        p = subprocess.run([c.bin], env={"VERIF_RUN_MAIN": "1", "PATH": ""}, stdin=subprocess.DEVNULL,
                           capture_output=True, timeout=HANG_S, cwd=c.dir, preexec_fn=limit_mem)
        ev["st"] = "ok" if p.returncode == 0 else "panic"
        ev["lines"] = [list(x) for x in p.stdout.decode("utf-8", "replace").splitlines() if x]
    except subprocess.TimeoutExpired:
        ev["st"] = "hang"
    return [json.dumps({"cmd": ["new"], "st": "ok"}) + "\n", json.dumps(ev, ensure_ascii=False) + "\n"]


def two_passes(cmds):
    """Blocks of calls (C19): a second pass makes the same calls, blocks in reverse order."""
    if "again" in cmds:
        return cmds
    blocks = [[]]
    for x in cmds:
        if x == "blk":
            blocks.append([])
        else:
            blocks[-1].append(x)
    return sum(blocks, []) + ["again"] + sum(reversed(blocks), [])


def replay(c, sess):
    if not any("again" in s for _, s in sess):
        return [t for t in replay_all(c, sess) if t[1]]
    # the second passes run in other processes, the sessions in reverse order as well
    cut = [(kind, s.index("again") if "again" in s else len(s), s) for kind, s in sess]
    one = replay_all(c, [(kind, s[:i]) for kind, i, s in cut])
    two = replay_all(c, [(kind, s[i + 1:]) for kind, i, s in reversed(cut)])
    two.reverse()
    again = json.dumps({"cmd": ["again"], "st": "ok"}) + "\n"
    return [(kind, e + ([again] + f[1:] if f else [])) for (kind, e), (_, f) in zip(one, two) if e]


def replay_all(c, sess):
    parts = [list(range(i, len(sess), NPROC)) for i in range(NPROC)]
    parts = [p for p in parts if p]
    ev = [None] * len(sess)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for p, r in zip(parts, ex.map(lambda p: replay_part(c, [sess[k][1] for k in p]), parts)):
            for k, e in zip(p, r):
                ev[k] = e
    return [(sess[k][0], e) for k, e in enumerate(ev)]


def validate(c, traces):
    """traces: list of (kind, event lines).  Returns [(trace index, event index)] not allowed."""
    order = sorted(range(len(traces)), key=lambda k: -sum(len(x) for x in traces[k][1]))
    nparts = min(NPROC if c.tier == "quick" else 4 * NPROC, len(traces))
    load, parts = [0] * nparts, [[] for _ in range(nparts)]
    for k in order:
        j = load.index(min(load))
        parts[j].append(k)
        load[j] += sum(200 + len(x) for x in traces[k][1])
    bad, errors = [], []

    def some(name, ks):
        """Validate the sessions ks in one TLC run.  Where TLC cannot evaluate a session, find it by
        bisection: it is an error of the machinery, but what the other sessions show still counts."""
        path = os.path.join(c.dir, name + ".ndjson")
        where = []
        with open(path, "w", encoding="utf-8") as f:
            for k in ks:
                for x, line in enumerate(traces[k][1]):
                    f.write(line)
                    where.append((k, x))
        try:
            out, gen, dist = tlc(c, "Trace", name, 1, {"V_TRACE": path})
            if dist != len(where) + len(ks):
                raise ToolError("trace not fully consumed: %d states for %d events" % (dist, len(where)))
            return [where[int(x) - 1] for x in printed(out, "BAD")], dist
        except ToolError as e:
            errors.append((len(ks), ks, e))
            if len(ks) == 1 or len(errors) > 40:
                return [], 0
            h = len(ks) // 2
            a, b = some(name + "a", ks[:h]), some(name + "b", ks[h:])
            return a[0] + b[0], a[1] + b[1]
        finally:
            os.unlink(path)

    def one(j):
        return some("trace-%d" % j, sorted(parts[j]))

    ts = 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, d in ex.map(one, range(nparts)):
            bad += r
            ts += d
    c.cov["trace_states"] = ts
    if errors:
        size, ks, e = min(errors, key=lambda z: z[0])
        c.log("validation failed in TLC, smallest set %d sessions: %s" % (size, " | ".join(self_contained(traces[ks[0]][1], len(traces[ks[0]][1])))[:1500]))
        c.error = e
    return sorted(bad)


def words(line):
    return json.loads(line)["cmd"]


def load_known(c):
    """committed findings: lines 'known: property=Cxx cmds=<commands joined by |>'"""
    r = set()
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(C\d+) cmds=(.*)$", line.strip())
            if m and m.group(1) == c.prop:
                r.add(m.group(2))
    return r


def self_contained(evs, x):
    """the commands of the session up to event x"""
    return [" ".join(x or "%" for x in words(e)) for e in evs[1:x + 1]]


def setup():
    """The checks build what they need themselves; this only makes sure that they can."""
    c = Ctx("setup")
    try:
        build_java(c)
        build_harness(c)
        print("setup ok")
        return 0
    except ToolError as e:
        print("ERROR:", e)
        return 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    if prop not in PLAN:
        print("unknown property", prop)
        return 2
    c = Ctx(prop)
    try:
        return run(c)
    except ToolError as e:
        print("ERROR:", e, flush=True)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)


def run(c):
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(build_harness, c)
        build_java(c)
        source_words(c)
        if "--replay" in sys.argv:
            sess = [("replay", json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["commands"])]
        else:
            sess = generate(c)
        b.result()
    if c.prop == "C19":
        sess = [(kind, two_passes(s)) for kind, s in sess]
    known = load_known(c)
    sess += [("known", k.split("|")) for k in known]
    c.log("%d behaviours generated from the specification (%s states)" % (len(sess), c.cov.get("states")))
    traces = replay(c, sess)
    if c.prop == "C12" and "--replay" not in sys.argv:
        traces.append(("program output", run_main(c)))
    nev = sum(len(t[1]) for t in traces)
    c.log("%d sessions, %d events recorded from the real code" % (len(traces), nev))
    bad = validate(c, traces)
    c.log("trace validation finished, %d events not allowed" % len(bad))

    cmds, sts = collections.Counter(), collections.Counter()
    for _, evs in traces:
        for e in evs:
            d = json.loads(e)
            cmds[d["cmd"][0]] += 1
            sts[d["st"]] += 1
            if d["st"] == "harness":
                raise ToolError("harness could not run " + " ".join(d["cmd"]) + ": " + d.get("msg", ""))
    first = {}
    for k, x in bad:
        first.setdefault(k, x)
    rep, nviol = [], 0
    for k, x in first.items():
        prog = self_contained(traces[k][1], x)
        if "|".join(prog) in known:
            print("KNOWN-FINDING: property=%s %s" % (c.prop, "|".join(prog)))
            continue
        nviol += 1
        rep.append((len(prog), k, x, prog))
    rep.sort(key=lambda z: z[0])
    rdir = os.path.join(HERE, "build", "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, (_, k, x, prog) in enumerate(rep[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (c.prop, i))
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": c.prop, "commands": prog, "event": json.loads(traces[k][1][x])}, f, ensure_ascii=False, indent=1)
        c.log("not allowed:", " | ".join(prog[-6:]), "->", traces[k][1][x].strip()[:1200])
        print("VIOLATION property=%s replay=%s" % (c.prop, path), flush=True)
    if "--replay" not in sys.argv:
        evidence(c, traces, cmds, sts, nviol)
    c.log("done")
    if nviol == 0 and c.error:
        raise c.error
    return 1 if nviol else 0


def evidence(c, traces, cmds, sts, nviol):
    samples = []
    for want in ("exhaustive", "sampled", "program output"):
        got = [t for t in traces if t[0] == want]
        for t in got[len(got) // 2:len(got) // 2 + 2]:
            samples.append({"kind": want, "events": [e.strip()[:600] for e in t[1][:6]]})
    cov = dict(c.cov)
    cov["traces_validated_against_impl"] = len(traces)
    cov["events_validated"] = sum(len(t[1]) for t in traces)
    cov["events_by_call"] = dict(cmds)
    cov["events_by_outcome"] = dict(sts)
    cov["samples"] = samples
    ev = {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["TLC and the module override java/Scalar.java (big rationals, ball arithmetic) are correct",
                          "the harness reports registers faithfully"],
          "wall_s": round(time.time() - c.t0, 1), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", c.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)


if __name__ == "__main__":
    sys.exit(main())
