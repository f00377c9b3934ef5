"""Shared machinery: building the library, running drivers and TLC, verdicts."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PCV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed (neither held nor violated)."""


# --------------------------------------------------------------------------
# scratch directory

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pcv.")
        import atexit
        if not os.environ.get("PCV_KEEP"):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        else:
            print("scratch", _scratch, file=sys.stderr)
    return _scratch


# --------------------------------------------------------------------------
# building

def include_flags():
    d = os.path.join(scratch(), "inc", "prometheus", "detail")
    os.makedirs(d, exist_ok=True)
    for m in ("core", "pull", "push"):
        p = os.path.join(d, m + "_export.h")
        if not os.path.exists(p):
            M = m.upper()
            with open(p, "w") as f:
                f.write("#pragma once\n#define PROMETHEUS_CPP_%s_EXPORT\n"
                        "#define PROMETHEUS_CPP_%s_NO_EXPORT\n" % (M, M))
    fl = ["-I" + os.path.join(scratch(), "inc")]
    for m in ("core", "pull", "push", "util"):
        fl += ["-I%s/%s/include" % (REPO, m), "-I%s/%s/src" % (REPO, m)]
    return fl


def lib_sources(*mods):
    out = []
    for m in mods:
        for p in sorted(glob.glob("%s/%s/src/**/*.cc" % (REPO, m), recursive=True)):
            out.append(p)
    return out


def build(exe, lib_mods, driver_srcs, flags=(), lib_flags=(), drv_flags=(), link=(), std="c++11",
          drv_std="c++17", cxx="g++"):
    """Compiles the library sources of /repo's working tree and a driver."""
    out = os.path.join(scratch(), exe + ".d")
    os.makedirs(out, exist_ok=True)
    jobs = []
    for s in lib_sources(*lib_mods):
        o = os.path.join(out, s.replace("/", "_") + ".o")
        jobs.append((o, [cxx, "-std=" + std, "-DHAVE_ZLIB", *include_flags(), *flags, *lib_flags, "-c", s, "-o", o]))
    for s in driver_srcs:
        p = os.path.join(DRV, s)
        o = os.path.join(out, "drv_" + s.replace("/", "_") + ".o")
        jobs.append((o, [cxx, "-std=" + drv_std, "-DHAVE_ZLIB", "-I" + DRV, *include_flags(), *flags, *drv_flags, "-c", p, "-o", o]))

    def run(j):
        r = subprocess.run(j[1], capture_output=True, text=True)
        return r.returncode, r.stderr, j

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, err, j in ex.map(run, jobs):
            if rc:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(j[1]), err[-3000:]))
    path = os.path.join(scratch(), exe)
    r = subprocess.run([cxx, *flags, *[j[0] for j in jobs], "-o", path, *link, "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("link failed: " + r.stderr[-3000:])
    return path


# --------------------------------------------------------------------------
# TLC

class Tlc:
    def __init__(self):
        self.states = 0      # distinct states
        self.transitions = 0  # generated states
        self.runs = 0

TLC = Tlc()


class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, timeout=600, heap="6g", extra=(), jvm=(), metadir=None):
    """Runs TLC; returns result with .ok, .kind (None/'deadlock'/'invariant'/...),
    .alias (dict of the last printed state), .out."""
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", *jvm,
           "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or NCPU),
           "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s after %ds" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out = p.stdout
    r.wall = time.time() - t0
    r.rc = p.returncode
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", p.stdout):
        pass
    r.transitions = int(m.group(1).replace(",", "")) if m else 0
    r.states = int(m.group(2).replace(",", "")) if m else 0
    if not m:  # simulation
        m = None
        for m in re.finditer(r"Progress[^\n]*?([\d,]+) states checked", p.stdout):
            pass
        m2 = re.search(r"The number of states generated: ([\d,]+)", p.stdout)
        if m2:
            r.transitions = r.states = int(m2.group(1).replace(",", ""))
    TLC.states += r.states
    TLC.transitions += r.transitions
    TLC.runs += 1
    r.kind = None
    if "Deadlock reached" in p.stdout:
        r.kind = "deadlock"
    elif re.search(r"Invariant \S+ is violated|Action property|Temporal propert\w+ [^\n]*violated|is violated by the initial state|Property \S+ is violated", p.stdout):
        r.kind = "property"
    r.ok = p.returncode == 0 and "No error has been found" in p.stdout or (
        p.returncode == 0 and r.kind is None and "-simulate" in extra)
    if not r.ok and r.kind is None:
        lines = [x for x in p.stdout.splitlines() if x.strip() and not x.startswith(("Parsing", "Semantic processing"))]
        raise CheckError("TLC failed on %s (rc %d):\n%s\n%s" % (module, p.returncode, "\n".join(x[:300] for x in lines[:15] + ["..."] + lines[-25:]), p.stderr[-500:]))
    # last printed state (through ALIAS)
    r.alias = {}
    if r.kind:
        blocks = re.split(r"\nState \d+:", p.stdout)
        if len(blocks) > 1:
            for k, v in re.findall(r"/\\ (\w+) = (-?\d+)\n", blocks[-1].split("\n\n")[0] + "\n"):
                r.alias[k] = int(v)
            if not r.alias:
                for k, v in re.findall(r"^(\w+) = (-?\d+)$", blocks[-1], re.M):
                    r.alias[k] = int(v)
        else:
            for k, v in re.findall(r"/\\ (\w+) = (-?\d+)\n", p.stdout):
                r.alias[k] = int(v)
    return r


def design(check, module, cfgs, faulty=(), correct="ok", timeout=850):
    """checks a model of an algorithm; its faulty variants have to violate it"""
    for cfg in cfgs:
        r = tlc(module, cfg, timeout=timeout, heap="16g")
        if not r.ok:
            raise CheckError("the design %s does not satisfy the specification:\n%s" % (cfg, r.out[-3000:]))
        check.count("design_states", r.states)
    base = open(os.path.join(SPEC, cfgs[0])).read()
    for v in faulty:
        p = os.path.join(scratch(), "%s_%s.cfg" % (module, v))
        with open(p, "w") as f:
            f.write(base.replace('Variant = "%s"' % correct, 'Variant = "%s"' % v))
        if tlc(module, p, timeout=timeout).ok:
            raise CheckError("the faulty design %s of %s satisfies the specification" % (v, module))
        check.count("faulty_designs_rejected")


def printed(out, tag):
    """JSON values printed by TLC via PrintT(<<tag, ToJson(x)>>)."""
    res = []
    pre = '<<"%s", "' % tag
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('">>'):
            s = line[len(pre):-3].replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res


# --------------------------------------------------------------------------
# numbers: doubles -> <<tag, hi, lo>>

BASE = 1 << 26


def unbits(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def bits(v):
    return struct.pack(">d", float(v)).hex()


def num_int(i):
    return [0, i // BASE, i % BASE]


class Grid:
    """doubles that are multiples of a unit 2^k"""

    def __init__(self, k=0):
        self.k = k

    def num(self, v):
        if isinstance(v, str):
            v = unbits(v)
        if v != v:
            return [3, 0, 0]
        if v == float("inf"):
            return [1, 0, 0]
        if v == float("-inf"):
            return [2, 0, 0]
        n, d = v.as_integer_ratio()
        if self.k >= 0:
            q = 1 << self.k
            if d != 1 or n % q:
                return [4, 0, 0]
            n //= q
        else:
            q = 1 << -self.k
            if (n * q) % d:
                return [4, 0, 0]
            n = n * q // d
        if abs(n) >= 1 << 54:
            return [4, 0, 0]
        return num_int(n)

    sum = num


class Ranks:
    """doubles mapped order-isomorphically to 1..n; sums are not observed"""

    def __init__(self, values):
        vs = sorted({float(x) for x in values if x == x and abs(x) != float("inf")})
        self.m = {v: i + 1 for i, v in enumerate(vs)}

    def num(self, v):
        if isinstance(v, str):
            v = unbits(v)
        if v != v:
            return [3, 0, 0]
        if v == float("inf"):
            return [1, 0, 0]
        if v == float("-inf"):
            return [2, 0, 0]
        return num_int(self.m[v]) if v in self.m else [4, 0, 0]

    def sum(self, v):
        return [5, 0, 0]


def unhexs(h):
    return list(bytes.fromhex(h))


# --------------------------------------------------------------------------
# the sequential driver

def call_line(c):
    """dict -> command line of seqdrv"""
    t = [c["op"]]
    for k, v in c.items():
        if k == "op":
            continue
        if k in ("name", "help"):
            v = bytes(v).hex()
        elif k == "lab":
            v = ",".join(bytes(a).hex() + ":" + bytes(b).hex() for a, b in v)
            if not v:
                continue
        elif k in ("v", "av"):
            v = bits(v)
        elif k in ("inc", "ab"):
            v = ",".join(bits(x) for x in v)
            if not v:
                continue
        elif k == "aq":
            v = ",".join(bits(x) for qe in v for x in qe)
            if not v:
                continue
        t.append("%s=%s" % (k, v))
    return " ".join(t)


def conv_collected(c, g):
    o = {}
    if "v" in c:
        o["v"] = g.num(c["v"])
    if "n" in c:
        o["n"] = num_int(int(c["n"]))
        o["sum"] = g.sum(c["sum"])
    if "b" in c:
        o["b"] = [[g.num(u), num_int(int(n))] for u, n in c["b"]]
    if "q" in c:
        o["q"] = [[qnum(q), v] for q, v in c["q"]]
    return o


def qnum(h):
    """quantile as number of 1e-6 units, if exact"""
    v = unbits(h) if isinstance(h, str) else h
    r = round(v * 1000000)
    return r if r / 1000000 == v else -1


def conv_fams(fs, g):
    return [dict(name=unhexs(f["name"]), help=unhexs(f["help"]), ty=f["ty"],
                 m=[dict(lab=[[unhexs(a), unhexs(b)] for a, b in m["lab"]], c=conv_collected(m["c"], g))
                    for m in f["m"]]) for f in fs]


def to_event(c, r, g):
    """call (as sent) and result (as printed) -> event for Core!Step"""
    if "crash" in r:
        return dict(op=r["crash"])
    if "skip" in r:
        return None
    e = dict(op=c["op"], ex=r["ex"])
    if r["ex"] == "noid":
        return dict(op="noid")
    op = c["op"]
    if op in ("add", "fremove", "has", "finfo", "fcollect", "rremove"):
        e["f"] = r["f"]
    if op in ("fremove", "inc", "dec", "set", "settime", "reset", "value", "ocollect", "obs", "bulk"):
        e["o"] = r["o"]
    if "r" in c:
        e["r"] = c["r"]
    if op == "newreg":
        e["beh"] = c["beh"]
    if op in ("build", "newfam"):
        e.update(ty=c["ty"], name=list(c.get("name", b"")), help=list(c.get("help", b"")))
    if op == "newobj":
        e["ty"] = c["ty"]
    if op in ("build", "newfam", "add", "has"):
        e["lab"] = [[list(a), list(b)] for a, b in c.get("lab", [])]
    if op in ("add", "newobj"):
        e["a"] = dict(v=g.num(c.get("av", 0.0)), b=[g.num(x) for x in c.get("ab", [])],
                      q=[qnum(q) for q, _ in c.get("aq", [])])
    if op in ("build", "newfam", "add", "newobj"):
        e["id"] = r.get("id", 0)
    if op in ("inc", "dec"):
        e["v"] = g.num(c.get("v", 1.0)) if "v" in c else (g.num(1.0))
    if op in ("set", "obs"):
        e["v"] = g.num(c["v"])
    if op == "bulk":
        e["inc"] = [Grid(0).num(x) for x in c.get("inc", [])]
        e["s"] = g.num(c["v"])
    if op == "settime" and "t0" in r:
        e["cands"] = [g.num(float(t)) for t in range(int(r["t0"]), int(r["t1"]) + 1)]
    if op == "has":
        e["res"] = r.get("res", False)
    if op == "rremove":
        e["res"] = r.get("res", False)
    if op == "value":
        e["res"] = g.num(r["res"]) if "res" in r else [4, 0, 0]
    if op == "ocollect" and "res" in r:
        e["res"] = conv_collected(r["res"], g)
    if op in ("fcollect", "rcollect") and "res" in r:
        e["res"] = conv_fams(r["res"], g)
    if op == "finfo" and "name" in r:
        e["name"] = unhexs(r["name"])
        e["lab"] = [[unhexs(a), unhexs(b)] for a, b in r["lab"]]
    return e


def run_driver(exe, traces, timeout=60, env=None):
    """traces: list of list of command lines. Returns list of list of results
    (dicts); a crash or hang (no output for a while) becomes a final
    {'crash': 'crash'|'hang'} result. After a few of them the rest is not run
    and has no results."""
    results = [[] for _ in traces]
    todo = list(range(len(traces)))
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", **(env or {}))
    budget = 6
    while todo:
        inp = []
        for i in todo:
            inp.append("begin %d" % i)
            inp.extend(traces[i])
        crashed = None
        with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
            fi.write(("\n".join(inp) + "\n").encode())
            fi.seek(0)
            p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=fe, env=e)
            size, since = 0, time.time()
            while crashed is None:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    n = os.fstat(fo.fileno()).st_size
                    if n != size:
                        size, since = n, time.time()
                    elif time.time() - since > timeout:
                        crashed = "hang"
            p.kill()
            p.wait()
            if p.returncode != 0 and not crashed:
                crashed = "crash"
            fo.seek(0)
            fe.seek(0)
            out, err = fo.read().decode(errors="replace"), fe.read().decode(errors="replace")
        cur = None
        for line in out.splitlines():
            if line.startswith("begin "):
                cur = int(line[6:])
            elif cur is not None:
                try:
                    results[cur].append(json.loads(line))
                except ValueError:
                    pass
        if not crashed:
            break
        if cur is None:
            raise CheckError("driver failed before the first trace: " + err[-2000:])
        if len(results[cur]) >= len(traces[cur]) and crashed == "crash" and cur == todo[-1]:
            # failed at exit
            results[cur] = results[cur][:len(traces[cur])]
            results[cur].append(dict(crash="crash", err=err[-3000:]))
            break
        results[cur] = results[cur][:len(traces[cur]) - 1]
        results[cur].append(dict(crash=crashed, err=err[-3000:]))
        todo = todo[todo.index(cur) + 1:]
        if crashed == "hang":
            timeout = 5
            budget -= 2
        budget -= 1
        if budget < 0:
            break
    return results


# --------------------------------------------------------------------------
# verdicts

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.cov = dict(traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violated = 0

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s if len(json.dumps(s)) < 4000 else json.dumps(s)[:4000])

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        self.cov["states"] = TLC.states
        self.cov["transitions"] = TLC.transitions
        self.cov["tlc_runs"] = TLC.runs
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                           level="model_checking", coverage=self.cov, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.t0, 2), violations=self.violated), f, indent=1)
            f.write("\n")

    def violation(self, what, replay):
        """Writes the replay file, the evidence and exits 1."""
        self.violated = 1
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.pid + ".json")
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, what=what, replay=replay), f, indent=1)
            f.write("\n")
        self.evidence()
        print("%s: %s" % (self.pid, what))
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        sys.stdout.flush()
        raise SystemExit(1)

    def passed(self):
        self.evidence()
        c = self.cov
        print("%s held: %d states, %d transitions, %d traces validated, %.1fs" % (
            self.pid, TLC.states, TLC.transitions, c["traces_validated_against_impl"], time.time() - self.t0))


def write_ndjson(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")


def validate(module, traces, cfg=None, env=None, timeout=600, name="traces", workers=None, heap="6g"):
    """traces: list of dicts for the trace module. Returns None or (trace index,
    position, TlcResult)."""
    path = os.path.join(scratch(), "%s_%s.ndjson" % (name, module))
    write_ndjson(path, traces)
    e = dict(TRACES=path)
    e.update(env or {})
    r = tlc(module, cfg, env=e, timeout=timeout, workers=workers, heap=heap)
    if r.ok:
        return None
    return r.alias.get("tr", 0) - 1, r.alias.get("l", 0) - 1, r
