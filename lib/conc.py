"""Concurrent driver: building, exploring, histories and access logs."""
import concurrent.futures as cf
import json
import os
import subprocess

import pcv

WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_mutex_clocklock", "pthread_mutex_unlock",
        "pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock",
        "sched_yield", "nanosleep", "clock_nanosleep", "pthread_once", "memcpy", "memmove", "memset", "memcmp", "bcmp",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"]


SP = ["_ZNSt10_Sp_lockerC1EPKv", "_ZNSt10_Sp_lockerC1EPKvS1_", "_ZNSt10_Sp_lockerD1Ev", "syscall"]


def build(std="c++11", name="conc", parts=("core",), ops=("concops.cc",), link=(), more=(), optional=False):
    """The library and the operations get the access instrumentation; its runtime
    is concrt.cc, so the link does without -fsanitize. optional: None if the
    link fails."""
    out = os.path.join(pcv.scratch(), "%s-%s.d" % (name, std))
    os.makedirs(out, exist_ok=True)
    jobs = []
    inc = pcv.include_flags()
    tsan = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-D_GLIBCXX_ASSERTIONS", *more]
    mine = [os.path.join(pcv.DRV, o) for o in ops]
    for s in [x for p in parts for x in pcv.lib_sources(p)] + mine:
        o = os.path.join(out, s.replace("/", "_") + ".o")
        jobs.append((o, ["g++", "-std=" + ("c++17" if s in mine and std == "c++11" else std), "-O1", "-g1", *tsan, "-I" + pcv.DRV, *inc, "-c", s, "-o", o]))
    o = os.path.join(out, "rt.o")
    jobs.append((o, ["g++", "-std=c++17", "-O2", "-g1", "-w", "-fno-builtin", "-I" + pcv.DRV, *inc, "-c", os.path.join(pcv.DRV, "concrt.cc"), "-o", o]))

    def run(j):
        return subprocess.run(j[1], capture_output=True, text=True), j

    with cf.ThreadPoolExecutor(pcv.NCPU) as ex:
        for r, j in ex.map(run, jobs):
            if r.returncode:
                raise pcv.CheckError("compilation failed: %s\n%s" % (" ".join(j[1]), r.stderr[-3000:]))
    exe = os.path.join(pcv.scratch(), "%s-%s" % (name, std))
    r = subprocess.run(["g++", "-no-pie", *[j[0] for j in jobs], "-o", exe, *["-Wl,--wrap=" + w for w in WRAP + SP], "-lpthread", *link],
                       capture_output=True, text=True)
    if r.returncode:
        if optional:
            return None
        raise pcv.CheckError("link failed: " + r.stderr[-3000:])
    return exe


# ---------------------------------------------------------------- programs

class Program:
    """setup, threads (list of lists) and post: calls as for the sequential
    driver; object references are call numbers (setup, threads in order, post)"""

    def __init__(self, setup, threads, post, grid=None, quant=False, q=()):
        self.setup, self.threads, self.post = setup, threads, post
        self.grid = grid or pcv.Grid(0)
        self.quant, self.q = quant, [list(x) for x in q]
        self.calls = list(setup) + [c for t in threads for c in t] + list(post)

    def lines(self, pid, runs, record, max_hist, max_race, seed):
        n = 0
        out = ["program %s" % pid]
        for c in self.setup:
            n += 1
            out.append("setup %d %s" % (n, pcv.call_line(c)))
        for t, cs in enumerate(self.threads, 1):
            for c in cs:
                n += 1
                out.append("t %d %d %s" % (t, n, pcv.call_line(c)))
        for c in self.post:
            n += 1
            out.append("post %d %s" % (n, pcv.call_line(c)))
        out.append("explore %d %d %d %d %d" % (runs, seed, record, max_hist, max_race))
        return out


class Result:
    def __init__(self):
        self.hists, self.races, self.stuck, self.crash, self.uaf, self.done, self.toomany = [], [], None, None, None, None, None


def _batch(exe, programs, ids, opt, timeout):
    res = {i: Result() for i in ids}
    todo = list(ids)
    while todo:
        inp = "\n".join(l for i in todo for l in programs[i].lines(i, opt["runs"], opt["record"], opt["max_hist"], opt["max_race"], pcv.SEED * 1000003 + i)) + "\n"
        hang = False
        try:
            p = subprocess.run([exe], input=inp.encode(), capture_output=True, timeout=timeout)
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as x:
            out, rc, err, hang = x.stdout or b"", -9, b"", True
        cur = None
        for line in out.decode(errors="replace").splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "program" in d:
                cur = int(d["program"])
                res[cur] = Result()
            elif "deadlock" in d or "livelock" in d:
                res[cur].stuck = d
            elif "toomany" in d:
                res[cur].toomany = d
            elif "crash" in d:
                res[cur].crash = d
            elif "uaf" in d:
                res[cur].uaf = d
            elif "h" in d:
                res[cur].hists.append(d)
            elif "race" in d:
                res[cur].races.append(d)
            elif "done" in d:
                res[cur].done = d
        if rc == 0:
            break
        if cur is None:
            raise pcv.CheckError("concurrent driver failed: rc %d %s" % (rc, err[-1000:]))
        r = res[cur]
        if not r.stuck and not r.crash and not r.toomany:
            if hang:
                r.stuck = dict(livelock=1, h=[], res={}, run=dict(id=str(cur), note="the driver did not terminate"))
            else:
                r.crash = dict(crash=rc, run=dict(id=str(cur), note=err.decode(errors="replace")[-500:]))
        todo = todo[todo.index(cur) + 1:]
    return res


def explore(exe, programs, runs, record=0, max_hist=400, max_race=200, timeout=300):
    """explores every program; list of Result"""
    opt = dict(runs=runs, record=record, max_hist=max_hist, max_race=max_race)
    n = min(pcv.NCPU, len(programs))
    groups = [list(range(len(programs)))[k::n] for k in range(n)]
    out = [None] * len(programs)
    with cf.ThreadPoolExecutor(n) as ex:
        for res in ex.map(lambda g: _batch(exe, programs, g, opt, timeout), groups):
            for i, r in res.items():
                out[i] = r
    return out


# ---------------------------------------------------------------- histories

def to_trace(prog, h, res, crash=None):
    """history -> trace of LinTrace (skipped calls disappear)"""
    calls, skip = [], set()
    for i, c in enumerate(prog.calls, 1):
        r = res.get(str(i))
        if r is None:
            calls.append(dict(op="pending", ex="pending"))
            continue
        e = pcv.to_event(c, r, prog.grid)
        if e is None:
            skip.add(i)
            e = dict(op="skip", ex="")
        elif prog.quant and c["op"] == "obs":
            e["r"] = prog.rank(c["v"])
        elif c["op"] == "obs":
            e["r"] = 0
        if prog.quant:
            if c["op"] == "ocollect":
                _quant(prog, [e["res"]] if "res" in e else [])
            elif c["op"] in ("fcollect", "rcollect"):
                _quant(prog, [m["c"] for f in e.get("res", []) for m in f["m"]])
        calls.append(e)
    return dict(calls=calls, h=[x for x in h if x[1] not in skip], quant=prog.quant, q=prog.q)


def _quant(prog, cs):
    for c in cs:
        if "q" in c:
            c["q"] = [[q, prog.rankbits(v)] for q, v in c["q"]]


def _rank(self, v):
    vs = sorted({c["v"] for c in self.calls if c["op"] == "obs"})
    return vs.index(v) + 1 if v in vs else 0


def _rankbits(self, h):
    v = pcv.unbits(h)
    return -1 if v != v else self.rank(v)


Program.rank = _rank
Program.rankbits = _rankbits


def check_linearizable(check, exe, programs, runs, label, max_hist=400):
    """explores the programs and validates every distinct history"""
    results = explore(exe, programs, runs, 0, max_hist, 0)
    traces, src = [], []
    for i, (p, r) in enumerate(zip(programs, results)):
        for d in r.hists:
            traces.append(to_trace(p, d["h"], d["res"]))
            src.append((i, d))
        if r.crash:
            traces.append(dict(calls=[dict(op="crash", ex="crash")], h=[["i", 1], ["r", 1]], quant=False, q=[]))
            src.append((i, r.crash))
        if r.done:
            check.count("schedules_executed", r.done["runs"])
            check.count("scheduling_points", r.done["points"])
            if r.done["histories"] > max_hist:
                check.count("histories_not_validated", r.done["histories"] - max_hist)
        elif r.stuck:
            check.count("programs_cut_short_by_a_stuck_run")
    bad = pcv.validate("LinTrace", traces, name=label.replace(" ", "_"), timeout=850)
    if bad:
        t, l, _ = bad
        i, d = src[t]
        tr = traces[t]
        c = tr["h"][l][1] if 0 <= l < len(tr["h"]) else 0
        check.violation("no order of the calls explains the result of call %d: %s" % (c, json.dumps(tr["calls"][c - 1])[:500] if c else "?"),
                        dict(program=programs[i].lines(i, runs, 0, max_hist, 0, pcv.SEED * 1000003 + i), run=d["run"], history=tr["h"], calls=tr["calls"],
                             how="feed the program to the driver of drivers/conc*.cc; spec/LinTrace.tla rejects this history"))
    check.count("traces_validated_against_impl", len(traces))
    check.count("programs", len(programs))
    for k in (0, len(traces) // 2, len(traces) - 1):
        if traces:
            i, d = src[k]
            check.sample(dict(kind=label, program=programs[i].lines(i, runs, 0, max_hist, 0, 0), history=d.get("h"), run=d["run"]))
    return results


def check_races(check, exe, programs, runs, label, max_race=150):
    results = explore(exe, programs, runs, 1, 0, max_race)
    traces, src = [], []
    for i, (p, r) in enumerate(zip(programs, results)):
        for d in r.races:
            traces.append(dict(log=d["race"]))
            src.append((i, d))
        if r.uaf:
            traces.append(dict(log=[[1, "X", 0, 0]]))
            src.append((i, r.uaf))
        if r.crash:
            traces.append(dict(log=[[1, "X", 0, 0]]))
            src.append((i, r.crash))
        if r.done:
            check.count("schedules_executed", r.done["runs"])
            check.count("scheduling_points", r.done["points"])
            check.count("distinct_access_logs", r.done["logs"])
    check.count("access_events", sum(len(t["log"]) for t in traces))
    bad = pcv.validate("Race", traces, name=label.replace(" ", "_"), timeout=850)
    if bad:
        t, l, r = bad
        i, d = src[t]
        n = r.alias.get("l", 0)
        log = traces[t]["log"]
        e = log[n - 1] if 0 < n <= len(log) else None
        check.violation("conflicting accesses are not ordered by synchronization, or released memory is accessed: event %s %s of program %s" % (
            n, e, " | ".join(programs[i].lines(i, runs, 1, 0, max_race, 0)[1:-1])),
            dict(program=programs[i].lines(i, runs, 1, 0, max_race, pcv.SEED * 1000003 + i), run=d["run"], log=log, event=n,
                 how="feed the program to the driver of drivers/conc*.cc; spec/Race.tla rejects event %d of this access log" % n))
    check.count("traces_validated_against_impl", len(traces))
    check.count("programs", len(programs))
    for k in (0, len(traces) // 2, len(traces) - 1):
        if traces:
            i, d = src[k]
            check.sample(dict(kind=label, program=programs[i].lines(i, runs, 1, 0, max_race, 0), log=traces[k]["log"][:60], run=d["run"]))
    return results
