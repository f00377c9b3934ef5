"""Exposer and gateway under controlled schedules: the real code runs on top of
stand-ins for the HTTP server and client libraries, one thread at a time, and
the scheduler of drivers/concrt.cc decides at every access to shared memory
which thread goes on."""
import base64
import json
import random

import conc
import pcv
import pull
import pull_checks as pc

FLAGS = ("-D_GLIBCXX_EXTERN_TEMPLATE=0",)


class Prog:
    """calls: (op, {k: v}); numbered setup, threads in order, post"""

    def __init__(self, setup, threads, post, **info):
        self.setup, self.threads, self.post, self.info = setup, threads, post, info
        self.calls = list(setup) + [c for t in threads for c in t] + list(post)

    def lines(self, pid, runs, record, max_hist, max_race, seed):
        n, out = 0, ["program %s" % pid]
        put = lambda head, c: out.append("%s %d %s %s" % (head, n, c[0], " ".join("%s=%s" % (k, v) for k, v in c[1].items() if k[0] != "_")))
        for c in self.setup:
            n += 1
            put("setup", c)
        for t, cs in enumerate(self.threads, 1):
            for c in cs:
                n += 1
                put("t %d" % t, c)
        for c in self.post:
            n += 1
            put("post", c)
        out.append("explore %d %d %d %d %d" % (runs, seed, record, max_hist, max_race))
        return out


class _Raw(pull.Client):
    """reads a response from memory"""

    def __init__(self, raw):
        self.buf, self.s = raw, self

    def recv(self, n):
        return b""

    def _fill(self):
        return 0


class _Script:
    base, sizes = 0, {1: ("a", 3), 2: ("a", 3)}


def pull_events(p, h, res, end):
    """history -> log for ExposerConc; None: the program uses something the stand-in lacks"""
    ev = []
    for x in h:
        if isinstance(x, dict):
            if x["ev"] == "unsupported":
                return None
            ev.append(x)
            continue
        k, n = x
        op, a = p.calls[n - 1]
        r = res.get(str(n), {})
        if op == "new":
            continue
        if op == "get":
            q = a["_q"]
            if k == "i":
                ev.append(dict(ev="req", q=q, path=a["uri"], u=a["_u"], slow=False))
            else:
                x = _Raw(bytes.fromhex(r.get("raw", "")))
                s = x.read() if x.buf else pull.Response()
                y = pc.reading(_Script, s)
                ev.append(dict(ev="res", q=q, a=dict(
                    status=s.status, text=y["text"], selfs=y["scr"] >= 0 and y["cnt"] >= 0 and y["bytes"] >= 0 and y["sumok"],
                    framed=s.ok and s.extra == 0 and s.get("content-length") == str(len(s.body)) and y["enc"] == ("gz" in a) if s.status == 200 else True,
                    toks=[[i, j] if v == 1 else [0, 0] for i, v, j in y["toks"]],
                    reveals=s.status != 200 and pc.REVEALS.search(s.body) is not None), why=s.note))
        elif k == "i":
            c = dict(ev="call", n=n, op=op, id=a.get("id", 0), uri=a.get("uri", 0))
            if op == "col":
                c["fams"] = a["n"]
            if op == "auth":
                c.update(cb=a["cb"], ok=[int(v) for v in a["ok"].split(",") if v])
            ev.append(c)
        else:
            ev.append(dict(ev="ret", n=n, ok=r.get("ex") == ""))
    ev.append(end)
    return ev


def pull_program(rng, kind):
    """kind: collect | auth | destroy"""
    q = [0]
    gz = rng.random() < 0.25     # requests that accept gzip

    def get(path, u=0):
        q[0] += 1
        a = dict(uri=path, _q=q[0], _u=u)
        if gz and rng.random() < 0.7:
            a["gz"] = 1
        return ("get", a)

    setup = [("new", {}), ("col", dict(id=1, n=rng.choice([1, 2]))), ("col", dict(id=2, n=1))]
    inreg = set()
    for i in (1, 2):
        if rng.random() < (0.6 if kind == "collect" else 0.5):
            p = 1 if rng.random() < 0.8 else 2
            setup.append(("reg", dict(id=i, uri=p)))
            inreg.add((p, i))
    auth = kind != "collect" and rng.random() < (0.9 if kind == "auth" else 0.5)
    if auth and rng.random() < 0.7:
        setup.append(("auth", dict(cb=1, uri=1)))
    nt = rng.choice([2, 2, 3])
    threads = [[] for _ in range(nt)]
    dropped = set()
    # thread 1 requests, thread 2 changes, thread 3 does either
    roles = ["get" if kind == "destroy" or rng.random() < 0.75 else "change", "change"] + [rng.choice(["get", "change"])] * (nt - 2)
    mine = {1: rng.choice([k for k in range(nt) if roles[k] == "change"]), 2: rng.choice([k for k in range(nt) if roles[k] == "change"])}
    cb, second = 2, False
    auther = rng.choice([k for k in range(nt) if roles[k] == "change"])
    for k in range(nt):
        n = rng.choice([1, 1, 2])
        if roles[k] == "get":
            for _ in range(n):
                threads[k].append(get(1 if rng.random() < 0.8 else 2, 1 if (auth or kind == "auth") and rng.random() < 0.85 else 0))
            continue
        if kind == "destroy" and k == 1:
            if rng.random() < 0.3 and mine[1] == k:
                if (1, 1) in inreg:
                    threads[k].append(("rem", dict(id=1, uri=1)))
                    inreg.discard((1, 1))
            threads[k].append(("destroy", {}))
            continue
        if kind == "destroy":
            i = 2
            if rng.random() < 0.5:
                threads[k].append(("drop", dict(id=i)))
                dropped.add(i)
            else:
                threads[k].append(get(1, 1 if auth else 0))
            continue
        for _ in range(n):
            ids = [i for i in (1, 2) if mine[i] == k and i not in dropped]
            ops = []
            for i in ids:
                for p in (1, 1, 2):
                    ops.append(("rem" if (p, i) in inreg else "reg", dict(id=i, uri=p)))
                ops.append(("drop", dict(id=i)))
            if kind == "auth" and auth and k == auther and cb <= 3:
                ops += [("auth", dict(cb=cb, uri=1))] * 8
            elif kind == "auth" and not second:
                ops += [("auth", dict(cb=4, uri=2))] * 6
            if not ops:
                threads[k].append(get(1, 1 if auth else 0))
                continue
            o = rng.choice(ops)
            threads[k].append(o)
            if o[0] == "reg":
                inreg.add((o[1]["uri"], o[1]["id"]))
            elif o[0] == "rem":
                inreg.discard((o[1]["uri"], o[1]["id"]))
            elif o[0] == "drop":
                dropped.add(o[1]["id"])
            elif o[0] == "auth" and o[1]["uri"] == 2:
                second = True
            elif o[0] == "auth":
                cb += 1
    post = [get(1, 1 if auth else 0), get(2, 1 if kind == "auth" else 0)]
    for i in (1, 2):
        if i not in dropped:
            post.append(("drop", dict(id=i)))
    if kind != "destroy":
        post.append(("destroy", {}))
        post.append(get(1))
    # who is accepted: each callback accepts some of the requests' users
    users = [c[1]["_q"] for c in [x for t in threads for x in t] + post if c[0] == "get" and c[1]["_u"]]
    for c in [x for t in [setup] + threads for x in t]:
        if c[0] == "auth":
            c[1]["ok"] = ",".join(str(u) for u in users if rng.random() < 0.7)
    for c in [x for t in threads for x in t] + post:
        if c[0] == "get":
            if c[1]["_u"]:
                c[1]["_u"] = c[1]["_q"]
                c[1]["auth"] = base64.b64encode(b"q%d:p" % c[1]["_q"]).decode()
    return Prog(setup, threads, post)


def distinct(make, rng, n):
    out, seen = [], set()
    for _ in range(50 * n):
        p = make(rng)
        key = json.dumps([p.setup, p.threads])
        if key not in seen:
            seen.add(key)
            out.append(p)
            if len(out) == n:
                break
    return out


def decide(check, exe, programs, runs, events, module, what, max_hist, max_race, frame=lambda p, ev: dict(ev=ev)):
    """executes the programs; validates histories against `module` and access logs against Race"""
    results = conc.explore(exe, programs, runs, 1, max_hist, max_race)
    traces, src, logs, lsrc = [], [], [], []
    skip = 0
    for i, (p, r) in enumerate(zip(programs, results)):
        todo = [(d, dict(ev="end")) for d in r.hists]
        if r.stuck:
            todo.append((r.stuck, dict(ev="stuck", how="deadlock" if "deadlock" in r.stuck else "livelock")))
        for d, end in todo:
            ev = events(p, d["h"], d["res"], end)
            if ev is None:
                skip += 1
                continue
            traces.append(frame(p, ev))
            src.append((i, d))
        if r.toomany:
            check.count("programs_with_too_many_threads")
        if r.crash:
            traces.append(frame(p, [dict(ev="crash", how=str(r.crash.get("crash")))]))
            src.append((i, r.crash))
        for d in r.races:
            logs.append(dict(log=d["race"]))
            lsrc.append((i, d))
        if r.uaf:
            logs.append(dict(log=[[1, "X", 0, 0]]))
            lsrc.append((i, r.uaf))
        if r.done:
            check.count("schedules_executed", r.done["runs"])
            check.count("scheduling_points", r.done["points"])
            check.count("histories_not_validated", max(0, r.done["histories"] - max_hist))
            check.count("access_logs_not_validated", max(0, r.done["logs"] - max_race))
    check.count("scheduled_programs", len(programs))
    if skip:
        check.count("histories_outside_the_stand_in", skip)
    how = "feed the program to the driver of drivers/conc*.cc; "
    if logs:
        bad = pcv.validate("Race", logs, name=check.pid + what.replace(" ", "_") + "_race", timeout=850)
        check.count("traces_validated_against_impl", len(logs))
        if bad:
            t, l, r = bad
            i, d = lsrc[t]
            n = r.alias.get("l", 0)
            log = logs[t]["log"]
            check.violation("%s: conflicting accesses are not ordered by synchronization, or released memory is accessed: event %s %s of program %s" % (
                what, n, log[n - 1] if 0 < n <= len(log) else None, " | ".join(programs[i].lines(i, runs, 1, 0, 0, 0)[1:-1])),
                dict(program=programs[i].lines(i, runs, 1, max_hist, max_race, pcv.SEED * 1000003 + i), run=d["run"], log=log, event=n,
                     how=how + "spec/Race.tla rejects event %d of this access log" % n))
    if traces:
        bad = pcv.validate(module, traces, name=check.pid + what.replace(" ", "_"), timeout=850)
        check.count("traces_validated_against_impl", len(traces))
        if bad:
            t, n, _ = bad
            i, d = src[t]
            evs = traces[t]["ev"]
            e = evs[n] if 0 <= n < len(evs) else {}
            check.violation("%s: event %d of an execution under a chosen schedule is not allowed by %s: %s" % (what, n + 1, module, json.dumps(e)[:1000]),
                            dict(program=programs[i].lines(i, runs, 1, max_hist, max_race, pcv.SEED * 1000003 + i), run=d["run"], events=evs[:n + 1],
                                 how=how + "spec/%s.tla rejects the last event" % module))
    if programs:
        check.sample(dict(kind=what, program=programs[0].lines(0, runs, 1, 0, 0, 0)))
    return results


def build_pull(std="c++11"):
    return conc.build(std, "cpull", ("core", "pull"), ("concpull.cc",), link=("-lz",), more=(*FLAGS, "-DHAVE_ZLIB"), optional=True)


def pull_runs(check, kinds, n, runs, max_hist, max_race, seed):
    exe = build_pull()
    if exe is None:
        check.assumptions.append("controlled schedules left out: the code does not link with the stand-in of the server library")
        return
    rng = random.Random(pcv.SEED * 7919 + seed)
    for kind in kinds:
        ps = distinct(lambda r: pull_program(r, kind), rng, n)
        decide(check, exe, ps, runs, pull_events, "ConcTrace", "controlled schedules, " + kind, max_hist, max_race)


# ------------------------------------------------------------------ gateway

def push_events(p, h, res, end):
    """history -> log for GatewayConc"""
    ev = []
    hx = lambda b: list(b)
    for x in h:
        if isinstance(x, dict):
            if x["ev"] == "unsupported":
                return None
            if x["ev"] == "req":
                url = bytes.fromhex(x["url"])
                url = url.split(b"://", 1)[-1]
                lines = [bytes.fromhex(l).partition(b":") for l in x["hdrs"]]
                lines = [(k.strip(), v.strip(b" \t")) for k, _, v in lines]
                ct = [v for k, v in lines if k.lower() == b"content-type"]
                body = bytes.fromhex(x["body"])
                ok, toks = _tokens(body)
                user, pw = bytes.fromhex(x["user"]), bytes.fromhex(x["pass"])
                auth = [list(v) for k, v in lines if k.lower() == b"authorization"]
                if user or pw:
                    auth.append(list(b"Basic " + base64.b64encode(user + b":" + pw)))
                x = dict(ev="req", q=x["q"], m=x["m"], path=list(url[url.find(b"/"):] if b"/" in url else b"/"), text=ok, toks=toks, auth=auth,
                         ctype="ok" if len(ct) == 1 and ct[0].startswith(b"text/plain") and b"version=0.0.4" in ct[0] else "bad",
                         hdrs=[list(k + b":" + v) for k, v in lines if k.lower().startswith(b"x-")])
            ev.append(x)
            continue
        k, n = x
        op, a = p.calls[n - 1]
        if op in ("gw", "outs", "end"):
            continue
        r = res.get(str(n), {})
        if k == "i":
            c = dict(ev="call", n=n, op=op, id=a.get("id", 0))
            if op == "col":
                c["fams"] = a["n"]
            elif op == "reg":
                c["labels"] = [[list(bytes.fromhex(y)) for y in l.split(":")] for l in a["labels"].split(",")]
            elif op == "header":
                m, _, v = bytes.fromhex(a["h"]).partition(b": ")
                c["h"] = list(m + b":" + v)
            elif op in ("push", "pushadd", "del", "delinst"):
                c["async"] = bool(a.get("async"))
            ev.append(c)
        else:
            ev.append(dict(ev="ret", n=n, res=-999999 if r.get("ex") != "" else int(r.get("res", 0))))
    ev.append(end)
    return ev


def _tokens(body):
    bl = pull.blocks(body)
    if bl is None:
        return False, []
    ok, toks = True, []
    for b in bl:
        m = pc.HELP.match(b)
        if not m:
            return False, []
        i, j = int(m.group(1)), int(m.group(2))
        v = b.rsplit(b" ", 1)[-1].strip()
        if v.isdigit() and b == pull.block_text(i, j, int(v), "a", 3):
            toks.append([i, int(v), j])
        else:
            ok = False
    return ok, toks


def push_program(rng, kind):
    """kind: sync | async | change"""
    auth = rng.random() < 0.5
    setup = [("gw", dict(job=b"j".hex(), labels=b"g".hex() + ":" + b"1".hex(), **(dict(user=b"u".hex(), **{"pass": b"p".hex()}) if auth else {})))]
    outs = [rng.choice(["ok", "ok", "ok", "fail", "fault"]) for _ in range(6)] if rng.random() < 0.6 else ["ok"]
    setup.append(("outs", dict(o=",".join(outs))))
    lab = lambda i: b"c".hex() + ":" + (b"%d" % i).hex()
    cols = (1, 2)
    for i in cols:
        setup.append(("col", dict(id=i, n=rng.choice([1, 2]))))
    reg = set()
    for i in cols:
        if rng.random() < (0.85 if kind != "change" else 0.6):
            setup.append(("reg", dict(id=i, labels=lab(i))))
            reg.add(i)
    hn = [0]

    def header():
        hn[0] += 1
        return ("header", dict(h=(b"X-A%d: v" % hn[0]).hex()))

    if rng.random() < 0.3:
        setup.append(header())
    nt = rng.choice([2, 2, 3])
    budget = 8 - nt           # threads the library may start
    threads, dropped = [], set()
    toreg = [i for i in cols if i not in reg]
    for k in range(nt):
        t = []
        for _ in range(rng.choice([1, 1, 2]) if nt == 2 else 1):
            ops = []
            cost = len(reg | set(toreg)) + 1
            for op in ("push", "pushadd", "del", "delinst"):
                c = cost if op.startswith("push") else 1
                if c <= budget:
                    ops += [((op, dict(**{"async": 1})), c)] * (6 if kind == "async" else 1)
                ops += [((op, {}), 0)] * (1 if kind == "async" else 4)
            if kind == "change" or rng.random() < 0.3:
                ops += [(header, 0)] * 8
                ops += [(("drop", dict(id=i)), 0) for i in cols if i not in dropped and i not in toreg] * 4
                ops += [(("reg", dict(id=i, labels=lab(i))), 0) for i in toreg if i not in dropped] * 8
            o, c = rng.choice(ops)
            o = o() if callable(o) else o
            budget -= c
            if o[0] == "drop":
                dropped.add(o[1]["id"])
            if o[0] == "reg":
                toreg.remove(o[1]["id"])
                reg.add(o[1]["id"])
            t.append(o)
        threads.append(t)
    post = [(rng.choice(["push", "pushadd"]), {})] + [("drop", dict(id=i)) for i in cols if i not in dropped] + [("end", {})]
    return Prog(setup, threads, post, auth=auth)


def push_frame(p, ev):
    return dict(ev=ev, cfg=dict(job=list(b"j"), labels=[[list(b"g"), list(b"1")]],
                                auth=[list(b"Basic " + base64.b64encode(b"u:p"))] if p.info["auth"] else []))


def push_runs(check, kinds, n, runs, max_hist, max_race, seed):
    exe = conc.build("c++11", "cpush", ("core", "push"), ("concpush.cc",), more=FLAGS, optional=True)
    if exe is None:
        check.assumptions.append("controlled schedules left out: the code does not link with the stand-in of the client library")
        return
    rng = random.Random(pcv.SEED * 7919 + seed)
    for kind in kinds:
        ps = distinct(lambda r: push_program(r, kind), rng, n)
        decide(check, exe, ps, runs, push_events, "GatewayConcTrace", "controlled schedules, " + kind, max_hist, max_race, push_frame)
