"""The exposer used by several threads: C20 scrapes during registration changes,
C25 reconfiguration and shutdown during requests."""
import concurrent.futures as cf
import json
import os
import random
import socket
import threading
import time

import pcv
import pull
import pull_checks as pc
import sched

STEP = 0.04       # how long to wait for the consequences of a step
LIMIT = 30.0      # a call or request that takes longer is stuck
PATIENCE = 12.0   # the same while a client does not read (the server gives up on it after 30 s)


def simulate(check, ops, reqs, calls, num, seed, prepared=False):
    """environments of random behaviours of MCExposerConc"""
    cfg = os.path.join(pcv.scratch(), "sim_%d.cfg" % seed)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCONSTANTS\n MaxReqs = %d\n MaxCalls = %d\n"
                " Ops = {%s}\n Emitting = TRUE\n Variant = \"locked\"\n"
                " Prepared = %s\n" % (reqs, calls, ",".join('"%s"' % o for o in ops), "TRUE" if prepared else "FALSE"))
    r = pcv.tlc("MCExposerConc", cfg, workers=1, timeout=600, extra=("-simulate", "num=%d" % num, "-depth", "120", "-seed", str(seed)))
    seqs = pcv.printed(r.out, "SEQ")
    if r.kind or not seqs:
        raise pcv.CheckError("simulation failed:\n" + r.out[-2000:])
    uniq = {json.dumps(s): s for s in seqs}
    return list(uniq.values())


class Run:
    """replays one environment; collects the log of events"""

    def __init__(self, srv, env, opts):
        self.srv, self.d, self.env, self.opts = srv, srv.d, env, opts
        srv.fresh()
        self.start = len(self.d.log)
        self.prefix, self.base = srv.prefix, srv.base
        self.threads = []
        self.users = {e["q"]: e["u"] for e in env if e["ev"] == "req"}
        self.drains = {}
        self.destroyed = False

    def uri(self, p):
        return "%s/x%d" % (self.prefix, p)

    def settle(self, pred, t=STEP):
        self.d.wait(pred, t)

    def request(self, q, path, u, slow=False):
        d = self.d
        headers = []
        if u:
            headers.append(("Authorization", pc.basic(b"q%d" % q, b"p%d" % u)))
        gz = self.opts.get("gz") and q % 2 == 0 and not slow
        if gz:
            headers.append(("Accept-Encoding", "gzip"))
        d.note(dict(ev="req", q=q, path=path, u=q if u else 0, slow=slow))
        done, drain = threading.Event(), threading.Event()
        if slow:
            self.drains[q] = drain
        else:
            drain.set()

        def go():
            r = pull.request(self.srv.port, self.uri(path), headers, wait=drain if slow else None)
            x = pc.reading(self.srv, r)
            d.call("sync", actor="q%d" % q, timeout=LIMIT)
            cl = r.get("content-length")
            a = dict(status=r.status, text=x["text"], selfs=x["scr"] >= 0 and x["cnt"] >= 0 and x["bytes"] >= 0 and x["sumok"],
                     framed=r.ok and r.extra == 0 and cl == str(len(r.body)) and x["enc"] == (1 if gz else 0),
                     toks=[[i, j] if v == 1 else [0, 0] for i, v, j in x["toks"]],
                     reveals=r.status != 200 and pc.REVEALS.search(r.body) is not None)
            if r.status == 200 and not r.ok:
                a["framed"] = False
            d.note(dict(ev="res", q=q, a=a, why=r.note))
            done.set()

        t = threading.Thread(target=go, daemon=True)
        t.start()
        self.threads.append((t, done))
        mark = len(d.log)
        self.settle(lambda log: done.is_set() or any("cs" in e or "as" in e for e in log[mark:]))

    def quiet(self):
        """clients that do not read hold up nothing else: waits for the end of
        everything but them, unless a collectable or callback is at work"""
        if not self.drains or self.destroyed:
            return
        end = time.time() + PATIENCE
        while not self.d.eof:
            with self.d.cv:
                log = self.d.log[self.start:]
            k = lambda x: sum(x in e for e in log)
            if k("cs") != k("ce") or k("as") != k("ae"):
                return
            over = {e["ret"] for e in log if "ret" in e}
            if (all(n in over for n in self.calls) and all(q in self.drains or done.is_set() for q, (t, done) in enumerate(self.threads, 1))) \
                    or time.time() > end:
                self.d.call("sync", actor="S")
                self.d.note(dict(ev="quiet"))
                return
            time.sleep(0.005)

    def drain(self, q):
        """the client reads what it has been sent"""
        x = self.drains.pop(q, None)
        if x:
            self.d.note(dict(ev="drain", q=q))
            x.set()

    def call(self, k, e):
        d, b = self.d, self.base
        op = e["op"]
        actor = "k%d" % k
        if op in ("reg", "rem"):
            n = d.start(actor, op, id=b + e["id"], uri=self.uri(e["uri"]).encode().hex())
        elif op == "drop":
            n = d.start(actor, "drop", id=b + e["id"])
        elif op == "auth":
            ok = [q for q, u in self.users.items() if u == e["cb"]]
            self.okq[e["cb"]] = ok
            n = d.start(actor, "auth", cb=b + e["cb"], realm=b"r".hex(), gated=1, uri=self.uri(e["uri"]).encode().hex(),
                        ok=",".join((b"q%d" % q).hex() + ":" + (b"p%d" % e["cb"]).hex() for q in ok))
        elif op == "destroy":
            # nothing else may use the exposer meanwhile; left out here (and done
            # at the end) if a call is still waiting
            self.settle(lambda log: all(any(x.get("ret") == n for x in log[self.start:]) for n in self.calls), 2.0)
            with d.cv:
                over = {x["ret"] for x in d.log[self.start:] if "ret" in x}
            if not all(n in over for n in self.calls):
                return
            self.destroyed = True
            n = d.start(actor, "destroy")
        else:
            raise pcv.CheckError("unknown call " + op)
        self.calls.append(n)
        self.settle(lambda log: any(x.get("ret") == n for x in log[self.start:]), STEP if op != "destroy" else 0.15)

    def run(self):
        d, b = self.d, self.base
        self.calls, self.okq = [], {}
        d.call("closeall")
        fams = self.opts.get("fams", 2)
        size = self.opts.get("size", 3)
        for i in (1, 2):
            self.srv.sizes[b + i] = ("r", size)
            d.call("col", id=b + i, n=fams, size=size, kind="r", gated=1)
        k = 0
        for e in self.env:
            if d.eof:
                break
            if e["ev"] == "req":
                self.request(e["q"], e["path"], e["u"], e["slow"])
            elif e["ev"] == "drain":
                self.quiet()
                self.drain(e["q"])
                self.settle(lambda log: False)
            elif e["ev"] == "call":
                k += 1
                self.call(k, e)
            else:
                g = "c%d" % (b + e["id"]) if e["ev"] == "ce" else "a%d" % (b + e["cb"])
                key, val = ("ce", b + e["id"]) if e["ev"] == "ce" else ("ae", b + e["cb"])
                mark = len(d.log)
                d.call("permit", actor="G", g=g)
                self.settle(lambda log: any(x.get(key) == val for x in log[mark:]))
        d.call("openall", actor="G")
        self.quiet()
        for q in sorted(self.drains):
            self.drain(q)
        end = time.time() + LIMIT
        for t, done in self.threads:
            while not done.wait(0.05) and time.time() < end and not d.eof:
                pass
            if d.eof:
                done.wait(2)
        for n in self.calls:
            d.returned(n, max(0.1, end - time.time()))
        if self.opts.get("destroy") and not self.destroyed and not d.eof:
            n = d.start("z", "destroy")
            self.calls.append(n)
            d.returned(n, LIMIT)
            self.destroyed = True
        d.call("sync", actor="S")
        free = None
        if self.destroyed and not d.eof:
            # a request that begins now is refused; the port can be used again
            d.note(dict(ev="req", q=90, path=1, u=0, slow=False))
            r = pull.request(self.srv.port, self.uri(1))
            d.note(dict(ev="res", q=90, a=dict(status=r.status, text=False, selfs=False, framed=False, toks=[], reveals=bool(r.body)), why=""))
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("127.0.0.1", self.srv.port))
                free = True
            except OSError:
                free = False
            s.close()
        with d.cv:
            log = d.log[self.start:]
        ev = self.convert(log)
        if free is not None:
            ev.append(dict(ev="port", free=free))
        if d.eof:
            ev.append(dict(ev="crash", err=d.err.decode(errors="replace")[-4000:]))
        else:
            ev.append(dict(ev="end"))
        if not self.destroyed:
            for i in (1, 2):
                d.call("drop", id=b + i)
        return ev

    def convert(self, log):
        b = self.base
        out, known = [], set()
        for e in log:
            if "ev" in e:
                out.append(e)
            elif "call" in e:
                op, n = e["op"], e["call"]
                c = dict(ev="call", n=n, op=op, id=0, uri=0)
                if op == "col":
                    c.update(id=e["id"] - b, fams=e["n"])
                elif op in ("reg", "rem"):
                    c.update(id=e["id"] - b, uri=int(bytes.fromhex(e["uri"])[-1:]))
                elif op == "drop":
                    c.update(id=e["id"] - b)
                elif op == "auth":
                    cb = e["cb"] - b
                    c.update(cb=cb, uri=int(bytes.fromhex(e["uri"])[-1:]), ok=self.okq[cb])
                elif op != "destroy":
                    continue
                known.add(n)
                out.append(c)
            elif "ret" in e and e["ret"] in known:
                out.append(dict(ev="ret", n=e["ret"], ok="ex" not in e))
            elif "cs" in e:
                out.append(dict(ev="cs", id=e["cs"] - b))
            elif "ce" in e:
                out.append(dict(ev="ce", id=e["ce"] - b))
            elif "as" in e:
                u = bytes.fromhex(e["u"])
                out.append(dict(ev="as", cb=e["as"] - b, u=int(u[1:]) if u[:1] == b"q" and u[1:].isdigit() else 0))
            elif "ae" in e:
                out.append(dict(ev="ae", cb=e["ae"] - b))
            elif "gone" in e:
                out.append(dict(ev="gone", id=e["gone"] - b))
        return out


def run_all(exe, envs, opts, per=40, width=40):
    """replays environments in parallel drivers"""
    out = [None] * len(envs)
    width = min(width, len(envs))
    lots = [list(range(k, len(envs), width)) for k in range(width)]

    def work(lot):
        srv, used, last = None, 0, None
        for k in lot:
            if srv is None or used >= per or srv.d.eof:
                if srv and not srv.d.eof:
                    srv.close()
                srv, used = pc.Server(exe, threads=opts.get("threads", 3)), 0
            used += 1
            r = Run(srv, envs[k], opts)
            out[k] = r.run()
            if r.destroyed or any(not done.is_set() for _, done in r.threads) or out[k][-1]["ev"] != "end":
                rc = 0
                if not srv.d.eof:
                    rc = srv.d.close(LIMIT)
                if rc != 0 and out[k][-1]["ev"] == "end":
                    out[k][-1] = dict(ev="crash", err=srv.d.err.decode(errors="replace")[-4000:])
                srv = None
        if srv and not srv.d.eof:
            rc = srv.close()
            if rc != 0 and out[lot[-1]][-1]["ev"] == "end":
                out[lot[-1]][-1] = dict(ev="crash", err=srv.d.err.decode(errors="replace")[-4000:])

    with cf.ThreadPoolExecutor(width) as ex:
        list(ex.map(work, lots))
    return out


def decide(check, exe, envs, what, width=40, **opts):
    if not envs:
        raise pcv.CheckError("no behaviours: " + what)
    evs = run_all(exe, envs, opts, width=width)
    bad = pcv.validate("ConcTrace", [dict(ev=e) for e in evs], name=check.pid + what.replace(" ", "_"))
    check.count("traces_validated_against_impl", len(evs))
    check.count("requests", sum(1 for ev in evs for e in ev if e["ev"] == "req"))
    check.count("scrapes_overlapping_changes", sum(overlapping(ev) for ev in evs))
    check.sample(dict(kind=what, environment=envs[0]))
    if bad:
        t, i, res = bad
        e = evs[t][i] if 0 <= i < len(evs[t]) else {}
        why = ""
        if e.get("ev") == "end":
            why = " (a call or request did not end, or a collectable is still being asked)"
        check.violation("%s: event %d of a recorded execution is not allowed by ExposerConc.tla%s: %s" % (what, i + 1, why, json.dumps(e)[:1500]),
                        dict(environment=envs[t], options=opts, events=evs[t][:i + 1]))


def overlapping(ev):
    """requests during which a call was in progress"""
    n, calls, reqs = 0, set(), {}
    for e in ev:
        if e["ev"] == "call" and e["op"] != "col":
            calls.add(e["n"])
            for q in reqs:
                reqs[q] = True
        elif e["ev"] == "ret":
            calls.discard(e["n"])
        elif e["ev"] == "req":
            reqs[e["q"]] = bool(calls)
        elif e["ev"] == "res":
            n += bool(reqs.pop(e["q"], False))
    return n


def design(check, name, faulty):
    cfgs = ["MCExposerConc_%s.cfg" % name] + (["MCExposerConc_%s_deep.cfg" % name] if pcv.THOROUGH else [])
    pcv.design(check, "MCExposerConc", cfgs, faulty, "locked", timeout=3000)


def features(env):
    """what coincides in an environment"""
    out = set()
    for k, e in enumerate(env):
        if e["ev"] == "call":
            for d in e["during"]:
                out.add((e["op"],) + tuple(d))
            out.add((e["op"], len(e["during"])))
            out.add((e["op"], tuple(sorted(map(str, e["during"])))))
            for x in env[k + 1:]:
                out.add((e["op"], "before", x["ev"], x.get("op", "")))
        elif e["ev"] == "req":
            for d in e["during"]:
                out.add(("req", e["slow"]) + tuple(d))
                out.add(("req",) + tuple(d) + tuple(x["ev"] for x in env[k + 1:] if x["ev"] in ("ae", "ce")))
    return out


def interesting(envs, rng, n):
    """a selection in which rare coincidences are as frequent as possible"""
    fs = [(features(e), e) for e in sorted(envs, key=json.dumps)]
    rng.shuffle(fs)
    total, taken, out = {}, {}, []
    for f, _ in fs:
        for x in f:
            total[x] = total.get(x, 0) + 1
    rare = sorted(total, key=lambda x: (total[x], str(x)))
    left = list(fs)
    while left and len(out) < n:
        # the feature least represented so far, the rarest first
        got = False
        for x in sorted(rare, key=lambda y: (taken.get(y, 0), total[y], str(y))):
            k = next((k for k, (f, _) in enumerate(left) if x in f), None)
            if k is not None:
                f, e = left.pop(k)
                out.append(e)
                for y in f:
                    taken[y] = taken.get(y, 0) + 1
                got = True
                break
        if not got:
            break
    return out


def c20(check):
    rng = random.Random(pcv.SEED * 20)
    m = 12 if pcv.THOROUGH else 1
    with cf.ThreadPoolExecutor(4) as ex:
        b = ex.submit(pull.build)
        e1 = ex.submit(simulate, check, ["reg", "rem", "drop"], 3, 5, 2000 * m, pcv.SEED * 20 + 1)
        e2 = ex.submit(simulate, check, ["reg", "rem", "drop", "auth"], 4, 7, 1000 * m, pcv.SEED * 20 + 2)
        design(check, "collect", ["raw", "lazy"])
        exe, e1, e2 = b.result(), e1.result(), e2.result()
    decide(check, exe, interesting(e1, rng, 600 * m), "model behaviours")
    decide(check, exe, interesting(e2, rng, 200 * m), "longer behaviours", gz=1, size=20000, fams=3, threads=4)
    sched.pull_runs(check, ["collect"], 48 * m, 1000, 80, 40, 20)
    check.assumptions += ["the times of cs, ce, gone events are those at which the collectable noticed them; a call's or request's effect lies between its logged begin and end"]


def c25(check):
    rng = random.Random(pcv.SEED * 25)
    m = 12 if pcv.THOROUGH else 1
    with cf.ThreadPoolExecutor(6) as ex:
        b = ex.submit(pull.build)
        e1 = ex.submit(simulate, check, ["reg", "auth"], 3, 5, 1500 * m, pcv.SEED * 25 + 1, True)
        e2 = ex.submit(simulate, check, ["reg", "auth", "drop", "destroy"], 3, 4, 2000 * m, pcv.SEED * 25 + 2)
        e4 = ex.submit(simulate, check, ["reg", "auth", "destroy"], 3, 4, 2000 * m, pcv.SEED * 25 + 4, True)
        e3 = ex.submit(simulate, check, ["reg", "destroy"], 2, 3, 800 * m, pcv.SEED * 25 + 3)
        e5 = ex.submit(simulate, check, ["reg", "rem", "auth", "slow"], 3, 5, 2000 * m, pcv.SEED * 25 + 5)
        e6 = ex.submit(simulate, check, ["reg", "slow", "destroy"], 2, 4, 1000 * m, pcv.SEED * 25 + 6, True)
        design(check, "auth", ["first"])
        design(check, "slow", ["writing"])
        exe, e1, e2, e3, e4, e5, e6 = [x.result() for x in (b, e1, e2, e3, e4, e5, e6)]
    ends = lambda es: [e for e in es if any(x.get("op") == "destroy" for x in e)]
    decide(check, exe, interesting(e1, rng, 300 * m), "reconfiguration")
    decide(check, exe, interesting(ends(e2), rng, 150 * m), "destruction", destroy=1)
    decide(check, exe, interesting(ends(e4), rng, 250 * m), "destruction with authentication", destroy=1)
    decide(check, exe, interesting(ends(e3), rng, 60 * m), "destruction while writing much", destroy=1, size=400000, fams=5, gz=1)
    held = lambda es: [e for e in es if any(x["ev"] in ("call", "req") and any("write" in d for d in x["during"]) for x in e)]
    big = dict(size=3000000, fams=5, threads=5)
    decide(check, exe, interesting(held(e5), rng, 60 * m), "clients that do not read", width=10, **big)
    decide(check, exe, interesting(held(ends(e6)), rng, 12 * m), "destruction and clients that do not read", width=10, destroy=1, **big)
    sched.pull_runs(check, ["auth", "destroy"], 40 * m, 1000, 80, 40, 25)
    check.assumptions += ["clients that read what they are sent", "the server library civetweb is not instrumented; its use of freed handlers is seen when it enters instrumented code"]
