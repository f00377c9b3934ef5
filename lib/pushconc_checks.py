"""C29: the gateway client used by several threads at once."""
import base64
import concurrent.futures as cf
import json
import os
import random
import threading
import time

import pcv
import push
import push_checks as pp
import sched
from pullconc_checks import interesting

STEP = 0.03
LIMIT = 30.0
CT = b"text/plain"


def simulate(check, ops, nops, calls, outs, num, seed, prepared):
    cfg = os.path.join(pcv.scratch(), "gsim_%d.cfg" % seed)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCONSTANTS\n MaxOps = %d\n MaxCalls = %d\n Ops = {%s}\n Outs = {%s}\n"
                " Cols = {1,2}\n Emitting = TRUE\n Prepared = %s\n Variant = \"ok\"\n"
                % (nops, calls, ",".join('"%s"' % o for o in ops), ",".join('"%s"' % o for o in outs), "TRUE" if prepared else "FALSE"))
    r = pcv.tlc("MCGatewayConc", cfg, workers=1, timeout=900, extra=("-simulate", "num=%d" % num, "-depth", "150", "-seed", str(seed)))
    seqs = pcv.printed(r.out, "SEQ")
    if r.kind or not seqs:
        raise pcv.CheckError("simulation failed:\n" + r.out[-2000:])
    return list({json.dumps(s): s for s in seqs}.values())


class Run:
    """replays one environment; collects the log of events"""

    def __init__(self, host, env, opts):
        self.h, self.d, self.env, self.opts = host, host.d, env, opts
        host.base += 50
        host.gw += 1
        self.base = host.base
        self.start = len(self.d.log)
        self.lock = threading.Condition()
        self.waiting = []          # unanswered requests, oldest first
        self.planned = []          # answers given before their request came
        self.free = False
        self.nq = 0
        self.kind = {}

    # called by the server's threads
    def on_request(self, r):
        self.d.call("sync", actor="S", timeout=LIMIT)
        ok, toks = self.h.body_tokens(r["body"], self.sizes)
        ct = r["low"]["content-type"]
        with self.lock:
            self.nq += 1
            q = self.nq
            self.d.note(dict(ev="req", q=q, m=r["method"], path=list(r["target"]), text=ok and r["ok"], toks=toks,
                             ctype="ok" if len(ct) == 1 and ct[0].startswith(CT) and b"version=0.0.4" in ct[0] else "bad",
                             auth=[list(x) for x in r["low"]["authorization"]],
                             hdrs=[list(k.encode("latin-1") + b":" + v) for k, v in r["headers"] if k.lower().startswith("x-")]))
            r["q"] = q
            self.waiting.append(r)
            self.lock.notify_all()
            while not self.planned and not self.free:
                self.lock.wait(LIMIT)
            out = self.planned.pop(0) if self.planned else "ok"
            self.waiting.remove(r)
            if out == "ok":
                r["out"] = ("status", 200, 0, True)
            elif out == "fail":
                r["out"] = ("status", 400 + q, 0, True)
            else:
                r["out"] = ("garbage",)
            o = r["out"]
            self.d.note(dict(ev="ans", q=q, out=dict(k="status", s=o[1]) if o[0] == "status" else dict(k="fault", s=0)))

    def calm(self, mark, t=STEP):
        """waits until the log has been quiet for t seconds"""
        d = self.d
        end = time.time() + 1.0
        with d.cv:
            n = len(d.log)
            while time.time() < end:
                d.cv.wait(t)
                if len(d.log) == n or d.eof:
                    return
                n = len(d.log)

    def call(self, e):
        b, gw = self.base, self.h.gw
        op = e["op"]
        self.k += 1
        kw = {}
        if op == "reg":
            kw = dict(gw=gw, id=b + e["id"], labels=",".join(bytes(x).hex() + ":" + bytes(y).hex() for x, y in e["labels"]))
        elif op == "drop":
            kw = dict(id=b + e["id"])
        elif op == "header":
            kw = dict(gw=gw, h=(b"X-" + bytes(e["h"][0]) + b"%d: v" % self.k).hex())
        else:
            kw = dict(gw=gw)
            if e.get("async"):
                kw["async"] = 1
        self.calls.append(self.d.start("k%d" % self.k, op, **kw))

    def run(self):
        d, b, gw = self.d, self.base, self.h.gw
        self.calls, self.k = [], 0
        fams, size = self.opts.get("fams", 1), self.opts.get("size", 3)
        self.sizes = {b + 1: size, b + 2: size}
        self.h.srv.on_request = self.on_request
        d.call("closeall")
        kw = dict(gw=gw, job=b"j".hex(), kind="plain", host=b"127.0.0.1".hex(), port=self.h.srv.port, labels=b"g".hex() + ":" + b"1".hex())
        self.auth = []
        if self.opts.get("auth"):
            kw.update(kind="cred", user=b"u".hex(), **{"pass": b"p".hex()})
            self.auth = [list(b"Basic " + base64.b64encode(b"u:p"))]
        d.call("gw", **kw)
        for i in (1, 2):
            d.call("col", id=b + i, n=fams, size=size, gated=1, serials=1)
        if self.opts.get("prepared"):
            for i in (1, 2):
                d.call("reg", gw=gw, id=b + i, labels=b"c".hex() + ":" + (b"%d" % i).hex())
        for e in self.env:
            if d.eof:
                break
            if e["ev"] == "call":
                self.call(e)
            elif e["ev"] == "ce":
                d.call("permit", actor="G", g="c%d" % (b + e["id"]))
            else:
                with self.lock:
                    end = time.time() + 0.3
                    while len(self.waiting) <= len(self.planned) and time.time() < end:
                        self.lock.wait(0.05)
                    self.planned.append(e["out"])
                    self.lock.notify_all()
            self.calm(0)
        d.call("openall", actor="G")
        with self.lock:
            self.free = True
            self.lock.notify_all()
        end = time.time() + LIMIT
        for n in self.calls:
            d.returned(n, max(0.1, end - time.time()))
        d.call("sync", actor="S")
        stuck = any(not d.returned(n, 0) for n in self.calls)
        for i in (1, 2):
            n = d.start("z", "drop", id=b + i)
            d.returned(n, 10)
        with d.cv:
            log = d.log[self.start:]
        ev = self.convert(log)
        if d.eof:
            ev.append(dict(ev="crash", err=d.err.decode(errors="replace")[-4000:]))
        else:
            ev.append(dict(ev="end"))
            if not stuck:
                n = d.start("z", "end", gw=gw)
                if not d.returned(n, 10):
                    ev[-1] = dict(ev="stuck", at="destruction")
                    stuck = True
        self.broken = stuck or d.eof
        return ev

    def convert(self, log):
        b = self.base
        out, known = [], {}
        for e in log:
            if "ev" in e:
                out.append(e)
            elif "call" in e:
                op, n = e["op"], e["call"]
                c = dict(ev="call", n=n, op=op, id=0)
                if op == "col":
                    c.update(id=e["id"] - b, fams=e["n"])
                elif op == "reg":
                    c.update(id=e["id"] - b, labels=[[list(bytes.fromhex(x)) for x in p.split(":")] for p in e["labels"].split(",")])
                elif op == "drop":
                    c.update(id=e["id"] - b)
                elif op == "header":
                    k, _, v = bytes.fromhex(e["h"]).partition(b": ")
                    c.update(h=list(k + b":" + v))
                elif op in ("push", "pushadd", "del", "delinst"):
                    c["async"] = "async" in e
                else:
                    continue
                known[n] = op
                out.append(c)
            elif "ret" in e and e["ret"] in known:
                out.append(dict(ev="ret", n=e["ret"], res=int(e.get("res", -999999 if "ex" in e else 0))))
            elif "cs" in e:
                out.append(dict(ev="cs", id=e["cs"] - b, g=e["g"]))
            elif "ce" in e:
                out.append(dict(ev="ce", id=e["ce"] - b, g=e["g"]))
            elif "gone" in e:
                out.append(dict(ev="gone", id=e["gone"] - b))
        return out

    def trace(self, ev):
        return dict(ev=ev, cfg=dict(job=list(b"j"), labels=[[list(b"g"), list(b"1")]], auth=self.auth))


def run_all(exe, envs, opts, width=40):
    out = [None] * len(envs)
    width = min(width, len(envs))

    def work(w):
        h = None
        last = None
        for k in range(w, len(envs), width):
            if h is None:
                h = pp.Host(exe)
            r = Run(h, envs[k], opts)
            ev = r.run()
            out[k] = r.trace(ev)
            last = k
            if r.broken:
                h.d.p.kill()
                h.d.close()
                h.srv.down()
                h = None
        if h:
            if h.d.close(LIMIT) != 0 and out[last]["ev"][-1]["ev"] == "end":
                out[last]["ev"][-1] = dict(ev="crash", err=h.d.err.decode(errors="replace")[-4000:])
            h.srv.down()

    with cf.ThreadPoolExecutor(width) as ex:
        list(ex.map(work, range(width)))
    return out


def overlapping(ev):
    n, pend = 0, {}
    for e in ev:
        if e["ev"] == "call" and e["op"] != "col":
            for k in pend:
                pend[k] = True
            pend[e["n"]] = len(pend) > 0
        elif e["ev"] == "ret":
            n += bool(pend.pop(e["n"], False))
    return n


def decide(check, exe, envs, what, **opts):
    trs = run_all(exe, envs, opts)
    bad = pcv.validate("GatewayConcTrace", trs, name=check.pid + what.replace(" ", "_"))
    check.count("traces_validated_against_impl", len(trs))
    check.count("requests", sum(1 for t in trs for e in t["ev"] if e["ev"] == "req"))
    check.count("overlapping_calls", sum(overlapping(t["ev"]) for t in trs))
    check.sample(dict(kind=what, environment=envs[0]))
    if bad:
        t, i, res = bad
        evs = trs[t]["ev"]
        e = evs[i] if 0 <= i < len(evs) else {}
        why = " (a call did not return, or a collectable is still held)" if e.get("ev") == "end" else ""
        x = dict(e)
        if "path" in x:
            x["path"] = bytes(x["path"]).decode("latin-1")
        check.violation("%s: event %d of a recorded execution is not allowed by GatewayConc.tla%s: %s" % (what, i + 1, why, json.dumps(x)[:1500]),
                        dict(environment=envs[t], options=opts, events=evs[:i + 1]))


def design(check, names):
    for n in names:
        r = pcv.tlc("MCGatewayConc", "MCGatewayConc%s.cfg" % n, timeout=3400, heap="20g")
        if not r.ok:
            raise pcv.CheckError("the design does not satisfy the specification:\n" + r.out[-3000:])
        check.count("design_states", r.states)


def c29(check):
    rng = random.Random(pcv.SEED * 29)
    m = 12 if pcv.THOROUGH else 1
    allops = ["push", "pushadd", "del", "delinst", "async"]
    with cf.ThreadPoolExecutor(6) as ex:
        b = ex.submit(push.build)
        e1 = ex.submit(simulate, check, allops + ["header"], 3, 2, ["ok", "fail"], 1500 * m, pcv.SEED * 29 + 1, True)
        e2 = ex.submit(simulate, check, ["push", "pushadd", "async", "drop", "header", "del"], 3, 3, ["ok", "fail", "fault"], 1500 * m, pcv.SEED * 29 + 2, True)
        e3 = ex.submit(simulate, check, allops + ["reg", "drop", "header"], 4, 5, ["ok", "fail"], 1500 * m, pcv.SEED * 29 + 3, False)
        dz = ex.submit(design, check, ["_reg", ""] if not pcv.THOROUGH else ["_reg", "", "_deep"])
        exe, e1, e2, e3 = b.result(), e1.result(), e2.result(), e3.result()
        decide(check, exe, interesting(e1, rng, 250 * m), "operations", prepared=1, auth=1)
        decide(check, exe, interesting(e2, rng, 250 * m), "operations and dropped collectables", prepared=1, fams=2)
        decide(check, exe, interesting(e3, rng, 250 * m), "registrations", size=5000, fams=2)
        dz.result()
    sched.push_runs(check, ["sync", "async", "change"], 24 * m, 800, 60, 30, 29)
    check.assumptions += ["a call's effect lies between its logged begin and end; a request is logged before it is answered"]
