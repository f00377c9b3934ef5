"""C32: several exposers, where they listen, independent of each other."""
import concurrent.futures as cf
import json
import os
import random
import socket
import threading
import time

import pcv
import pull
import pull_checks as pc

REALM = b"Prometheus-cpp Exporter"      # when none is given
NOWHERE = ["nonsense", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1", "127.0.0.1:", "10.77.77.77:4711", "x:0", "127.0.0.1:12x", "300.0.0.1:0"]


class World:
    """a driver; looks like pull_checks.Server to get_event"""

    def __init__(self, exe, lot):
        self.d = pull.Driver(exe)
        self.keep, self.client, self.prefix = 0, None, ""
        self.base, self.sizes = 0, {}
        self.x0 = 0
        self.net = (os.getpid() % 199 + 1, lot % 250 + 1)
        self.host = 0

    def sync(self):
        return self.d.call("sync", actor="S")

    def fresh(self):
        self.base += 50
        self.x0 += 10
        self.sizes = {}
        self.host = self.host % 12 + 1

    def ip(self, k):
        return "127.%d.%d.%d" % (self.net + (self.host * 20 + k,)) if k else "127.0.0.1"

    def port_of(self, p):
        """ports of scripts are names, other ones each time"""
        return 20000 + self.x0 + p if 0 < p < 10 else p

    def at(self, a):
        """[ip, port] as the exposer is told it; ip 0: everywhere"""
        return "%s:%d" % (self.ip(a["ip"]), a["port"]) if a["ip"] else "%d" % a["port"]


def run_script(w, script):
    w.fresh()
    d, ev, xs, held = w.d, [], {}, {}

    def addr(a):
        if "of" in a:      # an address of an exposer, whatever port it got
            x = xs.get(a["of"])
            k = a.get("k", 0)
            if not x or k >= len(x["at"]):
                return None
            return dict(ip=x["at"][k]["ip"] or 9, port=x["at"][k]["port"])
        return dict(ip=a["ip"], port=w.port_of(a["port"]))

    for c in script:
        op = c["op"]
        x = dict(x=w.x0 + c["x"]) if "x" in c else {}
        e = dict(op=op, **({"x": c["x"]} if "x" in c else {}))
        r = True
        if op == "new":
            asked = [dict(ip=a["ip"], port=w.port_of(a["port"]), ok=a["ok"]) for a in c["asked"]]
            text = ",".join(w.at(a) if a["ok"] else c.get("bad", "nonsense") for a in asked)
            r = d.call("construct", at=text.encode().hex(), threads=c["threads"], form=c.get("form", 0), **x)
            e.update(asked=asked, threads=c["threads"], ok=bool(r) and "ex" not in r, ports=[])
            if e["ok"]:
                p = d.call("ports", **x)
                e["ports"] = p["ports"] if p else []
                xs[c["x"]] = dict(at=[dict(ip=a["ip"], port=q) for a, q in zip(asked, e["ports"])], up=True)
        elif op in ("destroy", "ports", "reg", "rem", "auth", "together") and not (c["x"] in xs and xs[c["x"]]["up"]):
            continue          # (it was not to be constructed)
        elif op == "destroy":
            r = d.call("destroy", **x)
            xs[c["x"]]["up"] = False
            e["done"] = bool(r) and "ex" not in r
        elif op == "ports":
            r = d.call("ports", **x)
            e["res"] = r.get("ports", []) if r else []
        elif op in ("hold", "probe"):
            a = addr(c["at"])
            if a is None:
                continue
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind((w.ip(a["ip"]), a["port"]))
                s.listen(1)
                free = True
            except OSError:
                free = False
            if op == "hold" and free:
                held[(a["ip"], a["port"])] = s
            else:
                s.close()
                if op == "hold":
                    e["op"] = "probe"       # somebody was faster; judged as a probe
            e["at"] = a
            if e["op"] == "probe":
                e["free"] = free
        elif op == "unhold":
            a = addr(c["at"])
            if a is None or (a["ip"], a["port"]) not in held:
                continue
            held.pop((a["ip"], a["port"])).close()
            e["at"] = a
        elif op == "get":
            a = addr(c["at"])
            if a is None:
                continue
            if (a["ip"], a["port"]) in held:
                continue
            w.port = (w.ip(a["ip"]), a["port"])
            e, note = pc.get_event(w, c)
            e["at"] = a
            if w.d.eof:
                r = None
        elif op == "together":
            r, e2 = together(w, c, xs, x)
            e.update(e2)
        elif op == "col":
            w.sizes[c["id"] + w.base] = (c.get("kind", "a"), c.get("size", 3))
            r = d.call("col", id=c["id"] + w.base, n=c["n"], size=c.get("size", 3), kind=c.get("kind", "a"))
            e.update(id=c["id"], n=c["n"])
        elif op in ("drop", "bump"):
            r = d.call(op, id=c["id"] + w.base)
            e.update(id=c["id"])
        elif op in ("reg", "rem"):
            kw = {} if c["uri"] == "/metrics" and c.get("default") else dict(uri=c["uri"].encode().hex())
            r = d.call(op, id=c["id"] + w.base, **kw, **x)
            e.update(id=c["id"], uri=list(c["uri"].encode()), done=bool(r) and "ex" not in r)
        elif op == "auth":
            kw = {} if c["uri"] == "/metrics" and c.get("default") else dict(uri=c["uri"].encode().hex())
            if c["realm"] is None:
                kw = dict(noname=1)
            realm = c["realm"] if c["realm"] is not None else REALM
            r = d.call("auth", cb=c["cb"] + w.base, realm=realm.hex(), ok=",".join(u.hex() + ":" + p.hex() for u, p in c["ok"]), **kw, **x)
            e.update(uri=list(c["uri"].encode()), cb=c["cb"], realm=list(realm), ok=[[list(u), list(p)] for u, p in c["ok"]],
                     done=bool(r) and "ex" not in r)
        else:
            raise pcv.CheckError("unknown call " + op)
        if not r:
            ev.append(dict(op="crash" if d.eof else "stuck", err=d.err.decode(errors="replace")[-3000:]))
            break
        ev.append(e)
    for s in held.values():
        s.close()
    if not d.eof and not (ev and ev[-1]["op"] == "stuck"):
        for x in xs:        # takes two seconds, which nobody has to wait for
            if xs[x]["up"]:
                d.start("Z%d_%d" % (x, w.x0 // 10 % 8), "destroy", x=w.x0 + x)
        for i in list(w.sizes):
            d.call("drop", id=i)
    return ev


def together(w, c, xs, x):
    """n requests for paths of their own, none of which can end"""
    d, n = w.d, c["n"]
    d.call("closeall")
    a = xs[c["x"]]["at"][0]
    start = len(d.log)
    for j in range(n):
        d.call("col", id=w.base + 30 + j, n=1, size=3, kind="a", gated=1)
        d.call("reg", id=w.base + 30 + j, uri=("/together%d" % j).encode().hex(), **x)
    ts = [threading.Thread(target=pull.request, args=((w.ip(a["ip"]), a["port"]), "/together%d" % j), daemon=True) for j in range(n)]
    for t in ts:
        t.start()
    busy = lambda log: sum("cs" in e for e in log[start:])
    d.wait(lambda log: busy(log) >= min(n, c["threads"]), 10)
    time.sleep(0.02)
    with d.cv:
        b = busy(d.log)
    d.call("openall", actor="G")
    for t in ts:
        t.join(20)
    for j in range(n):
        d.call("rem", id=w.base + 30 + j, uri=("/together%d" % j).encode().hex(), **x)
        d.call("drop", id=w.base + 30 + j)
    r = d.call("sync", actor="S")
    return r, dict(n=n, busy=b)


def decide(check, exe, scripts, what, per=40, width=48):
    evs = [None] * len(scripts)
    n = max(1, min(width, len(scripts)))
    lots = [list(range(k, len(scripts), n)) for k in range(n)]

    def work(k):
        w, used = None, 0
        for i in lots[k]:
            if w is None or used >= per or w.d.eof:
                if w and w.d.close(60) != 0 and last:
                    last.append(dict(op="crash", err=w.d.err.decode(errors="replace")[-3000:]))
                w, used = World(exe, k), 0
            used += 1
            evs[i] = last = run_script(w, scripts[i])
            if last and last[-1]["op"] == "stuck":
                w.d.p.kill()
                w.d.wait(lambda log: w.d.eof, 5)
        rc = w.d.close(60)
        if rc != 0 and not any(e["op"] in ("crash", "stuck") for e in last):
            last.append(dict(op="crash", err=w.d.err.decode(errors="replace")[-3000:]))

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, range(n)))
    bad = pcv.validate("ListeningTrace", [dict(ev=e) for e in evs], name=check.pid + what.replace(" ", "_"))
    check.count("traces_validated_against_impl", len(evs))
    check.count("exposers", sum(1 for ev in evs for e in ev if e["op"] == "new" and e["ok"]))
    check.count("refused_constructions", sum(1 for ev in evs for e in ev if e["op"] == "new" and not e["ok"]))
    check.count("requests", sum(1 for ev in evs for e in ev if e["op"] == "get"))
    check.sample(dict(kind=what, script=[pc.brief(e) for e in evs[0][:8]]))
    if bad:
        t, i, res = bad
        e = evs[t][i] if 0 <= i < len(evs[t]) else {}
        check.violation("%s: event %d of a recorded execution is not allowed by Listening.tla: %s" % (what, i + 1, json.dumps(pc.brief(e))[:1500]),
                        dict(script=[pc.printable(c) for c in scripts[t]], events=[pc.brief(x) for x in evs[t][:i + 1]], err=e.get("err", "")))


def model_scripts(check):
    r = pcv.tlc("MCListening", "MCListening%s.cfg" % ("_deep" if pcv.THOROUGH else ""), workers=1, timeout=900)
    if not r.ok:
        raise pcv.CheckError("the specification violates its own properties:\n" + r.out[-3000:])
    seqs = pcv.printed(r.out, "SEQ")
    check.count("model_transitions_replayed", len(seqs))
    pre = {json.dumps(s[:-1]) for s in seqs}
    out = []
    for s in seqs:
        if json.dumps(s) in pre:
            continue
        script = [dict(op="col", id=1, n=1)]
        for e in s:
            c = {k: v for k, v in e.items() if k not in ("uri", "path", "auth", "accept")}
            for k in ("uri", "path"):
                if k in e:
                    c[k] = bytes(e[k]).decode()
            if c["op"] == "new":
                c["form"] = len(out) % 3
                if c["form"] == 1:
                    c["threads"] = 2
                c["bad"] = NOWHERE[len(out) % len(NOWHERE)]
            script.append(c)
        for x in (1, 2):      # observe everything once more
            script += [dict(op="ports", x=x), dict(op="get", at=dict(of=x), path="/a"), dict(op="get", at=dict(of=x, k=1), path="/a")]
        script += [dict(op="get", at=dict(ip=1, port=p), path="/a") for p in (1, 2)]
        script += [dict(op="probe", at=dict(ip=1, port=p)) for p in (1, 2)]
        out.append(script)
    return out


PATHS = ["/metrics", "/a", "/a/b", "/m"]


def random_script(rng, n):
    s, live, used, cols, dead, cb = [], {}, 0, [], set(), 0
    auths, reg = {}, set()

    def address():
        r = rng.random()
        if r < 0.05:
            return dict(ip=0, port=0, ok=True)
        return dict(ip=rng.randint(1, 3), port=0 if r < 0.4 else rng.randint(1, 4), ok=rng.random() > 0.07)

    def get():
        at = dict(of=rng.choice(sorted(live)), k=rng.choice([0, 0, 1, 2])) if live and rng.random() < 0.8 else dict(ip=rng.randint(1, 3), port=rng.randint(1, 4))
        if used and rng.random() < 0.1:
            at = dict(of=rng.randint(1, used))
        c = dict(op="get", at=at, path=rng.choice(PATHS))
        if auths and rng.random() < 0.6:
            c["auth"] = pc.basic(*auths[rng.choice(sorted(auths))])
        if rng.random() < 0.2:
            c["accept"] = "gzip"
        return c

    for i in (1, 2, 3):
        s.append(dict(op="col", id=i, n=rng.choice([1, 2]), size=rng.choice([3, 2000]), kind=rng.choice("ar")))
        cols.append(i)
    while len(s) < n:
        r = rng.random()
        if r < 0.15 and used < 8:
            used += 1
            form = rng.randrange(3)
            s.append(dict(op="new", x=used, asked=[address() for _ in range(rng.choice([1, 1, 2, 3]))], form=form,
                          threads=2 if form == 1 else rng.choice([1, 1, 2, 3, 5]), bad=rng.choice(NOWHERE)))
            live[used] = s[-1]["threads"]
        elif r < 0.2 and live:
            x = rng.choice(sorted(live))
            live.pop(x)
            s += [dict(op="destroy", x=x)]
            if rng.random() < 0.5:
                s.append(dict(op="probe", at=dict(of=x)))
            # the address is free again
            if used < 8 and rng.random() < 0.6:
                used += 1
                s.append(dict(op="new", x=used, asked=[dict(ip=rng.randint(1, 3), port=rng.randint(1, 4), ok=True)], form=0, threads=1))
                live[used] = 1
        elif r < 0.25 and live:
            s.append(dict(op="ports", x=rng.choice(sorted(live))))
        elif r < 0.3:
            s.append(dict(op=rng.choice(["hold", "unhold", "probe"]), at=dict(ip=rng.randint(1, 3), port=rng.randint(1, 4))))
        elif r < 0.32 and live:
            x = rng.choice(sorted(live))
            s.append(dict(op="together", x=x, n=rng.choice([1, live[x], live[x] + 1, 3]), threads=live[x]))
        elif r < 0.5 and live:
            x, i, p = rng.choice(sorted(live)), rng.choice(cols), rng.choice(PATHS)
            if i not in dead and (x, i, p) not in reg:
                reg.add((x, i, p))
                s.append(dict(op="reg", x=x, id=i, uri=p, default=rng.random() < 0.5))
        elif r < 0.55 and reg:
            x, i, p = rng.choice(sorted(reg))
            reg.discard((x, i, p))
            if x in live:
                s.append(dict(op="rem", x=x, id=i, uri=p, default=rng.random() < 0.5))
        elif r < 0.6 and live:
            x, p = rng.choice(sorted(live)), rng.choice(PATHS)
            cb += 1
            realm = rng.choice([b"r%d" % cb, None]) if p == "/metrics" else b"r%d" % cb
            s.append(dict(op="auth", x=x, uri=p, cb=cb, realm=realm, ok=[(b"u%d" % cb, b"p")]))
            auths[(x, p)] = (b"u%d" % cb, b"p")
        elif r < 0.63 and len(dead) < 2:
            i = rng.choice(cols)
            if i not in dead:
                dead.add(i)
                s.append(dict(op="drop", id=i))
        elif r < 0.66:
            i = rng.choice(cols)
            if i not in dead:
                s.append(dict(op="bump", id=i))
        else:
            s.append(get())
    return s + [get() for _ in range(5)]


def c32(check):
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(pull.build)
        ms = model_scripts(check)
        exe = b.result()
    rng = random.Random(pcv.SEED * 32)
    k = 12 if pcv.THOROUGH else 1
    if len(ms) > 12000:
        ms = rng.sample(ms, 12000)
    decide(check, exe, ms, "model behaviours")
    decide(check, exe, [random_script(rng, rng.choice([15, 30, 60])) for _ in range(250 * k)], "random histories")
    # as many requests at a time as there are threads
    own = []
    for t in (1, 2, 3, 4, 8, 15):
        for form in (0, 1, 2):
            n = 2 if form == 1 else t
            own.append([dict(op="new", x=1, asked=[dict(ip=1, port=0, ok=True)], threads=n, form=form), dict(op="together", x=1, n=n, threads=n),
                        dict(op="together", x=1, n=min(n + 1, 15), threads=n), dict(op="ports", x=1)])
    own.append([dict(op="new", x=1, asked=[dict(ip=1, port=1, ok=True)], threads=0), dict(op="probe", at=dict(ip=1, port=1)),
                dict(op="new", x=2, asked=[dict(ip=1, port=1, ok=True)], threads=1), dict(op="get", at=dict(ip=1, port=1), path="/metrics")])
    decide(check, exe, own, "threads")
    check.assumptions += ["IPv4 addresses of the loopback network; an exposer with more threads than requested is allowed",
                          "an address list is comma separated, as civetweb documents"]
