"""The gateway client: C26 requests, C27 results, C28 grouping keys, C30 credentials and
headers (one operation at a time)."""
import base64
import concurrent.futures as cf
import json
import random
import re

import pcv
import pull
import push
from pull_checks import rand_bytes

HELP = re.compile(rb"# HELP c(\d+)_(\d+) ")
FAULTS = ["close", "reset", "partial", "garbage", "chunked"]


class Host:
    """a driver and a server, reused by many scripts"""

    def __init__(self, exe):
        self.exe = exe
        self.srv = push.Server()
        self.d = push.Driver(exe)
        self.base = 0
        self.gw = 0

    def restart(self):
        self.d.close()
        self.d = push.Driver(self.exe)

    def body_tokens(self, body, sizes):
        bl = pull.blocks(body)
        if bl is None:
            return False, []
        ok, toks = True, []
        for b in bl:
            m = HELP.match(b)
            if not m:
                return False, []
            i, j = int(m.group(1)), int(m.group(2))
            v = b.rsplit(b" ", 1)[-1].strip()
            if i in sizes and v.isdigit() and b == pull.block_text(i, j, int(v), "0", sizes[i]):
                toks.append([i - self.base, int(v), j])
            else:
                ok = False
        return ok, toks

    def record(self, r, sizes):
        ok, toks = self.body_tokens(r["body"], sizes)
        out = r["out"]
        return dict(m=r["method"], path=list(r["target"]), ctype=[list(x) for x in r["low"]["content-type"]],
                    auth=[list(x) for x in r["low"]["authorization"]], ua=[list(x) for x in r["low"]["user-agent"]],
                    hdrs=[[list(k.encode("latin-1")), list(v)] for k, v in r["headers"] if k.lower().startswith("x-")],
                    text=ok and r["ok"], toks=toks, reused=r["reused"],
                    out=dict(k="status", s=out[1]) if out[0] == "status" else dict(k="fault", s=0))


def gw_command(h, c):
    """(arguments of the driver's gw command, configuration for the specification)"""
    port = h.srv.port
    path = c.get("base", "")
    kw = dict(gw=h.gw, job=c["job"].hex(), labels=",".join(a.hex() + ":" + b.hex() for a, b in c["labels"]) or "")
    kw = {k: v for k, v in kw.items() if v != ""}
    auth, ua = [], []
    kind = c["kind"]
    kw["kind"] = kind
    scheme = c.get("scheme", "")
    if kind == "url":
        kw["url"] = ("%s127.0.0.1:%d%s" % (scheme, port, path)).encode().hex()
        path = path.rstrip("/")
    else:
        kw["host"] = ("%s127.0.0.1" % scheme).encode().hex()
        kw["port"] = "%d" % port
        path = ""
    if kind in ("url", "setup") and c.get("ua"):
        kw["ua"] = c["ua"].hex()
        ua = [list(c["ua"])]
    if kind == "cred":
        kw["user"] = c["user"].hex()
        kw["pass"] = c["pass"].hex()
        kw = {k: v for k, v in kw.items() if v != ""}
        if "timeout" in c:
            kw["secs"] = c["timeout"]
        if c["user"]:
            auth = [list(b"Basic " + base64.b64encode(c["user"] + b":" + c["pass"]))]
    cfg = dict(base=list(path.encode()), job=list(c["job"]), labels=[[list(a), list(b)] for a, b in c["labels"]], auth=auth, ua=ua)
    return kw, cfg


def run_script(h, script):
    h.base += 50
    h.gw += 1
    d, srv = h.d, h.srv
    sizes, ev = {}, []
    up = True
    for c in script:
        op = c["op"]
        e = dict(op=op)
        if op == "down":
            if up:
                srv.down()
            up = False
            continue
        if op == "up":
            if not up:
                srv.up()
            up = True
            continue
        if op == "hangup":
            srv.hang_up()
            continue
        if op == "gw":
            kw, e["cfg"] = gw_command(h, c)
            r = d.call("gw", **kw)
        elif op == "col":
            sizes[c["id"] + h.base] = c.get("size", 3)
            r = d.call("col", id=c["id"] + h.base, n=c["n"], size=c.get("size", 3))
            e.update(id=c["id"], n=c["n"])
        elif op in ("drop", "bump"):
            r = d.call(op, id=c["id"] + h.base)
            e.update(id=c["id"])
        elif op == "reg":
            kw = dict(gw=h.gw, id=c["id"] + h.base)
            if c.get("labels") is not None:
                kw["labels"] = ",".join(a.hex() + ":" + b.hex() for a, b in c["labels"])
            r = d.call("reg", **kw)
            e.update(id=c["id"], labels=[[list(a), list(b)] for a, b in c.get("labels") or []], done=bool(r) and "ex" not in r)
        elif op == "header":
            r = d.call("header", gw=h.gw, h=(c["name"] + (b": " + c["value"] if c["value"] else b";")).hex())   # libcurl's notation of an empty value
            e.update(h=[list(c["name"]), list(c["value"])], res=bool(r) and r.get("res") is True)
        else:
            with srv.lock:
                srv.plan.clear()
                srv.plan.extend(c.get("plan", []))
                srv.requests.clear()
            r = d.call(op, timeout=60.0, gw=h.gw, **({"async": 1} if c.get("async") else {}))
            with srv.lock:
                reqs = list(srv.requests)
            e.update({"async": bool(c.get("async"))}, down=not up, reqs=[h.record(x, sizes) for x in reqs],
                     res=r.get("res", 1 << 20) if r else 0)
        if not r or (op == "gw" and "ex" in r):
            ev.append(dict(op="crash" if d.eof else "stuck", err=d.err.decode(errors="replace")[-3000:], at=op))
            break
        ev.append(e)
    if not up:
        srv.up()
    if d.eof or (ev and ev[-1]["op"] == "stuck"):
        d.p.kill()
        h.restart()
    else:
        d.call("end", gw=h.gw)
        for i in sizes:
            d.call("drop", id=i)
    return ev


def run_scripts(exe, scripts):
    out = [None] * len(scripts)
    n = max(1, min(pcv.NCPU, len(scripts)))

    def work(k):
        h = Host(exe)
        for i in range(k, len(scripts), n):
            out[i] = run_script(h, scripts[i])
        if h.d.close() != 0:
            out[i].append(dict(op="crash", err=h.d.err.decode(errors="replace")[-3000:]))
        h.srv.down()

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, range(n)))
    return out


def brief(e):
    e = dict(e)
    if "cfg" in e:
        e["cfg"] = {k: (bytes(v).decode("latin-1") if k in ("base", "job") else v) for k, v in e["cfg"].items()}
    if "reqs" in e:
        e["reqs"] = [dict(r, path=bytes(r["path"]).decode("latin-1"), ctype=[bytes(x).decode("latin-1") for x in r["ctype"]],
                          auth=[bytes(x).decode("latin-1") for x in r["auth"]], ua=[bytes(x).decode("latin-1") for x in r["ua"]],
                          hdrs=[[bytes(y).decode("latin-1") for y in x] for x in r["hdrs"]], toks=r["toks"][:20]) for r in e["reqs"]]
    return e


def printable(c):
    def f(v):
        return v.hex() if isinstance(v, bytes) else [f(x) for x in v] if isinstance(v, (list, tuple)) else v
    return {k: f(v) for k, v in c.items()}


def decide(check, exe, scripts, what):
    evs = run_scripts(exe, scripts)
    bad = pcv.validate("GatewayTrace", [dict(ev=e) for e in evs], name=check.pid + what.replace(" ", "_"))
    check.count("traces_validated_against_impl", len(evs))
    check.count("requests", sum(len(e.get("reqs", [])) for ev in evs for e in ev))
    check.count("operations", sum(1 for ev in evs for e in ev if "reqs" in e))
    if evs:
        check.sample(dict(kind=what, script=[brief(e) for e in evs[0][:6]]))
    if bad:
        t, i, res = bad
        e = evs[t][i] if 0 <= i < len(evs[t]) else {}
        check.violation("%s: event %d of a recorded execution is not allowed by Gateway.tla: %s" % (what, i + 1, json.dumps(brief(e))[:2000]),
                        dict(script=[printable(c) for c in scripts[t]], events=[brief(x) for x in evs[t][:i + 1]], err=e.get("err", "")))


# ------------------------------------------------------------------ generators

NAMES = [b"instance", b"a", b"z9", b"_x", b"some_long_label_name", b"B"]


def value(rng):
    k = rng.random()
    if k < 0.3:
        return bytes(rng.choice(b"abcXYZ019-_.~") for _ in range(rng.randint(1, 12)))
    if k < 0.4:
        return rng.choice([b"", b".", b"..", b"...", b"/", b"a/b", b"//", b" ", b"%41", b"%", b"a@base64", b"@base64", b"job", b"metrics",
                           b"=", b"?x=1", b"#frag", b"a;b", b"a+b", b"\xc3\xa4", b"\xff", b"\x00", b"a\x00b", b"\r\n", b"-", b"~", b"x:y", b"\\"])
    return rand_bytes(rng, rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 40]))


def labels(rng, names, n):
    # C strings of the map are ordered by name; names are unique
    return [(a, value(rng)) for a in sorted(rng.sample(names, min(n, len(names))))]


def gateway(rng, simple=False):
    kind = rng.choice(["url", "url", "setup", "cred", "plain"])
    c = dict(op="gw", kind=kind, job=b"job1" if simple else value(rng), labels=[] if simple and rng.random() < 0.5 else labels(rng, NAMES[:3], rng.randint(0, 3)))
    c["scheme"] = rng.choice(["http://", "http://", "HTTP://"] if kind == "url" else ["", "http://"])
    if kind == "url":
        c["base"] = rng.choice(["", "/", "/pg", "/pg/", "/a/b", "/a/b/"])
    if kind in ("url", "setup") and rng.random() < 0.6:
        c["ua"] = rng.choice([b"agent/1", b"x y z"])
    if kind == "cred":
        c["user"] = rng.choice([b"", b"u", b"user", b"us er", b"\xc3\xa4", b"a@b"])
        c["pass"] = rng.choice([b"", b"p", b"p:q", b"pass word", b"\xff\xfe", b":", b"x" * 60])
    return c


def outcome(rng, faults, fail=0.3):
    if rng.random() < faults:
        return (rng.choice(FAULTS),)
    s = rng.choice([400, 401, 403, 404, 408, 413, 429, 500, 502, 503, 504, 599]) if rng.random() < fail else rng.choice([200, 200, 200, 201, 202, 204, 206, 299, 300, 301, 302, 304, 307, 399])
    return ("status", s, rng.choice([0, 0, 5, 3000]), rng.random() < 0.7)


def operation(rng, faults, fail):
    c = dict(op=rng.choice(["push", "pushadd", "push", "pushadd", "del", "delinst"]))
    if rng.random() < 0.4:
        c["async"] = 1
    c["plan"] = [outcome(rng, faults, fail) for _ in range(8)]
    return c


def random_script(rng, n, faults=0.0, fail=0.0, simple=False, downs=0.0, sizes=(1, 3, 500), headers=0.06):
    s = [gateway(rng, simple)]
    alive, used, cols = set(), set(), []
    nh = 0
    for i in range(1, rng.randint(1, 5) + 1):
        s.append(dict(op="col", id=i, n=rng.choice([0, 1, 1, 2, 4]), size=rng.choice(sizes)))
        cols.append(i)
        alive.add(i)
    while len(s) < n:
        x = rng.random()
        if x < 0.3:
            i = rng.choice(cols)
            if i in alive and (i not in used or rng.random() < 0.2):
                used.add(i)
                lab = None if rng.random() < 0.3 else labels(rng, NAMES[3:], rng.randint(0, 3))
                s.append(dict(op="reg", id=i, labels=lab))
        elif x < 0.36 and len(alive) > 1:
            i = rng.choice(sorted(alive))
            alive.discard(i)
            s.append(dict(op="drop", id=i))
        elif x < 0.42:
            i = rng.choice(cols)
            if i in alive:
                s.append(dict(op="bump", id=i))
        elif x < 0.42 + headers:
            nh += 1
            s.append(dict(op="header", name=b"X-H%d" % nh, value=rng.choice([b"v", b"some value", b"a:b", b"1,2;q=3", b"Z" * 70, b""])))
        elif x < 0.42 + headers + downs:
            s += [dict(op="down"), operation(rng, 0, 0), dict(op="up")]
        elif x < 0.42 + headers + downs + 0.02:
            s.append(dict(op="hangup"))
        else:
            s.append(operation(rng, faults, fail))
    s += [dict(op="push", plan=[]), dict(op="delinst", plan=[])]
    return s


def model_scripts(check):
    r = pcv.tlc("MCGateway", "MCGateway%s.cfg" % ("_deep" if pcv.THOROUGH else ""), workers=1, timeout=900)
    if not r.ok:
        raise pcv.CheckError("the specification violates its own properties:\n" + r.out[-3000:])
    seqs = pcv.printed(r.out, "SEQ")
    check.count("model_transitions_replayed", len(seqs))
    pre = {json.dumps(s[:-1]) for s in seqs}
    out = []
    fault = 0
    for s in seqs:
        if json.dumps(s) in pre:
            continue
        script = [dict(op="gw", kind="url", scheme="http://", base="", job=b"j", labels=[(b"i", b"1")])]
        script += [dict(op="col", id=i, n=i) for i in (1, 2)]
        for e in s:
            c = dict(op=e["op"])
            if "id" in e:
                c["id"] = e["id"]
            if e["op"] == "reg":
                c["labels"] = [(bytes(a), bytes(b)) for a, b in e["labels"]]
            if e["op"] == "header":
                c["name"], c["value"] = bytes(e["h"][0]), bytes(e["h"][1])
            if "plan" in e:
                plan = []
                for o in e["plan"]:
                    if o["k"] == "fault":
                        fault += 1
                        plan.append((FAULTS[fault % len(FAULTS)],))
                    else:
                        plan.append(("status", o["s"], 0, True))
                c["plan"] = plan
                if e["async"]:
                    c["async"] = 1
            if e.get("down"):
                script += [dict(op="down"), c, dict(op="up")]
            else:
                script.append(c)
        out.append(script)
    return out


# ------------------------------------------------------------------ the checks

def c26(check):
    exe = push.build()
    decide(check, exe, model_scripts(check), "model behaviours")
    rng = random.Random(pcv.SEED * 26)
    k = 30 if pcv.THOROUGH else 1
    decide(check, exe, [random_script(rng, rng.randint(10, 50)) for _ in range(200 * k)], "random histories")
    decide(check, exe, [random_script(rng, 15, sizes=(1000, 70000, 1500000)) for _ in range(24 * k)], "large bodies")
    check.assumptions += ["libcurl 8.5 sends what it is told", "label names differ from job and from each other"]


def c27(check):
    exe = push.build()
    decide(check, exe, model_scripts(check), "model behaviours")
    rng = random.Random(pcv.SEED * 27)
    k = 30 if pcv.THOROUGH else 1
    decide(check, exe, [random_script(rng, rng.randint(15, 60), faults=rng.choice([0.0, 0.1, 0.3]), fail=rng.choice([0.1, 0.4]), simple=True, downs=0.1)
                        for _ in range(250 * k)], "faults")
    # every status once per kind of operation
    scripts = []
    st = list(range(200, 600)) + [600, 700, 999]
    for op in ("push", "pushadd", "del", "delinst"):
        for a in (0, 1):
            for i in range(0, len(st), 80):
                s = [dict(op="gw", kind="plain", scheme="", job=b"j", labels=[]), dict(op="col", id=1, n=1), dict(op="reg", id=1)]
                for x in st[i:i + 80]:
                    c = dict(op=op, plan=[("status", x, 0, True)])
                    if a:
                        c["async"] = 1
                    s.append(c)
                scripts.append(s)
    decide(check, exe, scripts, "all statuses")
    # servers that do not answer in time
    scripts = []
    for op in ("push", "pushadd", "del", "delinst"):
        for a in ({}, {"async": 1}):
            scripts.append([dict(op="gw", kind="cred", user=b"", timeout=1, **{"pass": b""}, scheme="", job=b"j", labels=[]), dict(op="col", id=1, n=1),
                            dict(op="reg", id=1), dict(op=op, plan=[("hang",)], **a), dict(op=op, plan=[], **a)])
    decide(check, exe, scripts, "timeouts")
    check.assumptions += ["libcurl 8.5; it repeats a request once a reused connection is closed without an answer"]


def c28(check):
    exe = push.build()
    rng = random.Random(pcv.SEED * 28)
    vals = [bytes([x]) for x in range(256)] + [b"a" + bytes([x]) for x in range(256)] + [bytes([x]) + b"." for x in range(0, 256, 5)]
    vals += [b"", b".", b"..", b"...", b"../..", b"./a", b"a/..", b"/", b"//", b"%2e", b"%2E%2e", b"a@base64", b"@base64", b"=", b"==", b"a=", b"?", b"#"]
    vals += [bytes([x, y]) for x in (0, 46, 47, 62, 63, 126, 128, 250, 251, 254, 255) for y in (0, 46, 47, 62, 63, 126, 191, 239, 254, 255)]
    vals += [rand_bytes(rng, n) for n in range(0, 70) for _ in range(3 if not pcv.THOROUGH else 60)]
    vals += [rand_bytes(rng, n) for n in (100, 255, 256, 1000, 3000)]
    scripts = []

    def script(job, gl, cl):
        s = [dict(op="gw", kind="url", scheme="http://", base=rng.choice(["", "/", "/b"]), job=job, labels=gl), dict(op="col", id=1, n=1),
             dict(op="reg", id=1, labels=cl)]
        return s + [dict(op=o, plan=[]) for o in ("push", "pushadd", "del", "delinst")]

    for v in vals:
        scripts.append(script(v, [], None))
        scripts.append(script(b"j", [(b"g", v)], [(b"c", v)]))
    for _ in range(400 if not pcv.THOROUGH else 20000):
        g = labels(rng, NAMES[:3], rng.randint(0, 3))
        c = labels(rng, NAMES[3:], rng.randint(0, 3)) if rng.random() < 0.8 else None
        scripts.append(script(value(rng), g, c))
    decide(check, exe, scripts, "grouping keys")
    check.count("keys", len(scripts))
    check.assumptions += ["the Pushgateway's rules as in GroupKey.tla", "label names differ from job and from each other"]


def c30(check):
    exe = push.build()
    rng = random.Random(pcv.SEED * 30)
    k = 30 if pcv.THOROUGH else 1
    scripts = []
    for _ in range(250 * k):
        s = random_script(rng, rng.randint(15, 60), faults=0.15, fail=0.2, downs=0.06, headers=0.15)
        s[0] = gateway(rng, True)
        if rng.random() < 0.6:
            s[0].update(kind="cred", user=rng.choice([b"u", b"user name", b"\xc3\xa4\xff", b"a%40b", b"u\\v"]),
                        scheme=rng.choice(["", "http://"]), **{"pass": rng.choice([b"", b"p", b"p:q:r", b"%3A", b"\x01\x7f", b"pp" * 40])})
            s[0].pop("ua", None)
            s[0].pop("base", None)
        scripts.append(s)
    decide(check, exe, scripts, "random histories")
    decide(check, exe, model_scripts(check)[::1 if pcv.THOROUGH else 3], "model behaviours")
    check.assumptions += ["header names starting with X-; values without control characters", "user names without a colon"]
