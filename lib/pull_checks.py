"""The exposer: C19 scrapes, C21 authentication, C22 credentials, C23 framing,
C24 self-metrics (one request or call at a time)."""
import base64
import concurrent.futures as cf
import json
import random
import re
import string
import zlib

import pcv
import pull

REVEALS = re.compile(rb"exposer_|c\d+_\d|# HELP|# TYPE")
HELP = re.compile(rb"# HELP c(\d+)_(\d+) ")


class Server:
    """a driver with an exposer; reused by many scripts, each with paths of its own"""

    def __init__(self, exe, threads=1, keep=0):
        self.d = pull.Driver(exe)
        self.keep = keep
        r = self.d.call("new", threads=threads, keep=keep)
        if not r or "port" not in r:
            raise pcv.CheckError("the exposer did not start: %r %s" % (r, self.d.err[-2000:]))
        self.port = r["port"]
        self.n = 0
        self.base = 0         # collectable and callback numbers of the current script
        self.sizes = {}
        self.client = None

    def fresh(self):
        self.n += 1
        self.base += 50
        self.prefix = "/t%d" % self.n
        self.sizes = {}

    def sync(self):
        return self.d.call("sync", actor="S")

    def close(self):
        if self.client:
            self.client.close()
        rc = self.d.close(60)
        return rc


def reading(srv, r):
    """what a response says, in terms of the current script"""
    out = dict(text=False, toks=[], scr=-1, bytes=-1, cnt=-1, sumok=False, enc=0)
    out["enc"], plain = pull.decoded(r)
    if r.status != 200 or plain is None:
        return out
    bl = pull.blocks(plain)
    if bl is None:
        return out
    ok, seen = True, {}
    for b in bl:
        m = HELP.match(b)
        if m:
            i, j = int(m.group(1)), int(m.group(2))
            kind, size = srv.sizes.get(i, ("a", -1))
            v = b.rsplit(b" ", 1)[-1].strip()
            if size >= 0 and v.isdigit() and b == pull.block_text(i, j, int(v), kind, size):
                out["toks"].append([i - srv.base, int(v), j])
            else:
                out["toks"].append([0, 0, 0])
                ok = False
            continue
        s = pull.self_metric(b)
        if not s or s[0] in seen:
            ok = False
        else:
            seen[s[0]] = s[1]
    out["text"] = ok
    whole = lambda x: int(x) if x == int(x) and 0 <= x < 2**31 else -1
    g = lambda n, k: seen.get(n, {}).get(k, -1.0)
    out["scr"] = whole(g("exposer_scrapes_total", "exposer_scrapes_total"))
    out["bytes"] = whole(g("exposer_transferred_bytes_total", "exposer_transferred_bytes_total"))
    out["cnt"] = whole(g("exposer_request_latencies", "exposer_request_latencies_count"))
    out["sumok"] = g("exposer_request_latencies", "exposer_request_latencies_sum") >= 0
    return out


def get_event(srv, c):
    """performs a request; the event for Exposer!Step"""
    headers = []
    if c.get("auth") is not None:
        headers.append(("Authorization", c["auth"]))
    if c.get("accept") is not None:
        headers.append(("Accept-Encoding", c["accept"]))
    headers += c.get("more", [])
    mark = len(srv.d.log)
    uri = srv.prefix + c["path"]
    if srv.keep:
        reused = srv.client is not None
        r = None
        for attempt in (0, 1):
            if srv.client is None:
                try:
                    srv.client = pull.Client(srv.port)
                except OSError:
                    r = pull.Response()
                    break
            r = pull.request(srv.port, uri, headers, keep=True, client=srv.client)
            if r.status == 0 and reused and not srv.client.buf and attempt == 0:
                srv.client.close()
                srv.client = None
                continue
            break
        if srv.client and (not r.ok or (r.get("connection") or "").lower() == "close"):
            srv.client.close()
            srv.client = None
    else:
        r = pull.request(srv.port, uri, headers)
    srv.sync()
    with srv.d.cv:
        ev = srv.d.log[mark:]
    x = reading(srv, r)
    cl = r.get("content-length")
    www = r.get("www-authenticate") or ""
    a = dict(status=r.status, framed=r.ok and r.extra == 0, clen=int(cl) if cl and cl.isdigit() and int(cl) < 2**31 else -1,
             sent=len(r.body) + r.extra, ctype=list((r.get("content-type") or "").encode("latin-1")), www=list(www.encode("latin-1")),
             cbs=[dict(cb=e["as"] - srv.base, u=list(bytes.fromhex(e["u"])), p=list(bytes.fromhex(e["p"]))) for e in ev if "as" in e],
             asked=[e["cs"] - srv.base for e in ev if "cs" in e],
             reveals=r.status != 200 and REVEALS.search(r.body) is not None, **x)
    e = dict(op="get", path=list(c["path"].encode()), auth=[] if c.get("auth") is None else [list(c["auth"])],
             accept=[list(c["accept"].encode("latin-1"))] if c.get("accept") is not None else [], r=a)
    return e, "%d %s" % (r.status, r.note)


def run_script(srv, script, own=False):
    """a list of calls -> events (a final 'stuck' or 'crash' event if the exposer failed)"""
    if own:
        srv.prefix, srv.base, srv.sizes = "", 0, {}
    else:
        srv.fresh()
    ev = []
    for c in script:
        op = c["op"]
        hexpath = lambda p: (srv.prefix + p).encode().hex()
        if op == "get":
            e, note = get_event(srv, c)
            if srv.d.eof:
                e = dict(op="crash", err=srv.d.err.decode(errors="replace")[-3000:])
            ev.append(e)
            if e["op"] == "crash":
                break
            continue
        if op == "col":
            srv.sizes[c["id"] + srv.base] = (c.get("kind", "a"), c.get("size", 3))
            r = srv.d.call("col", id=c["id"] + srv.base, n=c["n"], size=c.get("size", 3), kind=c.get("kind", "a"))
            e = dict(op="col", id=c["id"], n=c["n"])
        elif op in ("drop", "bump"):
            r = srv.d.call(op, id=c["id"] + srv.base)
            e = dict(op=op, id=c["id"])
        elif op in ("reg", "rem"):
            kw = {} if own and c["uri"] == "/metrics" and c.get("default") else dict(uri=hexpath(c["uri"]))
            r = srv.d.call(op, id=c["id"] + srv.base, **kw)
            e = dict(op=op, id=c["id"], uri=list(c["uri"].encode()), done=bool(r) and "ex" not in r)
        elif op == "auth":
            kw = {} if own and c["uri"] == "/metrics" and c.get("default") else dict(uri=hexpath(c["uri"]))
            r = srv.d.call("auth", cb=c["cb"] + srv.base, realm=c["realm"].hex(),
                           ok=",".join(u.hex() + ":" + p.hex() for u, p in c["ok"]), **kw)
            e = dict(op="auth", uri=list(c["uri"].encode()), cb=c["cb"], realm=list(c["realm"]),
                     ok=[[list(u), list(p)] for u, p in c["ok"]], done=bool(r) and "ex" not in r)
        if not r:
            e = dict(op="crash" if srv.d.eof else "stuck", err=srv.d.err.decode(errors="replace")[-3000:])
            ev.append(e)
            break
        ev.append(e)
    if not srv.d.eof and not own:
        for i in list(srv.sizes):
            srv.d.call("drop", id=i)
    return ev


def run_scripts(exe, scripts, threads=1, keep=0, own=False, per=250):
    """runs scripts in parallel drivers; list of event lists"""
    out = [None] * len(scripts)
    n = max(1, min(pcv.NCPU, len(scripts)))
    lots = [list(range(k, len(scripts), n)) for k in range(n)]
    if own:
        n, lots = 16, [[k] for k in range(len(scripts))]
    final = []

    def work(lot):
        srv, used = None, 0
        for k in lot:
            if srv is None or used >= per or srv.d.eof:
                if srv:
                    final.append((srv.close(), srv.d.err, k))
                srv, used = Server(exe, threads, keep), 0
            used += 1
            out[k] = run_script(srv, scripts[k], own)
            if out[k] and out[k][-1]["op"] == "stuck":
                srv.d.p.kill()
                srv.d.wait(lambda log: srv.d.eof, 5)
        rc = srv.close()
        if rc != 0 and not any(e["op"] in ("crash", "stuck") for e in out[lot[-1]]):
            out[lot[-1]].append(dict(op="crash", err=srv.d.err.decode(errors="replace")[-3000:]))

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, lots))
    return out


def decide(check, exe, scripts, what, **kw):
    evs = run_scripts(exe, scripts, **kw)
    bad = pcv.validate("ExposerTrace", [dict(ev=e) for e in evs], name=check.pid + what)
    check.count("traces_validated_against_impl", len(evs))
    check.count("requests", sum(1 for ev in evs for e in ev if e["op"] == "get"))
    if evs:
        check.sample(dict(kind=what, script=[brief(e) for e in evs[0][:8]]))
    if bad:
        t, i, res = bad
        e = evs[t][i] if 0 <= i < len(evs[t]) else {}
        check.violation("%s: event %d of a recorded execution is not allowed by Exposer.tla: %s" % (what, i + 1, json.dumps(brief(e))[:1500]),
                        dict(script=[printable(c) for c in scripts[t]], options=kw, events=[brief(x) for x in evs[t][:i + 1]],
                             err=e.get("err", "")))


def printable(c):
    return {k: (v.hex() if isinstance(v, bytes) else [[x.hex() if isinstance(x, bytes) else x for x in y] for y in v] if k in ("ok", "more") else v)
            for k, v in c.items()}


def brief(e):
    e = dict(e)
    for k in ("path", "uri", "realm"):
        if k in e and isinstance(e[k], list):
            e[k] = bytes(e[k]).decode("latin-1")
    if "auth" in e:
        e["auth"] = [bytes(h).decode("latin-1") for h in e["auth"]]
    if "r" in e:
        r = dict(e["r"])
        for k in ("ctype", "www"):
            r[k] = bytes(r[k]).decode("latin-1")
        r["toks"] = r["toks"][:40]
        e["r"] = r
    return e


# ------------------------------------------------------------------ generators

def basic(u, p):
    return b"Basic " + base64.b64encode(u + b":" + p)


def model_scripts(check, mode):
    r = pcv.tlc("MCExposer", "MCExposer_%s%s.cfg" % (mode, "_deep" if pcv.THOROUGH else ""), workers=1, timeout=900)
    if not r.ok:
        raise pcv.CheckError("the specification violates its own properties:\n" + r.out[-3000:])
    seqs = pcv.printed(r.out, "SEQ")
    check.count("model_transitions_replayed", len(seqs))
    pre = {json.dumps(s[:-1]) for s in seqs}
    out = []
    for s in seqs:
        if json.dumps(s) in pre:
            continue
        script = [dict(op="col", id=i, n=i) for i in (1, 2)]
        for e in s:
            c = dict(op=e["op"])
            for k in ("id", "cb"):
                if k in e:
                    c[k] = e[k]
            if "uri" in e:
                c["uri"] = bytes(e["uri"]).decode()
            if "realm" in e:
                c["realm"] = bytes(e["realm"])
                c["ok"] = [(bytes(u), bytes(p)) for u, p in e["ok"]]
            if e["op"] == "get":
                c["path"] = bytes(e["path"]).decode()
                if e["auth"]:
                    c["auth"] = bytes(e["auth"][0])
            script.append(c)
        # observe everything once more
        paths = sorted({c["uri"] for c in script if "uri" in c} | {c["path"] for c in script if "path" in c})
        for p in paths:
            script.append(dict(op="get", path=p))
            for a in {c["ok"][0] for c in script if c["op"] == "auth"}:
                script.append(dict(op="get", path=p, auth=basic(*a)))
        out.append(script)
    return out


REALMS = [b"realm", b"r2", b"", b"some long realm, with comma", b"100%s sure %n", b'the "inner" one', b"back\\slash\\", b'"', b"r\xc3\xa9", b"x" * 130,
          b"long " * 60, b"y" * 1500]
ACCEPT_YES = ["gzip", "gzip, deflate", "deflate, gzip;q=1.0", "gzip;q=0.5", "br, gzip", "identity;q=0.2, gzip;q=1.0"]
ACCEPT_NO = [None, None, None, "identity", "deflate", "br", "deflate, br;q=0.3"]
CODINGS = ["gzip"] * 5 + ["GZIP", "Gzip", "deflate", "br", "identity", "zstd", "compress", "*", "x-gzip", "gzipped", "agzip", "gzip2", "gzi"]
WEIGHTS = [""] * 6 + [";q=0", "; q=0", ";q=0.0", " ;q=0.000", ";q=0.001", ";q=0.5", "; q=1", ";q=1.000", ";Q=0", ";q=0.10"]   # the server rejects requests with tabs


def accept_header(rng):
    """a list of codings with weights, in the syntax of RFC 9110"""
    k = rng.choice([1, 1, 2, 2, 3, 4])
    return rng.choice([",", ", ", " , ", ",  "]).join(rng.choice(CODINGS) + rng.choice(WEIGHTS) for _ in range(k))


def accept_script(rng, n):
    return ([dict(op="col", id=1, n=1, size=rng.choice([1, 50, 3000])), dict(op="reg", id=1, uri="/a")]
            + [dict(op="get", path="/a", accept=accept_header(rng)) for _ in range(n)])


PATHS = ["/metrics", "/a", "/b/c", "/x.y-z_1", "/long" + "g" * 60, "/a/b", "/a/b/c", "/ab", "/metrics/a", "/b"]


def random_script(rng, n, npaths=3, auth=0.0, gz=0.3, sizes=(1, 2, 40, 2000), unknown=0.1, ncols=5):
    """random calls, avoiding what the documentation leaves open (removing from unknown paths)"""
    paths = rng.sample(PATHS, npaths)
    s, cols, alive, reg, eps, auths, cb = [], [], set(), set(), set(), {}, 0

    def get(path=None, mode=None):
        p = path or rng.choice(paths)
        c = dict(op="get", path=p)
        if rng.random() < gz:
            c["accept"] = rng.choice(ACCEPT_YES)
        else:
            c["accept"] = rng.choice(ACCEPT_NO)
        if mode is None:
            mode = rng.random()
        if p in auths and mode < 0.5:
            c["auth"] = basic(*rng.choice(auths[p]))
        elif mode < 0.75 and auths:
            q = rng.choice(sorted(auths))
            c["auth"] = rng.choice([basic(*rng.choice(auths[q])), basic(b"x", b"y"), b"Basic x", b"Bearer abc", b"Basic " + base64.b64encode(b"nocolon")])
        return c

    for i in range(1, rng.randint(2, ncols) + 1):
        s.append(dict(op="col", id=i, n=rng.choice([0, 1, 1, 2, 5]), size=rng.choice(sizes), kind=rng.choice("ar")))
        cols.append(i)
        alive.add(i)
    while len(s) < n:
        x = rng.random()
        if x < 0.3:
            p, i = rng.choice(paths), rng.choice(cols)
            if i in alive and ((p, i) not in reg or rng.random() < 0.25):
                s.append(dict(op="reg", id=i, uri=p))
                reg.add((p, i))
                eps.add(p)
        elif x < 0.4 and reg:
            p, i = rng.choice(sorted(reg))
            if i in alive or rng.random() < 0.3:
                s.append(dict(op="rem", id=i, uri=p))
                reg.discard((p, i))
        elif x < 0.45 and eps:
            # removal of a collectable that is not registered there
            p, i = rng.choice(sorted(eps)), rng.choice(cols)
            if i in alive and (p, i) not in reg:
                s.append(dict(op="rem", id=i, uri=p))
        elif x < 0.5 and len(alive) > 1:
            i = rng.choice(sorted(alive))
            s.append(dict(op="drop", id=i))
            alive.discard(i)
        elif x < 0.55:
            i = rng.choice(cols)
            if i in alive:
                s.append(dict(op="bump", id=i))
        elif x < 0.55 + auth:
            p = rng.choice(paths)
            cb += 1
            ok = [(bytes(rng.choice(b"abc:"[:3]) for _ in range(rng.randint(0, 3))), bytes(rng.choice(b"abc:\x00\xff") for _ in range(rng.randint(0, 4))))
                  for _ in range(rng.randint(1, 2))]
            s.append(dict(op="auth", uri=p, cb=cb, realm=rng.choice(REALMS), ok=ok))
            auths[p] = ok
            eps.add(p)
        elif x < 0.55 + auth + unknown:
            s.append(get(rng.choice(["/zzz", "/nope/x", rng.choice(paths) + "/x", rng.choice(paths) + "x", rng.choice(paths)[:-1] + "-"])))
        else:
            s.append(get())
    for p in paths:
        s.append(get(p, 0.1))
        s.append(get(p, 0.9))
    return s


# ------------------------------------------------------------------ the checks

def wide_script(rng, npaths, ncols, auth):
    """many paths, or many collectables on one"""
    paths = ["/p%d" % i for i in range(npaths)]
    s = [dict(op="col", id=i, n=1, size=3) for i in range(1, ncols + 1)]
    regs = [(rng.randint(1, ncols), p) for p in paths] + [(i, rng.choice(paths)) for i in range(1, ncols + 1)]
    regs = list(dict.fromkeys(regs))
    rng.shuffle(regs)
    s += [dict(op="reg", id=i, uri=p) for i, p in regs]
    creds, cb = {}, 0
    for p in paths:
        if auth and rng.random() < auth:
            cb += 1
            creds[p] = (b"u%d" % cb, b"p%d" % cb)
            s.append(dict(op="auth", uri=p, cb=cb, realm=b"r%d" % cb, ok=[creds[p]]))

    def gets(ps):
        for p in ps:
            s.append(dict(op="get", path=p, **(dict(auth=basic(*creds[p])) if p in creds else {})))
            if p in creds and rng.random() < 0.5:
                q = rng.choice(list(creds))
                s.append(dict(op="get", path=p, **(dict(auth=basic(*creds[q])) if rng.random() < 0.6 else {})))

    gets(rng.sample(paths, len(paths)))
    out = set()
    for i, p in rng.sample(regs, len(regs) // 3):
        if rng.random() < 0.6:
            s.append(dict(op="rem", id=i, uri=p))
        elif i not in out:
            out.add(i)
            s.append(dict(op="drop", id=i))
    gets(rng.sample(paths, min(len(paths), 10)))
    return s


def c19(check):
    exe = pull.build()
    decide(check, exe, model_scripts(check, "collect"), "model behaviours")
    rng = random.Random(pcv.SEED * 19)
    k = 30 if pcv.THOROUGH else 1
    decide(check, exe, [random_script(rng, rng.randint(15, 60), rng.randint(1, 5)) for _ in range(160 * k)], "random histories")
    decide(check, exe, [wide_script(rng, a, b, 0) for _ in range(2 * k) for a, b in ((30, 12), (2, 100), (70, 70))], "many paths and collectables", own=True)
    # the default path, on exposers of their own
    own = []
    for _ in range(8 * k):
        s = random_script(rng, 25, 2)
        for c in s:
            if rng.random() < 0.8:
                c["default"] = True
        own.append(s)
    decide(check, exe, own, "default path", own=True)
    check.assumptions += ["civetweb routes a request to the handler of its path or of a registered path that is a prefix of it",
                          "a collectable registered several times for a path may appear up to that often"]


def c21(check):
    exe = pull.build()
    decide(check, exe, model_scripts(check, "auth"), "model behaviours")
    rng = random.Random(pcv.SEED * 21)
    k = 30 if pcv.THOROUGH else 1
    decide(check, exe, [random_script(rng, rng.randint(15, 60), rng.randint(1, 5), auth=0.15) for _ in range(200 * k)], "random histories")
    decide(check, exe, [wide_script(rng, a, 4, 0.8) for _ in range(2 * k) for a in (12, 40)], "many paths", own=True)
    own = []
    for _ in range(8 * k):
        s = random_script(rng, 25, 2, auth=0.15)
        for c in s:
            if rng.random() < 0.8:
                c["default"] = True
        own.append(s)
    decide(check, exe, own, "default path", own=True)
    check.assumptions += ["civetweb applies the authentication of a registered path also to paths that extend it and have none of their own"]


ALPHABET = (string.ascii_letters + string.digits + "+/").encode()


def printable_header(b):
    """can be sent as a header value: no control characters, no blanks at the ends"""
    return not any(x < 32 or x == 127 for x in b) and b == b.strip(b" \t")


def rand_bytes(rng, n):
    k = rng.random()
    pool = b":ab" if k < 0.3 else bytes(range(256)) if k < 0.7 else b":\x00\xff\n\r\t ab\xc3\xa4"
    return bytes(rng.choice(pool) for _ in range(n))


def mutate64(rng, b):
    b = bytearray(b)
    k = rng.randrange(7)
    if k == 0 and b:
        b[rng.randrange(len(b))] = rng.choice(b"-_=!*.,~\x80\xff@[`{/:")
    elif k == 1 and b:
        del b[rng.randrange(len(b))]
    elif k == 2:
        b.insert(rng.randint(0, len(b)), rng.choice(ALPHABET + b"=-_"))
    elif k == 3:
        b = b.rstrip(b"=")
    elif k == 4:
        b += b"=" * rng.randint(1, 4)
    elif k == 5 and len(b) >= 4:
        i = rng.randrange(0, len(b), 4)
        b[i:i + 4] = bytes([b[i]]) + b"==="
    elif k == 6 and b:
        i = rng.randrange(len(b))
        b[i:i + 1] = b"="
    return bytes(b)


def rand_header(rng):
    """(Authorization value or None)"""
    k = rng.random()
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 20, 60]) if rng.random() < 0.97 else rng.randint(200, 1500)
    u = rand_bytes(rng, n).replace(b":", b"") if rng.random() < 0.5 else rand_bytes(rng, n)
    p = rand_bytes(rng, rng.choice([0, 1, 2, 3, 4, 7, 30]))
    good = base64.b64encode(u + b":" + p)
    if k < 0.45:
        h = b"Basic " + good
    elif k < 0.75:
        h = b"Basic " + mutate64(rng, good)
    elif k < 0.8:
        h = b"Basic " + base64.b64encode(rand_bytes(rng, n).replace(b":", b""))
    elif k < 0.85:
        h = rng.choice([b"Bearer ", b"Digest ", b"", b"BasicX ", b"Basi ", b"Basic", b"Basic\xa0", b"X Basic ", b"Basic:"]) + good
    elif k < 0.88:
        h = b"Basic " + bytes(rng.choice(ALPHABET) for _ in range(rng.randint(0, 9)))
    elif k < 0.9:
        return None
    else:
        h = b"Basic " + bytes(rng.choice(bytes(range(33, 127)) + bytes(range(128, 256))) for _ in range(4 * rng.randint(0, 4)))
    h = h.strip(b" ")
    return h if printable_header(h) else b"Basic " + good


def every_byte_headers():
    for x in range(256):
        yield basic(bytes([x]), b"p")
        yield basic(b"u", bytes([x]))
        if x >= 33 and x != 127:
            for i in range(4):
                q = bytearray(b"dTpw")
                q[i] = x
                yield b"Basic " + bytes(q)
    for n in range(0, 5):
        for m in range(0, 5):
            yield basic(b"u" * n, b"p" * m)
            yield basic(b"u" * n, b":" * m)
            yield b"Basic " + base64.b64encode(b"u" * n + b":" + b"p" * m).rstrip(b"=")


def c22(check):
    exe = pull.build()
    rng = random.Random(pcv.SEED * 22)
    hs = list(every_byte_headers())
    hs += [rand_header(rng) for _ in range(60000 if pcv.THOROUGH else 3000)]
    scripts = []
    for i in range(0, len(hs), 40):
        part = hs[i:i + 40]
        ok = []
        for h in part:
            if h and rng.random() < 0.3:
                try:
                    t = base64.b64decode(h[6:], validate=True)
                    u, c, p = t.partition(b":")
                    if c:
                        ok.append((u, p))
                except ValueError:
                    pass
        s = [dict(op="col", id=1, n=1), dict(op="reg", id=1, uri="/a"), dict(op="auth", uri="/a", cb=1, realm=b"r", ok=ok)]
        s += [dict(op="get", path="/a", auth=h) for h in part]
        scripts.append(s)
    decide(check, exe, scripts, "Authorization headers")
    check.count("headers", len(hs))
    check.assumptions += ["header values without control characters and without leading or trailing blanks (civetweb strips them)"]


SELF = b"""# HELP exposer_transferred_bytes_total Transferred bytes to metrics services
# TYPE exposer_transferred_bytes_total counter
exposer_transferred_bytes_total 196605
# HELP exposer_scrapes_total Number of times metrics were scraped
# TYPE exposer_scrapes_total counter
exposer_scrapes_total 6
# HELP exposer_request_latencies Latencies of serving scrape requests, in microseconds
# TYPE exposer_request_latencies summary
exposer_request_latencies_count 6
exposer_request_latencies_sum 12001
exposer_request_latencies{quantile="0.5"} 2012
exposer_request_latencies{quantile="0.9"} 2145
exposer_request_latencies{quantile="0.99"} 2145
"""


def size_for(n):
    """size of a random text block so that the compressed response has about n bytes"""
    lo, hi = 1, n * 2
    while hi - lo > 1:
        z = (lo + hi) // 2
        c = zlib.compressobj(-1, zlib.DEFLATED, 31, 9)
        t = c.compress(SELF + pull.block_text(1, 0, 1, "r", z))
        lo, hi = (z, hi) if len(t + c.flush()) < n else (lo, z)
    return lo


def size_scripts(rng):
    """bodies of many sizes, plain and compressed"""
    marks = [16384, 32768, 65536, 131072, 1 << 20]
    if pcv.THOROUGH:
        marks += [1 << 21, 3 << 20]
    scripts = []
    sizes = list(range(1, 40)) + [rng.randint(40, 300000) for _ in range(60)]
    for m in marks[:4] + ([] if not pcv.THOROUGH else marks[4:]):
        sizes += [m + d for d in range(-700, -440, 1 if pcv.THOROUGH else 6)] + [m - 1, m, m + 1]
    sizes += [m + rng.randint(-900, 100) for m in marks for _ in range(3)]
    rng.shuffle(sizes)
    for i in range(0, len(sizes), 6):
        s = []
        for j, z in enumerate(sizes[i:i + 6], 1):
            s += [dict(op="col", id=j, n=1, size=z, kind=rng.choice("ar")), dict(op="reg", id=j, uri="/a"),
                  dict(op="get", path="/a", accept="gzip"), dict(op="get", path="/a"), dict(op="rem", id=j, uri="/a"), dict(op="drop", id=j)]
        scripts.append(s)
    # compressed sizes around multiples of the buffer, hitting them exactly
    for m in (1, 2, 3) if not pcv.THOROUGH else (1, 2, 3, 4, 5, 8):
        z0 = size_for(m * 32768)
        zs = list(range(z0 - 60, z0 + 60))
        for i in range(0, len(zs), 12):
            s = []
            for j, z in enumerate(zs[i:i + 12], 1):
                s += [dict(op="col", id=j, n=1, size=z, kind="r"), dict(op="reg", id=j, uri="/a"),
                      dict(op="get", path="/a", accept="gzip"), dict(op="rem", id=j, uri="/a"), dict(op="drop", id=j)]
            scripts.append(s)
    # many megabytes, many families
    big = [(4000000, 5, "r"), (4000000, 5, "a"), (10, 20, "a"), (100000, 20, "r")]
    if pcv.THOROUGH:
        big += [(3000000, 20, "r"), (3000000, 20, "a")]
    for z, n, kind in big:
        scripts.append([dict(op="col", id=1, n=n, size=z, kind=kind), dict(op="reg", id=1, uri="/a"), dict(op="get", path="/a"),
                        dict(op="get", path="/a", accept="gzip"), dict(op="get", path="/a")])
    return scripts


def c23(check):
    exe = pull.build(asan=False)
    rng = random.Random(pcv.SEED * 23)
    k = 20 if pcv.THOROUGH else 1
    decide(check, exe, size_scripts(rng), "sizes")
    decide(check, exe, [random_script(rng, 30, 2, auth=0.05, gz=0.5, sizes=(1, 10, 16000, 33000, 70000)) for _ in range(30 * k)],
           "reused connections", keep=1)
    decide(check, exe, size_scripts(rng)[:30], "sizes on reused connections", keep=1)
    decide(check, exe, [accept_script(rng, 24) for _ in range(12 * k)], "offered encodings")
    bursts(check, exe, rng, 12 * k, (20000, 200000, 500000))
    check.assumptions += ["where the header leaves the encoding open (*, x-gzip, contradicting weights) both are accepted"]


def c24(check):
    exe = pull.build(asan=False)
    rng = random.Random(pcv.SEED * 24)
    k = 20 if pcv.THOROUGH else 1
    decide(check, exe, model_scripts(check, "auth")[::1 if pcv.THOROUGH else 3], "model behaviours")
    decide(check, exe, [random_script(rng, rng.randint(40, 200), rng.randint(1, 5), auth=0.06, gz=0.5, sizes=(1, 10, 3000, 50000)) for _ in range(80 * k)],
           "random histories")
    decide(check, exe, [random_script(rng, 60, 2, auth=0.06, gz=0.5) for _ in range(20 * k)], "reused connections", keep=1)
    big = []
    for z in (1 << 16, 1 << 20, (1 << 20) + 77, 1 << 22, 1 << 24):
        z += rng.randint(0, 5000)
        big.append([dict(op="col", id=1, n=1, size=z, kind="r"), dict(op="reg", id=1, uri="/a")] + [dict(op="get", path="/a", accept=a) for a in ("gzip", None, "gzip", None, None)])
    decide(check, exe, big, "large bodies")
    decide(check, exe, [wide_script(rng, a, 6, 0.3) for _ in range(k) for a in (12, 40)], "many paths", own=True)
    bursts(check, exe, rng, 24 * k, (1, 30, 4000))


def response_record(srv, r):
    cl = r.get("content-length")
    return dict(status=r.status, framed=r.ok and r.extra == 0, clen=int(cl) if cl and cl.isdigit() and int(cl) < 2**31 else -1,
                sent=len(r.body) + r.extra, ctype=list((r.get("content-type") or "").encode("latin-1")), **reading(srv, r))


def bursts(check, exe, rng, n, sizes):
    """requests at the same time; afterwards the self-metrics settle at the exact counts"""
    plans = [[(rng.choice(sizes), rng.choice([2, 4, 8, 16]), rng.random()) for _ in range(4)] for _ in range(n)]

    def work(plan):
        srv = Server(exe, threads=rng.choice([2, 4, 8]))
        srv.fresh()
        ev = []
        total = sent = 0
        uri = srv.prefix + "/a"
        path = list(b"/a")
        import time
        for j, (size, k, gz) in enumerate(plan, 1):
            srv.sizes[srv.base + j] = ("r", size)
            r = srv.d.call("col", id=srv.base + j, n=1, size=size, kind="r")
            ev.append(dict(op="col", id=j, n=1))
            r = srv.d.call("reg", id=srv.base + j, uri=uri.encode().hex())
            ev.append(dict(op="reg", id=j, uri=path, done=bool(r)))
            hs = [[("Accept-Encoding", "gzip")] if gz < 0.5 and i % 2 else [] for i in range(3 * k)]
            with cf.ThreadPoolExecutor(k) as ex:
                rs = [dict(response_record(srv, r), accept=[list(x[1].encode()) for x in h]) for h, r in zip(hs, ex.map(lambda h: pull.request(srv.port, uri, h), hs))]
            end = time.time() + 5
            while True:
                total += len(rs)
                sent += sum(x["sent"] for x in rs)
                ev.append(dict(op="burst", path=path, rs=rs))
                r = response_record(srv, pull.request(srv.port, uri))
                if (r["scr"], r["bytes"], r["cnt"]) == (total, sent, total) or time.time() > end:
                    ev.append(dict(op="get", path=path, auth=[], accept=[], r=dict(r, www=[], cbs=[], asked=[], reveals=False)))
                    total += 1
                    sent += r["sent"]
                    break
                rs = [dict(r, accept=[])]
                time.sleep(0.02)
        if srv.close() != 0:
            ev.append(dict(op="crash", err=srv.d.err.decode(errors="replace")[-3000:]))
        return ev

    with cf.ThreadPoolExecutor(8) as ex:
        evs = list(ex.map(work, plans))
    bad = pcv.validate("ExposerTrace", [dict(ev=e) for e in evs], name=check.pid + "bursts")
    check.count("traces_validated_against_impl", len(evs))
    if bad:
        t, i, res = bad
        check.violation("concurrent requests: event %d is not allowed by Exposer.tla: %s" % (i + 1, json.dumps(evs[t][i])[:1500] if 0 <= i < len(evs[t]) else ""),
                        dict(plan=plans[t], events=evs[t][:i + 1]))
