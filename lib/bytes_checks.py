"""C13 names, C31 base64: stateless functions on byte strings."""
import base64
import json
import random

import pcv

TYPES = ["counter", "gauge", "histogram", "info", "summary"]


def model(check, module):
    r = pcv.tlc(module, timeout=300)
    if not r.ok:
        raise pcv.CheckError("the specification violates its own properties (%s):\n%s" % (module, r.out[-3000:]))


def batch(exe, lines, events_of, check, kind, chunk=100):
    """lines -> results -> events (events_of(line, result)) -> BytesTrace"""
    groups = [lines[i:i + chunk] for i in range(0, len(lines), chunk)]

    def once(gs, name):
        res = pcv.run_driver(exe, gs)
        traces = []
        for g, rs in zip(gs, res):
            ev = []
            for ln, r in zip(g, rs):
                e = dict(op=r["crash"]) if "crash" in r else None if "skip" in r else events_of(ln, r)
                if e is not None:
                    ev.append(e)
            if len(rs) > len(g):
                ev.append(dict(op=rs[-1]["crash"]))
            traces.append(dict(ev=ev))
        return res, traces, pcv.validate("BytesTrace", traces, name=name)

    res, traces, bad = once(groups, kind.replace(" ", "_"))
    if bad:
        t = bad[0]
        res2, traces2, bad2 = once([groups[t]], "again")
        if not bad2:
            raise pcv.CheckError("a rejected trace was accepted when repeated")
        _, l, _ = bad2
        ev = traces2[0]["ev"]
        check.violation("result not allowed by the specification: " + json.dumps(ev[l])[:500],
                        dict(calls=groups[t], rejected_event=l, event=ev[l], how="feed the calls to drivers/bytesdrv.cc"))
    check.count("traces_validated_against_impl", len(groups))
    check.count("calls_validated", len(lines))
    check.sample(dict(kind=kind, calls=groups[0][:5], events=traces[0]["ev"][:2]))


def build():
    return pcv.build("bytesdrv", ["core"], ["bytesdrv.cc"], flags=("-O1", "-g1", "-fsanitize=address"))


# ------------------------------------------------------------------- C31

def b64_event(line, r):
    op, *x = line.split(" ")
    return dict(op=op, x=pcv.unhexs(x[0] if x else ""), ex=r["ex"], out=pcv.unhexs(r["out"]))


def c31(check):
    model(check, "MCBase64")
    exe = build()
    rng = random.Random(pcv.SEED * 7919 + 31)
    L = []

    def add(op, x):
        L.append(op + " " + bytes(x).hex())

    for n in range(3):                       # all inputs of up to one byte, a net of two
        for _ in range(1):
            if n == 0:
                xs = [b""]
            elif n == 1:
                xs = [bytes([a]) for a in range(256)]
            else:
                step = range(256) if pcv.THOROUGH else list(range(0, 256, 5)) + [255, 251, 127, 128]
                xs = [bytes([a, b]) for a in step for b in step]
            for x in xs:
                add("enc", x)
                add("encurl", x)
    for v in range(64):                      # every symbol in every position
        for p in range(4):
            q = [rng.randrange(64) for _ in range(4)]
            q[p] = v
            n = q[0] << 18 | q[1] << 12 | q[2] << 6 | q[3]
            add("enc", n.to_bytes(3, "big"))
            add("encurl", n.to_bytes(3, "big"))
    for _ in range(6000 if pcv.THOROUGH else 800):
        x = rng.randbytes(rng.choice([3, 4, 5, 6, 7, 8, rng.randrange(9, 60), rng.randrange(60, 400)]))
        if rng.random() < 0.3:
            x = bytes(rng.choice([0, 0xff, 0xfb, 0xef, 0xbe, 0x3e, 0x3f]) for _ in x)
        add("enc", x)
        add("encurl", x)
        e = base64.b64encode(x)
        add("dec", e)
        e = bytearray(e)
        r = rng.random()
        if r < 0.2 and e:
            e = e[:-1]
        elif r < 0.3:
            e.append(rng.choice(b"A=\n \0"))
        elif r < 0.6 and e:                  # a bad or other symbol anywhere
            e[rng.randrange(len(e))] = rng.choice(list(b"=-_ \n\0.,@[`{/:") + [rng.randrange(256)])
        elif r < 0.7:
            e = bytearray(base64.b64encode(x[:len(x) // 2]) + base64.b64encode(x[len(x) // 2:]))
        elif r < 0.8:
            e = e + rng.choice([b"=", b"==", b"===", b"===="])
        elif r < 0.9 and len(e) > 4:
            e[-rng.randrange(1, 5)] = 61
        add("dec", e)
    sym = b"AQg/+=-_9z \xc1\x00"
    for n in range(0, 4):
        for i in range(len(sym) ** n):
            s = []
            for _ in range(n):
                s.append(sym[i % len(sym)])
                i //= len(sym)
            if n < 3 or pcv.THOROUGH:
                add("dec", s)
    sym4 = sym if pcv.THOROUGH else b"Ag/=-\xc1"
    for i in range(len(sym4) ** 4):          # all quads, alone and at either end
        s = []
        for _ in range(4):
            s.append(sym4[i % len(sym4)])
            i //= len(sym4)
        add("dec", s)
        add("dec", b"QUJD" + bytes(s))
        add("dec", bytes(s) + b"QUJD")
    for c in range(256):                     # every byte in every position of a quad
        for p in range(4):
            for base in (b"QUJD", b"QUI=", b"QQ=="):
                s = bytearray(base)
                s[p] = c
                add("dec", s)
    batch(exe, L, b64_event, check, "base64")
    check.assumptions += ["non-zero unused bits before the padding are accepted (the property only requires rejection of malformed lengths, symbols and padding)"]


# ------------------------------------------------------------------- C13

PREDS = [("check_metric", "counter")] + [("check_label", t) for t in TYPES] + [
    (p, t) for p in ("reg_metric", "reg_const", "add_label") for t in TYPES]
REP = b"\x00\x1f -./0189:;@AMZ[\\^_`alemqz{~\x7f\x80\xaa\xc3\xff"


def name_event(line, r):
    op, pred, ty, *x = line.split(" ")
    e = dict(op=op, kind="metric" if pred.endswith("metric") else "label", ty=ty, p=pcv.unhexs(x[0] if x else ""), via=pred)
    if op == "name":
        e["acc"] = r["acc"]
    else:
        e["res"] = r["res"]
    return e


def c13(check):
    model(check, "MCNames")
    exe = build()
    rng = random.Random(pcv.SEED * 7919 + 13)
    L = []

    def add(pred, ty, p, op="name"):
        L.append("%s %s %s %s" % (op, pred, ty, bytes(p).hex()))

    words = [b"l", b"L", b"le", b"l\x00", b"el", b"les", b"quantil", b"Quantil", b"quantile", b"_", b"__", b"a__", b"_a_", b"__name_",
             b"a:", b":", b"::", b":_", b"_:", b"a\xc3", b"metric_tota", b"A9", b"_1", b"1", b"inst", b"instanc", b"jo", b"job",
             b"_quantil", b"_l", b"le_", b"x" * 300, b"x" * 150 + b"-" + b"x" * 150, b"x" * 31 + b"\xff"]
    for pred, ty in PREDS:
        api = not pred.startswith("check")
        add(pred, ty, b"", "name1")
        add(pred, ty, b"")
        for a in range(256):
            if not api or a in REP or pcv.THOROUGH:
                add(pred, ty, [a])
        for w in words:
            add(pred, ty, w)
            add(pred, ty, w, "name1")
            for c in (b"e", b"-", b":", b"\x00", b"\x80", b" "):
                add(pred, ty, w + c, "name1")
    for pred, ty in PREDS[:6]:
        second = range(256) if pcv.THOROUGH else REP
        for a in second:
            for b in REP:
                if ty in ("counter", "histogram", "summary") or pcv.THOROUGH:
                    add(pred, ty, [a, b])
    good = b"abzAZ019_:"
    for _ in range(3000 if pcv.THOROUGH else 300):
        n = rng.choice([3, 5, 8, 17, 40, 200])
        p = bytearray(rng.choice(good) for _ in range(n))
        if rng.random() < 0.5:
            p[rng.randrange(n)] = rng.choice(REP)
        pred, ty = rng.choice(PREDS)
        add(pred, ty, p)
        add(pred, ty, p, "name1")
    under_locale = [x for x in L if rng.random() < (0.5 if pcv.THOROUGH else 0.12)]
    batch(exe, L, name_event, check, "names", chunk=60)
    # the verdict must not depend on the locale
    for loc in ("1", "2"):
        batch(exe, [x for i in range(0, len(under_locale), 59) for x in ["locale " + loc] + under_locale[i:i + 59]],
              name_event, check, "names under locale " + loc, chunk=60)
