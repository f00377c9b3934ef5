"""C15 parsing back, C16 numbers and stream states."""
import json
import math
import random
import struct
from decimal import Decimal

import pcv
from core_checks import INF, NAN, rand_double

TYPES = ["counter", "gauge", "histogram", "info", "summary", "untyped"]
BASE_TRY = "0:0:6:1:0:32"


def dec(v):
    """exact decimal of a double or int"""
    if isinstance(v, float):
        if v != v:
            return dict(k="nan", neg=False, d=[], e=0)
        if abs(v) == INF:
            return dict(k="inf" if v > 0 else "ninf", neg=False, d=[], e=0)
    sign, digits, exp = Decimal(v).as_tuple()
    d = list(digits)
    e = exp + len(d)
    while d and d[0] == 0:
        d.pop(0)
        e -= 1
    while d and d[-1] == 0:
        d.pop()
    return dict(k="fin", neg=bool(sign), d=d, e=e if d else 0)


def hx(b):
    return bytes(b).hex()


def lines_of(fams, tries):
    L = []
    for f in fams:
        L.append("fam name=%s help=%s ty=%s" % (hx(f["name"]), hx(f["help"]), f["ty"]))
        for m in f["m"]:
            t = ["met"]
            if m["lab"]:
                t.append("lab=" + ",".join(hx(a) + ":" + hx(b) for a, b in m["lab"]))
            if m["ts"]:
                t.append("ts=%d" % m["ts"])
            if "v" in m:
                t.append("v=" + pcv.bits(m["v"]))
            if "n" in m:
                t.append("n=%d sum=%s" % (m["n"], pcv.bits(m["sum"])))
            if m.get("b"):
                t.append("b=" + ",".join("%s:%d" % (pcv.bits(u), n) for u, n in m["b"]))
            if m.get("q"):
                t.append("q=" + ",".join("%s:%s" % (pcv.bits(q), pcv.bits(v)) for q, v in m["q"]))
            L.append(" ".join(t))
    L.append("ser " + " ".join(tries))
    return L


def to_trace(fams, r):
    if "crash" in r:
        return dict(fams=[], texts=[], state=[])
    out = []
    for f in fams:
        ms = []
        for m in f["m"]:
            c = {}
            if "v" in m:
                c["v"] = dec(float(m["v"]))
            if "n" in m:
                c["n"] = dec(m["n"])
                c["sum"] = dec(float(m["sum"]))
            if "b" in m:
                c["b"] = [[dec(float(u)), dec(n)] for u, n in m["b"]]
            if "q" in m:
                c["q"] = [[dec(float(q)), dec(float(v))] for q, v in m["q"]]
            ms.append(dict(lab=[[list(a), list(b)] for a, b in m["lab"]], ts=dec(m["ts"]), c=c))
        out.append(dict(name=list(f["name"]), help=list(f["help"]), ty=f["ty"], m=ms))
    texts = [[list(x) for x in bytes.fromhex(t).split(b"\n")] for t in r["texts"]]
    return dict(fams=out, texts=texts, state=r["state"])


def execute(exe, items, check, kind):
    """items: (fams, tries)"""
    lines = [lines_of(*x) for x in items]

    def once(idx, name):
        res = pcv.run_driver(exe, [lines[i] for i in idx])
        last = [rs[-1] if len(rs) == len(lines[i]) else dict(crash="crash") for i, rs in zip(idx, res)]
        ran = [k for k, rs in enumerate(res) if rs]
        traces = [to_trace(items[idx[k]][0], last[k]) for k in ran]
        bad = pcv.validate("ExpoTrace", traces, name=name)
        return last, traces, bad and (ran[bad[0]],) + tuple(bad[1:])

    res, traces, bad = once(list(range(len(items))), kind)
    if bad:
        i = bad[0]
        res2, _, bad2 = once([i], "again")
        if not bad2:
            raise pcv.CheckError("a rejected trace was accepted when repeated")
        l = bad2[1]
        n = len(res2[0].get("texts", []))
        if "crash" in res2[0]:
            what = "the serializer crashed"
        elif l < 0:
            what = ("%d different texts for the same families, depending on the stream state" % n if n != 1
                    else "the formatting state of a stream changed")
        else:
            t = bytes.fromhex(res2[0]["texts"][0]).split(b"\n")
            what = ("line %d is malformed: %r" % (l + 1, t[l][:200]) if l < len(t)
                    else "the text does not parse back to the given families: %r" % b"\n".join(t)[:400])
        check.violation(what, dict(calls=lines[i], output=res2[0], how="feed the calls to drivers/expodrv.cc"))
    check.count("traces_validated_against_impl", len(items))
    check.count("lines_parsed", sum(len(t["texts"][0]) for t in traces))
    for r in (0, len(items) // 2):
        check.sample(dict(kind=kind, calls=lines[r][:6], text=bytes.fromhex(res[r]["texts"][0]).decode("latin1")[:600]))


def build():
    return pcv.build("expodrv", ["core"], ["expodrv.cc"], flags=("-O1", "-g1", "-fsanitize=address"))


# ------------------------------------------------------------- generators

NAMES = [b"a", b"m_total", b":x:y", b"_z9", b"http_requests", b"a_count", b"a_sum", b"a_bucket", b"x_info", b"HELP", b"TYPE", b"Inf"]
LNAMES = [b"a", b"b", b"le_", b"job", b"_x", b"Q9"]
SPECIAL_BYTES = [b"\\", b"\"", b"\n", b"n", b"\\n", b"\\\\", b"\"\"", b"{", b"}", b",", b"=", b" ", b"#", b"\t", b"\r", b"\0", b"\xff", b"\xc3\xa4", b"a", b"1", b"%s"]


def rand_text(rng, maxn=6):
    r = rng.random()
    if r < 0.15:
        return b""
    if r < 0.9:
        return b"".join(rng.choice(SPECIAL_BYTES) for _ in range(rng.randrange(1, maxn)))
    return rng.randbytes(rng.randrange(1, 40))


def apart(vs):
    """drops values that 16 digits cannot tell apart"""
    out = []
    for v in sorted(set(vs)):
        if not out or (v == INF and out[-1] != INF) or (abs(out[-1]) == INF) or v - out[-1] > abs(v) * 1e-14:
            out.append(v)
    return out


def rand_metric(rng, ty, num, lab):
    m = dict(lab=lab, ts=0)
    if rng.random() < 0.3:
        m["ts"] = rng.choice([1, -1, 1234567890123, 2 ** 63 - 1, -2 ** 63, rng.randrange(-10 ** 15, 10 ** 15)])
    cnt = lambda: rng.choice([0, 1, 9, 10, 2 ** 53, 2 ** 53 + 1, 2 ** 64 - 1, rng.randrange(2 ** 64), rng.randrange(1000), 1000, 1234567])
    if ty == "histogram":
        m["n"] = cnt()
        m["sum"] = num(rng)
        b = apart([x for x in (num(rng) for _ in range(rng.choice([0, 1, 2, 5]))) if x == x])
        if rng.random() < 0.5 and (not b or b[-1] != INF):
            b.append(INF)
        m["b"] = [(x, cnt()) for x in b]
        if b and b[-1] == INF:
            m["b"][-1] = (INF, m["n"])
    elif ty == "summary":
        m["n"] = cnt()
        m["sum"] = num(rng)
        m["q"] = [(q, num(rng)) for q in rng.sample([0.0, 0.5, 0.9, 0.99, 0.999, 1.0, 0.1, 1 / 3], rng.choice([0, 1, 3]))]
    elif ty == "info":
        m["v"] = 1.0
    else:
        m["v"] = num(rng)
    return m


def rand_families(rng, num, text, nf=None):
    fams = []
    names = list(NAMES)
    rng.shuffle(names)
    for i in range(nf if nf is not None else rng.choice([0, 1, 1, 2, 4])):
        ty = rng.choice(TYPES)
        labsets = []
        ms = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            lab = [(n, text(rng)) for n in rng.sample(LNAMES, rng.choice([0, 1, 1, 2, 4]))]
            if sorted(lab) in labsets:
                continue
            labsets.append(sorted(lab))
            ms.append(rand_metric(rng, ty, num, lab))
        fams.append(dict(name=names[i], help=text(rng), ty=ty, m=ms))
    return fams


def simple_num(rng):
    return rng.choice([0.0, 1.0, -1.5, 3.25, 1e10, 12345678.0, INF, -INF, NAN])


def hard_num(rng):
    r = rng.random()
    if r < 0.3:
        return rand_double(rng)
    if r < 0.5:       # around decimal boundaries
        v = float("%de%d" % (rng.choice([1, 9, 10, 99, 5, 2]), rng.randrange(-20, 23)))
        return rng.choice([v, -v, math.nextafter(v, INF), math.nextafter(v, 0.0)])
    if r < 0.6:
        return float(rng.randrange(-2 ** 53, 2 ** 53))
    if r < 0.7:
        return rng.randrange(10 ** 17) / 10 ** rng.randrange(1, 17)
    if r < 0.75:
        return NAN
    if r < 0.85:      # 0.1 + 0.2 and the like
        return rng.randrange(100) / 10 + rng.randrange(100) / 100
    return struct.unpack(">f", struct.pack(">f", rng.uniform(-1e6, 1e6)))[0]


def rand_try(rng):
    return "%d:%d:%d:%d:%d:%d" % (rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 2]), rng.choice([0, 1, 3, 6, 17, 40]),
                                  rng.getrandbits(14), rng.choice([0, 0, 5, 40, 200]), rng.choice([32, 42, 48, 45]))


def c15(check):
    import bytes_checks
    bytes_checks.model(check, "MCExpo")
    exe = build()
    rng = random.Random(pcv.SEED * 7919 + 15)
    k = 8 if pcv.THOROUGH else 1
    items = [(rand_families(rng, simple_num, rand_text), [BASE_TRY, "9:0:6:0:0:32"]) for _ in range(500 * k)]
    # every byte as label value and help text, alone and between others
    for c in range(256):
        for w in (bytes([c]), b"a" + bytes([c]) + b"n"):
            items.append(([dict(name=b"m", help=w, ty=TYPES[c % 6], m=[rand_metric(rng, TYPES[c % 6], simple_num, [(b"l", w), (b"k", bytes([c]))])])], [BASE_TRY]))
    for a in SPECIAL_BYTES:
        for b in SPECIAL_BYTES:
            items.append(([dict(name=b"m", help=a + b, ty="gauge", m=[dict(lab=[(b"l", a + b), (b"k", b + a)], ts=0, v=1.0)])], [BASE_TRY]))
    # large documents
    big = rand_families(rng, simple_num, rand_text, nf=10)
    items.append((big, [BASE_TRY]))
    items.append(([dict(name=b"h", help=b"x" * 3000 + b"\n", ty="histogram",
                        m=[dict(lab=[(b"l", b"\\" * 500 + b"\"" * 500)], ts=0, n=7, sum=1.0, b=[(float(i), i) for i in range(150)])])], [BASE_TRY]))
    items.append(([dict(name=b"g", help=b"many", ty="gauge", m=[dict(lab=[(b"i", b"%d" % i)], ts=i, v=float(i)) for i in range(200)])], [BASE_TRY]))
    execute(exe, items, check, "texts")
    check.assumptions += ["blanks at the start of a help text belong to the syntax of the format and are not preserved by it",
                          "boundaries of one histogram differ in their first 14 digits (two boundaries with the same 16 digits have the same text)"]


def c16(check):
    import bytes_checks
    bytes_checks.model(check, "MCExpo")
    exe = build()
    rng = random.Random(pcv.SEED * 7919 + 16)
    k = 10 if pcv.THOROUGH else 1
    items = []
    for _ in range(350 * k):
        items.append((rand_families(rng, hard_num, lambda r: r.choice([b"", b"x", b"1234567.5"]), nf=rng.choice([1, 2])),
                      [BASE_TRY, "9:1:6:0:0:32", "9:2:6:0:0:32"] + [rand_try(rng) for _ in range(6)]))
    for fl in range(14):        # every single flag, locale, precision
        for lo in (0, 1, 2):
            fams = rand_families(rng, hard_num, lambda r: b"v", nf=3)
            items.append((fams, [BASE_TRY] + ["%d:%d:%d:%d:%d:%d" % (lo, g, p, 1 << fl, w, 48) for g in (0, 1, 2) for p, w in ((6, 0), (0, 30), (25, 7))]))
    items.append(([], [BASE_TRY] + [rand_try(rng) for _ in range(30)]))
    v = [5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1 / 3, 123456789012345678.0, 999999999999999.9, 9999999999999998.0, 1e16, 1e15,
         1e-5, 1e-4, 0.30000000000000004, -0.0, 4503599627370497.5, 1e22, 1e23]
    items.append(([dict(name=b"g", help=b"", ty="gauge", m=[dict(lab=[(b"i", b"%d" % i)], ts=0, v=x) for i, x in enumerate(v)])], [BASE_TRY]))
    execute(exe, items, check, "numbers")
    check.assumptions += ["the exact decimal expansion of a double is computed by Python's decimal module; locales are simulated by facets (the sandbox has no others)"]
