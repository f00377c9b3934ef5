"""Sequential core: C02 C03 C04 C09 C10 C11 C14 and the sequential part of C06."""
import json
import math
import os
import random
import struct

import pcv
from pcv import Grid, Ranks

INF = float("inf")
NAN = float("nan")


# ---------------------------------------------------------------- model tests

def denum(n):
    tag, hi, lo = n
    return [float(hi * pcv.BASE + lo), INF, -INF, NAN][tag]


def model_sequences(cfg, check, timeout=300):
    """call sequences emitted by TLC while exploring MCCore exhaustively"""
    r = pcv.tlc("MCCore", cfg, workers=1, timeout=timeout)
    if not r.ok:
        raise pcv.CheckError("the specification violates its own properties (%s):\n%s" % (cfg, r.out[-3000:]))
    seqs = pcv.printed(r.out, "SEQ")
    if not seqs:
        raise pcv.CheckError("no sequences emitted")
    check.count("model_transitions_replayed", len(seqs))
    # drop proper prefixes
    keys = set()
    for s in seqs:
        keys.add(json.dumps(s[:-1]))
    return [s for s in seqs if json.dumps(s) not in keys]


def to_calls(seq):
    """events of MCCore -> calls of the driver (objects become call numbers)"""
    born = {}
    calls = []
    for i, e in enumerate(seq, 1):
        c = dict(op=e["op"])
        if "r" in e:
            c["r"] = e["r"]
        if "beh" in e:
            c["beh"] = e["beh"]
        if "ty" in e:
            c["ty"] = e["ty"]
        for k in ("name", "help"):
            if k in e:
                c[k] = bytes(e[k])
        if "lab" in e:
            c["lab"] = [(bytes(a), bytes(b)) for a, b in e["lab"]]
        if "a" in e:
            a = e["a"]
            c["ab"] = [denum(x) for x in a["b"]]
            if a["v"] != [0, 0, 0]:
                c["av"] = denum(a["v"])
        if "v" in e:
            c["v"] = denum(e["v"])
        if e["op"] == "bulk":
            c["inc"] = [denum(x) for x in e["inc"]]
            c["v"] = denum(e["s"])
        if "f" in e:
            c["f"] = born.get(("f", e["f"]), 0)
        if "o" in e:
            c["o"] = born.get(("o", e["o"]), 0) if e["o"] else 0
        if "id" in e and e["ex"] == "":
            born.setdefault(("f" if e["op"] in ("build", "newfam") else "o", e["id"]), i)
        calls.append(c)
    return calls


def drain(calls):
    """final observations that expose the whole state"""
    out = list(calls)
    for r in sorted({c["r"] for c in calls if c["op"] == "newreg"}):
        out.append(dict(op="rcollect", r=r))
    for i, c in enumerate(calls, 1):
        if c["op"] in ("newfam", "build"):
            out.append(dict(op="fcollect", f=i))
            if c["op"] == "newfam":
                out.append(dict(op="finfo", f=i))
        elif c["op"] == "newobj":
            out.append(dict(op="ocollect", o=i))
            if c["ty"] in ("counter", "gauge"):
                out.append(dict(op="value", o=i))
        elif c["op"] == "add":
            out.append(dict(op="ocollect", o=i))
    return out


# ---------------------------------------------------------------- execution

def execute(exe, items, check, label):
    """items: list of (calls, grid). Runs them, validates against SeqTrace."""
    lines = [[pcv.call_line(c) for c in calls] for calls, _ in items]

    def once(idx, name):
        res = pcv.run_driver(exe, [lines[i] for i in idx])
        traces = []
        for i, rs in zip(idx, res):
            calls, g = items[i]
            ev = [e for e in (pcv.to_event(c, r, g) for c, r in zip(calls, rs)) if e is not None]
            if len(rs) > len(calls):
                ev.append(dict(op=rs[-1]["crash"]))
            traces.append(dict(ev=ev))
        return res, traces, pcv.validate("SeqTrace", traces, name=name)

    idx = list(range(len(items)))
    res, traces, bad = once(idx, label)
    if bad:
        t, l, r = bad
        i = idx[t]
        res2, traces2, bad2 = once([i], label + "_again")
        if not bad2:
            raise pcv.CheckError("a rejected trace was accepted when repeated: %s" % lines[i])
        t, l, r = bad2
        ev = traces2[0]["ev"]
        what = "the implementation's result is not allowed by Core!Step"
        if r.kind == "property":
            what = "the world violates WorldOk"
        rej = ev[l] if 0 <= l < len(ev) else None
        check.violation("%s, call %s" % (what, json.dumps(rej)[:600]),
                        dict(calls=lines[i], events=ev, rejected_event=l, driver_output=res2[0][-1:],
                             how="feed the calls to drivers/seqdrv.cc; spec/SeqTrace.tla rejects event %d" % l))
    check.count("traces_validated_against_impl", len(items))
    check.count("events_validated", sum(len(t["ev"]) for t in traces))
    for t in (0, len(items) // 2, len(items) - 1):
        check.sample(dict(kind=label, calls=lines[t][:40]))


def build(asan=True):
    fl = ("-O1", "-g1") + (("-fsanitize=address",) if asan else ())
    return pcv.build("seqdrv", ["core"], ["seqdrv.cc"], flags=fl)


def run_model(cfg, check, exe, label):
    seqs = model_sequences(cfg, check)
    g = Grid(0)
    execute(exe, [(drain(to_calls(s)), g) for s in seqs], check, label)


# ---------------------------------------------------------------- C02

def scalar_values(rng, k, mag):
    """dyadic values m*2^k"""
    m = rng.choice([0, 1, 2, 3, rng.randrange(1, 10), rng.randrange(1, 1 << 8), rng.randrange(1, mag)])
    v = math.ldexp(m, k)
    return -v if rng.random() < 0.35 else v


def gen_scalar(rng, n):
    k = rng.choice([0, 0, -1, -10, -30, 5, -1074, 900, -52, -60])
    mag = rng.choice([10, 1 << 20, 1 << 30, 1 << 44])
    ty = rng.choice(["counter", "gauge"])
    c = [dict(op="newobj", ty=ty)]
    if ty == "gauge" and rng.random() < 0.6:
        c[0]["av"] = scalar_values(rng, k, mag)
    special = rng.random() < 0.2
    for _ in range(n):
        x = rng.random()
        d = dict(op="inc", o=1)
        if ty == "counter":
            if x < 0.08:
                d = dict(op="reset", o=1)
            elif x < 0.2 and k <= 0 and k > -40:
                pass
            else:
                d["v"] = rng.choice([scalar_values(rng, k, mag)] * 6 + [-0.0, 0.0])
                if special and rng.random() < 0.2:
                    d["v"] = rng.choice([INF, -INF])
        else:
            if x < 0.3:
                d = dict(op="set", o=1)
            elif x < 0.6:
                d = dict(op="dec", o=1)
            if not (d["op"] != "set" and rng.random() < 0.25 and -40 < k <= 0):
                d["v"] = rng.choice([scalar_values(rng, k, mag)] * 6 + [-0.0, 0.0])
                if special and rng.random() < 0.2:
                    d["v"] = rng.choice([INF, -INF, NAN])
        c.append(d)
        c.append(dict(op="value", o=1))
        if rng.random() < 0.3:
            c.append(dict(op="ocollect", o=1))
    c.append(dict(op="ocollect", o=1))
    return c, Grid(k)


def c02(check):
    exe = build()
    run_model("MCCore_scalar_deep.cfg" if pcv.THOROUGH else "MCCore_scalar.cfg", check, exe, "scalar model")
    rng = random.Random(pcv.SEED * 7919 + 2)
    items = [gen_scalar(rng, rng.choice([3, 10, 40])) for _ in range(4000 if pcv.THOROUGH else 500)]
    # the wall clock is the driver's: instants within a second, before and after 2^31 and 2^32
    for t in [None, 0.0, 1.0, 1e9, 1700000000.0, 1799999999.0, 2.0 ** 31 - 1, 2.0 ** 31, 2.0 ** 32 - 1, 2.0 ** 32, 2.0 ** 32 + 17, 9e9] + [float(rng.randrange(1 << 33)) for _ in range(8)]:
        for ns in [0] if t is None else [0, 1, 499999999, 500000000, 999999999]:
            at = {} if t is None else dict(v=t, inc=[float(ns)])
            items.append(([dict(op="newobj", ty="gauge"), dict(op="set", o=1, v=5.0), dict(op="settime", o=1, **at),
                           dict(op="value", o=1), dict(op="inc", o=1), dict(op="value", o=1), dict(op="settime", o=1, **at), dict(op="ocollect", o=1)], Grid(0)))
    # metrics of families behave like standalone ones
    for _ in range(60):
        calls, g = gen_scalar(rng, 10)
        ty = calls[0]["ty"]
        pre = [dict(op="newreg", r=1, beh="merge"), dict(op="build", r=1, ty=ty, name=b"m", help=b"h", lab=[]),
               dict(op="add", f=2, lab=[(b"l", b"v")], **({"av": calls[0]["av"]} if "av" in calls[0] else {})),
               dict(op="add", f=2, lab=[(b"l", b"w")])]
        items.append((pre + [dict(c, o=3) for c in calls[1:]] + [dict(op="fcollect", f=2), dict(op="rcollect", r=1)], g))
    execute(exe, items, check, "scalar random")
    check.assumptions += ["values are multiples of a per-trace power of two and partial sums stay exactly representable (IEEE rounding itself is not specified)",
                          "SetToCurrentTime reads the wall clock through the C or C++ library, which the driver replaces; otherwise its result is compared with time(2) before and after the call"]


# ---------------------------------------------------------------- C03 / C04

SPECIAL = [0.0, -0.0, 5e-324, -5e-324, 1.0, -1.0, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, INF, -INF]


def rand_double(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice(SPECIAL)
    if r < 0.5:
        return float(rng.randrange(-20, 21))
    if r < 0.75:
        return rng.uniform(-1, 1) * 10 ** rng.randrange(-10, 11)
    while True:
        v = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
        if v == v:
            return v


def neighbours(v):
    return [v, math.nextafter(v, INF), math.nextafter(v, -INF)]


def sorted_bounds(rng, n, inf_ok=True):
    vs = []
    while len(vs) < n:
        v = rand_double(rng)
        if not inf_ok and abs(v) == INF:
            continue
        if rng.random() < 0.2 and vs:
            v = rng.choice(neighbours(rng.choice(vs)))
        vs.append(v)
    out = []
    for v in sorted(vs):
        if not out or out[-1] < v:
            out.append(v)
    return out


def gen_hist_rank(rng, nops):
    """arbitrary doubles: boundaries and observations compared by order"""
    b = sorted_bounds(rng, rng.choice([0, 1, 2, 3, 5, 8, 17, 40]))
    calls = [dict(op="newobj", ty="histogram", ab=b, amove=rng.choice([0, 1]))]
    vals = list(b)
    for _ in range(nops):
        r = rng.random()
        if b and r < 0.6:
            v = rng.choice(neighbours(rng.choice(b)))
        elif r < 0.65:
            v = NAN
        else:
            v = rand_double(rng)
        vals.append(v)
        calls.append(dict(op="obs", o=1, v=v))
        if rng.random() < 0.15:
            calls.append(dict(op="ocollect", o=1))
    calls.append(dict(op="ocollect", o=1))
    return calls, Ranks(vals)


def grid_bounds(rng, n, k, mag):
    s = set()
    for _ in range(n):
        s.add(math.ldexp(rng.randrange(-mag, mag), k))
    b = sorted(s)
    if rng.random() < 0.15:
        b.append(INF)
    if rng.random() < 0.1:
        b.insert(0, -INF)
    return b


def gen_hist_grid(rng, nops, bulk=True, family=False):
    """grid values: sums are exact"""
    k = rng.choice([0, 0, -1, -8, -20, 10, -1074, 700])
    mag = rng.choice([5, 50, 1 << 30])
    b = grid_bounds(rng, rng.choice([0, 1, 2, 3, 6, 12]), k, mag)
    if family:
        calls = [dict(op="newreg", r=1, beh="merge"), dict(op="build", r=1, ty="histogram", name=b"h", help=b"", lab=[]),
                 dict(op="add", f=2, lab=[(b"a", b"b")], ab=b)]
        o = 3
    else:
        calls = [dict(op="newobj", ty="histogram", ab=b, amove=rng.choice([0, 1]))]
        o = 1
    fin = [x for x in b if abs(x) != INF]
    special = rng.random() < 0.15
    for _ in range(nops):
        r = rng.random()
        if r < (0.55 if bulk else 0.9):
            if fin and rng.random() < 0.5:
                v = rng.choice(fin) + math.ldexp(rng.choice([-1, 0, 0, 1]), k)
            else:
                v = math.ldexp(rng.randrange(-2 * mag, 2 * mag), k)
            if special and rng.random() < 0.1:
                v = rng.choice([INF, -INF, NAN])
            calls.append(dict(op="obs", o=o, v=v))
        elif bulk and r < 0.85:
            n = len(b) + 1
            if rng.random() < 0.35:
                n = rng.choice([0, 1, n - 1, n + 1, n + 2, 2 * n])
            inc = [float(rng.choice([0, 0, 1, 2, rng.randrange(1, 100), rng.randrange(1, 1 << 40)])) for _ in range(max(n, 0))]
            calls.append(dict(op="bulk", o=o, inc=inc, v=math.ldexp(rng.randrange(-mag, mag), k)))
            calls.append(dict(op="ocollect", o=o))
        elif bulk and r < 0.92:
            calls.append(dict(op="reset", o=o))
            if rng.random() < 0.5:
                calls.append(dict(op="ocollect", o=o))
        else:
            calls.append(dict(op="ocollect", o=o))
    calls.append(dict(op="ocollect", o=o))
    if family:
        calls.append(dict(op="rcollect", r=1))
    return calls, Grid(k)


def gen_bad_bounds(rng):
    """constructions from boundaries that are or are not strictly increasing"""
    n = rng.choice([2, 2, 3, 4, 6, 9])
    b = sorted_bounds(rng, n)
    while len(b) < 2:
        b = sorted_bounds(rng, n)
    r = rng.random()
    i = rng.randrange(len(b) - 1)
    if r < 0.3:
        b.insert(i, b[i])
    elif r < 0.55:
        b[i], b[i + 1] = b[i + 1], b[i]
    elif r < 0.75:
        b.insert(rng.randrange(len(b) + 1), NAN)
    elif r < 0.85:
        b.append(b[0])
    elif r < 0.9:
        b = [-0.0, 0.0] + b if b[0] > 0 else b + [b[-1]]
    g = Ranks([x for x in b if x == x] + [0.0])
    calls = [dict(op="newobj", ty="histogram", ab=b, amove=rng.choice([0, 1])),
             dict(op="newfam", ty="histogram", name=b"h", help=b"", lab=[]),
             dict(op="add", f=2, lab=[(b"a", b"1")], ab=[]),
             dict(op="add", f=2, lab=[(b"a", b"2")], ab=b),
             dict(op="has", f=2, lab=[(b"a", b"2")]),
             dict(op="fcollect", f=2),
             dict(op="add", f=2, lab=[(b"a", b"1")], ab=b),
             dict(op="add", f=2, lab=[(b"a", b"2")], ab=[0.0]),
             dict(op="has", f=2, lab=[(b"a", b"2")]),
             dict(op="fcollect", f=2)]
    return calls, g


def c03(check):
    exe = build()
    run_model("MCCore_hist.cfg", check, exe, "histogram model")
    rng = random.Random(pcv.SEED * 7919 + 3)
    m = 8 if pcv.THOROUGH else 1
    items = [gen_hist_rank(rng, rng.choice([5, 20, 60])) for _ in range(250 * m)]
    items += [gen_hist_grid(rng, rng.choice([5, 20, 60]), bulk=False, family=rng.random() < 0.3) for _ in range(250 * m)]
    items += [gen_hist_grid(rng, rng.choice([5, 20]), bulk=True, family=rng.random() < 0.3) for _ in range(60 * m)]
    # long boundary lists
    for n in (100, 400):
        b = [float(i) for i in range(n)]
        calls = [dict(op="newobj", ty="histogram", ab=b)]
        calls += [dict(op="obs", o=1, v=rng.randrange(-2, 2 * n + 4) / 2) for _ in range(150)]
        items.append((calls + [dict(op="ocollect", o=1)], Grid(-1)))
    execute(exe, items, check, "histogram random")
    check.assumptions += ["rank traces: doubles are mapped order-isomorphically to integers and sums are left open; grid traces: sums are exactly representable"]


def c04(check):
    exe = build()
    run_model("MCCore_hist.cfg", check, exe, "histogram model")
    rng = random.Random(pcv.SEED * 7919 + 4)
    m = 8 if pcv.THOROUGH else 1
    items = [gen_hist_grid(rng, rng.choice([5, 15, 40]), bulk=True, family=rng.random() < 0.3) for _ in range(400 * m)]
    items += [gen_bad_bounds(rng) for _ in range(300 * m)]
    execute(exe, items, check, "bulk random")
    check.assumptions += ["increments are non-negative whole numbers below 2^53"]


# ---------------------------------------------------------------- C09 .. C14

MUL = 0xc6a4a7935bd1e995
MASK = (1 << 64) - 1


def _mix(k):
    k = k * MUL & MASK
    k ^= k >> 47
    return k * MUL & MASK


def _unmix(x):
    inv = pow(MUL, -1, 1 << 64)
    x = x * inv & MASK
    x ^= x >> 47
    return x * inv & MASK


def colliding_values(rng):
    """two different 16 byte strings with the same libstdc++ std::hash"""
    seed = 0xc70f6907
    h = seed ^ (16 * MUL & MASK)
    k1, k2, j1 = (rng.getrandbits(64) for _ in range(3))
    s = (h ^ _mix(k1)) * MUL & MASK
    t = (h ^ _mix(j1)) * MUL & MASK
    j2 = _unmix(t ^ s ^ _mix(k2))
    return struct.pack("<QQ", k1, k2), struct.pack("<QQ", j1, j2)


TYPES = ["counter", "gauge", "histogram", "info", "summary"]
NAMES = [b"a", b"b", b"m_total", b":x", b"_y", b"le", b"quantile"]
BADNAMES = [b"", b"1", b"a-b", b"__r", b"a b", b"\xc3\xa4", b"a\x00", b"-", b"__", b"9a"]
LNAMES = [b"a", b"b", b"ab", b"_c", b"d1", b"e", b"Z"]
BADLNAMES = BADNAMES + [b":x", b"x:y", b"a:", b"x\n"]
LVALUES = [b"", b"a", b"b", b"ab", b"x y", b"\n", b"\"", b"\\", b"\x00", b"\xff\xfe", b"1"]


def rand_labels(rng, names=LNAMES, maxn=3):
    n = rng.choice([0, 1, 1, 2, maxn])
    d = {}
    for _ in range(n):
        d[rng.choice(names)] = rng.choice(LVALUES)
    return sorted(d.items())


def confusing_sets(rng):
    """label sets that a sloppy key or hash would confuse"""
    v, w = colliding_values(rng)
    base = [
        [], [(b"a", b"")], [(b"a", b"b")], [(b"b", b"a")], [(b"ab", b"")], [(b"a", b"bc")], [(b"ab", b"c")],
        [(b"a", b"b"), (b"c", b"d")], [(b"a", b"bc"), (b"c", b"d")], [(b"a", b"d"), (b"c", b"b")], [(b"a", b"b,c=d")],
        [(b"a", b"x"), (b"b", b"x")], [(b"a", b"x"), (b"c", b"x")], [(b"a", b"b\x00c")], [(b"a", b"b\x00d")],
        [(b"a", v)], [(b"a", w)], [(b"a", v), (b"b", b"1")], [(b"a", w), (b"b", b"1")],
        [(b"a", b"1"), (b"b", v)], [(b"a", b"1"), (b"b", w)], [(b"A", b"b")], [(b"a", b"B")],
        [(b"a", b"x" * 40)], [(b"a", b"x" * 41)],
    ]
    rng.shuffle(base)
    return base


def ctor_args(rng, ty, simple=False):
    if ty == "histogram":
        return dict(ab=rng.choice([[], [1.0], [0.0, 5.0], [1.0, 2.0, 4.0]]))
    if ty == "gauge" and rng.random() < 0.4:
        return dict(av=float(rng.randrange(1, 9)))
    if ty == "summary":
        return dict(aq=rng.choice([[], [(0.5, 0.05)], [(0.5, 0.05), (0.9, 0.01)]]))
    return {}


def mutate(rng, ty, o):
    """an operation that gives object o a recognizable value"""
    v = float(rng.randrange(1, 1000))
    if ty == "counter":
        return dict(op="inc", o=o, v=v)
    if ty == "gauge":
        return dict(op=rng.choice(["inc", "set"]), o=o, v=v)
    if ty in ("histogram", "summary"):
        return dict(op="obs", o=o, v=float(rng.randrange(0, 6)))
    return dict(op="ocollect", o=o)


class Script:
    """builds call sequences; objects are named by the number of the call"""

    def __init__(self, rng):
        self.rng = rng
        self.c = []

    def call(self, **k):
        self.c.append(k)
        return len(self.c)


def gen_family(rng, nops, many=0):
    s = Script(rng)
    ty = rng.choice(TYPES)
    const = rng.choice([[], [], [(b"k", b"v")]])
    if rng.random() < 0.5:
        f = s.call(op="newfam", ty=ty, name=b"fam", help=b"", lab=const)
    else:
        s.call(op="newreg", r=1, beh="merge")
        f = s.call(op="build", r=1, ty=ty, name=b"fam", help=b"", lab=const)
    f2 = s.call(op="newfam", ty=ty, name=b"other", help=b"", lab=[])
    sets = confusing_sets(rng)[:rng.choice([3, 6, 20])]
    objs = []
    foreign = s.call(op="add", f=f2, lab=[], **ctor_args(rng, ty))
    for i in range(many):
        o = s.call(op="add", f=f, lab=[(b"n", b"%d" % i)], **ctor_args(rng, ty))
        objs.append(o)
        if i % 16 == 0:
            s.c.append(mutate(rng, ty, rng.choice(objs)))
    for _ in range(nops):
        r = rng.random()
        if r < 0.4 or not objs:
            o = s.call(op="add", f=f, lab=rng.choice(sets), **ctor_args(rng, ty))
            objs.append(o)
            s.c.append(mutate(rng, ty, o))
        elif r < 0.55:
            s.c.append(mutate(rng, ty, rng.choice(objs)))
        elif r < 0.7:
            s.call(op="fremove", f=f, o=rng.choice(objs + [0, foreign]))
        elif r < 0.85:
            s.call(op="has", f=f, lab=rng.choice(sets))
        elif r < 0.95:
            s.call(op="ocollect", o=rng.choice(objs))
        else:
            s.call(op="fcollect", f=f)
    for o in objs[:30]:
        s.call(op="ocollect", o=o)
    for x in sets:
        s.call(op="has", f=f, lab=x)
    s.call(op="fcollect", f=f)
    s.call(op="fcollect", f=f2)
    return s.c, Grid(0)


def big_family(rng, ty, n):
    """hundreds of metrics in one family, a few of them touched afterwards"""
    s = Script(rng)
    f = s.call(op="newfam", ty=ty, name=b"big", help=b"", lab=[])
    objs = [s.call(op="add", f=f, lab=[(b"n", b"%d" % i)]) for i in range(n)]
    for o in rng.sample(objs, 10):
        s.c.append(mutate(rng, ty, o))
    e = s.call(op="add", f=f, lab=[])
    s.c.append(mutate(rng, ty, e))
    for i in rng.sample(range(n), 10) + [0, n - 1]:
        s.call(op="has", f=f, lab=[(b"n", b"%d" % i)])
        o = s.call(op="add", f=f, lab=[(b"n", b"%d" % i)])
        s.c.append(mutate(rng, ty, o))
        s.call(op="ocollect", o=o)
    for o in rng.sample(objs, 20) + [e]:
        s.call(op="fremove", f=f, o=o)
    for i in range(0, n, 97):
        s.call(op="has", f=f, lab=[(b"n", b"%d" % i)])
    s.call(op="has", f=f, lab=[])
    return s.c, Grid(0)


def c09(check):
    exe = build()
    run_model("MCCore_family_deep.cfg" if pcv.THOROUGH else "MCCore_family.cfg", check, exe, "family model")
    rng = random.Random(pcv.SEED * 7919 + 9)
    m = 8 if pcv.THOROUGH else 1
    items = [gen_family(rng, rng.choice([8, 25, 60])) for _ in range(350 * m)]
    items += [gen_family(rng, 30, many=n) for n in (20, 60, 150)]
    execute(exe, items, check, "family random")
    sizes = [("counter", 800), ("gauge", 500)] if pcv.THOROUGH else [("counter", 300)]
    execute(exe, [big_family(rng, ty, n) for ty, n in sizes], check, "large families")
    check.assumptions += ["colliding label values are constructed for libstdc++'s std::hash<std::string>"]


def gen_reject(rng):
    s = Script(rng)
    beh = rng.choice(["merge", "throw"])
    s.call(op="newreg", r=1, beh=beh)
    fams = []
    for _ in range(rng.randrange(3, 9)):
        ty = rng.choice(TYPES)
        r = rng.random()
        lab = rand_labels(rng)
        name = rng.choice(NAMES)
        if r < 0.25:
            name = rng.choice(BADNAMES)
        elif r < 0.5:
            lab = sorted(dict(lab + [(rng.choice(BADLNAMES + [b"le", b"quantile"]), b"v")]).items())
        if rng.random() < 0.2:
            f = s.call(op="newfam", ty=ty, name=name, help=b"h", lab=lab)
        else:
            f = s.call(op="build", r=1, ty=ty, name=name, help=b"h", lab=lab)
        fams.append((f, ty, lab))
        if rng.random() < 0.5:
            s.call(op="rcollect", r=1)
        for _ in range(rng.randrange(0, 6)):
            f2, ty2, const = rng.choice(fams)
            ml = dict(rand_labels(rng))
            r = rng.random()
            if r < 0.35:
                ml[rng.choice(BADLNAMES)] = b"v"
            elif r < 0.5:
                ml[rng.choice([b"le", b"quantile"])] = b"v"
            elif r < 0.75 and const:
                n, v = rng.choice(const)
                ml[n] = rng.choice([v, b"other", b""])
            ml = sorted(ml.items())
            o = s.call(op="add", f=f2, lab=ml, **ctor_args(rng, ty2))
            s.c.append(mutate(rng, ty2, o))
            s.call(op="has", f=f2, lab=ml)
            if rng.random() < 0.5:
                s.call(op="fcollect", f=f2)
            if rng.random() < 0.5:      # corrected arguments
                good = [(n, v) for n, v in ml if n in LNAMES and n not in dict(const)]
                o = s.call(op="add", f=f2, lab=good, **ctor_args(rng, ty2))
                s.c.append(mutate(rng, ty2, o))
                s.call(op="has", f=f2, lab=good)
    for f, ty, _ in fams:
        s.call(op="finfo", f=f)
        s.call(op="fcollect", f=f)
    s.call(op="rcollect", r=1)
    return s.c, Grid(0)


def reject_positions():
    """an invalid label at every position of a label map, for every type"""
    items = []
    good = [(b"b", b"1"), (b"d", b"2"), (b"f", b"3"), (b"h", b"4")]
    for ty in TYPES:
        for bad in (b"", b"0", b"__a", b"a-", b"c-", b"e-", b"g-", b"z-", b"le", b"quantile", b"k", b"A b", b"b:", b"z:"):
            for cnt in (0, 2, 4):
                lab = sorted(dict(good[:cnt] + [(bad, b"x")]).items())
                calls = [dict(op="newreg", r=1, beh="merge"),
                         dict(op="build", r=1, ty=ty, name=b"m", help=b"", lab=[(b"k", b"c")]),
                         dict(op="add", f=2, lab=[]),
                         dict(op="add", f=2, lab=lab), dict(op="has", f=2, lab=lab), dict(op="fcollect", f=2),
                         dict(op="add", f=2, lab=good[:cnt]), dict(op="has", f=2, lab=lab),
                         dict(op="build", r=1, ty=ty, name=b"n", help=b"", lab=lab),
                         dict(op="add", f=9, lab=[]), dict(op="rcollect", r=1),
                         dict(op="build", r=1, ty=ty, name=b"n", help=b"", lab=good[:cnt]),
                         dict(op="add", f=12, lab=[]), dict(op="rcollect", r=1)]
                items.append((calls, Grid(0)))
    return items


def c10(check):
    exe = build()
    run_model("MCCore_family_deep.cfg" if pcv.THOROUGH else "MCCore_family.cfg", check, exe, "family model")
    rng = random.Random(pcv.SEED * 7919 + 10)
    m = 8 if pcv.THOROUGH else 1
    items = reject_positions() + [gen_reject(rng) for _ in range(300 * m)]
    execute(exe, items, check, "rejections")


def gen_registry(rng, nops):
    s = Script(rng)
    s.call(op="newreg", r=1, beh=rng.choice(["merge", "merge", "throw"]))
    s.call(op="newreg", r=2, beh=rng.choice(["merge", "throw"]))
    names = rng.sample(NAMES[:5], rng.choice([1, 2, 3])) + ([rng.choice(BADNAMES)] if rng.random() < 0.2 else [])
    labs = [[], [(b"a", b"1")], [(b"a", b"2")], [(b"a", b"1"), (b"b", b"")]]
    types = rng.sample(TYPES, rng.choice([1, 2, 3, 5]))
    fams = []
    for _ in range(nops):
        r = rng.random()
        if r < 0.6 or not fams:
            ty = rng.choice(types)
            f = s.call(op="build", r=rng.choice([1, 1, 1, 2]), ty=ty, name=rng.choice(names), help=rng.choice([b"", b"x"]),
                       lab=rng.choice(labs[:rng.choice([1, 2, 4])]))
            fams.append(f)
            if rng.random() < 0.6:
                s.call(op="add", f=f, lab=[(b"z", b"%d" % rng.randrange(2))])
        elif r < 0.8:
            s.call(op="rremove", r=rng.choice([1, 1, 1, 2]), f=rng.choice(fams))
        elif r < 0.9:
            s.call(op="finfo", f=rng.choice(fams))
        else:
            s.call(op="rcollect", r=rng.choice([1, 2]))
    s.call(op="rcollect", r=1)
    s.call(op="rcollect", r=2)
    return s.c, Grid(0)


def type_pairs():
    """every ordered pair of types: same name twice, removal, re-registration"""
    items = []
    for beh in ("merge", "throw"):
        for t1 in TYPES:
            for t2 in TYPES:
                for l2 in ([], [(b"a", b"1")]):
                    calls = [dict(op="newreg", r=1, beh=beh),
                             dict(op="build", r=1, ty=t1, name=b"n", help=b"h1", lab=[]),
                             dict(op="build", r=1, ty=t1, name=b"n2", help=b"", lab=[]),
                             dict(op="build", r=1, ty=t2, name=b"n", help=b"h2", lab=l2),
                             dict(op="build", r=1, ty=t2, name=b"n3", help=b"", lab=l2),
                             dict(op="add", f=2, lab=[(b"x", b"1")]), dict(op="add", f=5, lab=[]), dict(op="add", f=3, lab=[]),
                             dict(op="rcollect", r=1),
                             dict(op="rremove", r=1, f=2), dict(op="rcollect", r=1),
                             dict(op="rremove", r=1, f=2), dict(op="rremove", r=1, f=4),
                             dict(op="build", r=1, ty=t2, name=b"n", help=b"h3", lab=l2),
                             dict(op="add", f=14, lab=[(b"x", b"2")]), dict(op="add", f=4, lab=[(b"x", b"2")]),
                             dict(op="build", r=1, ty=t1, name=b"n", help=b"h4", lab=[]),
                             dict(op="rcollect", r=1)]
                    items.append((calls, Grid(0)))
    return items


def c11(check):
    exe = build()
    run_model("MCCore_registry_deep.cfg" if pcv.THOROUGH else "MCCore_registry.cfg", check, exe, "registry model")
    rng = random.Random(pcv.SEED * 7919 + 11)
    m = 8 if pcv.THOROUGH else 1
    items = type_pairs() + [gen_registry(rng, rng.choice([6, 15, 40])) for _ in range(300 * m)]
    execute(exe, items, check, "registry random")


def gen_collect(rng, nops):
    s = Script(rng)
    s.call(op="newreg", r=1, beh="merge")
    s.call(op="newreg", r=2, beh="throw")
    fams = []
    objs = []
    helps = [b"", b"help", b"multi\nline \\ \"q\"", b"\xc3\xa4\x00z"]
    for _ in range(nops):
        r = rng.random()
        if r < 0.2 or not fams:
            ty = rng.choice(TYPES)
            rr = rng.choice([1, 1, 2])
            f = s.call(op="build", r=rr, ty=ty, name=rng.choice(NAMES) + b"_" + ty.encode() + (b"%d" % rng.randrange(3)),
                       help=rng.choice(helps), lab=rand_labels(rng, [b"k1", b"k2", b"zz"]))
            fams.append((f, ty))
        elif r < 0.55:
            f, ty = rng.choice(fams)
            o = s.call(op="add", f=f, lab=rand_labels(rng), **ctor_args(rng, ty))
            objs.append((o, f, ty))
            s.c.append(mutate(rng, ty, o))
        elif r < 0.7 and objs:
            o, f, ty = rng.choice(objs)
            s.c.append(mutate(rng, ty, o))
        elif r < 0.8 and objs:
            o, f, ty = rng.choice(objs)
            s.call(op="fremove", f=f, o=o)
        elif r < 0.85:
            f, ty = rng.choice(fams)
            s.call(op="rremove", r=rng.choice([1, 1, 2]), f=f)
        elif r < 0.92:
            f, ty = rng.choice(fams)
            s.call(op="fcollect", f=f)
        else:
            s.call(op="rcollect", r=rng.choice([1, 1, 2]))
    for _ in range(2):        # collecting changes nothing
        s.call(op="rcollect", r=1)
        s.call(op="rcollect", r=2)
    return s.c, Grid(0)


def label_mixes(rng):
    """every division of five names into labels of the family, of the metric and of nobody; larger sets"""
    import itertools
    names = [b"a", b"b", b"c", b"d", b"e"]
    mixes = [([n for n, w in zip(names, d) if w == 1], [n for n, w in zip(names, d) if w == 2]) for d in itertools.product((0, 1, 2), repeat=5)]
    for _ in range(60):
        ns = [b"%s%d" % (rng.choice([b"a", b"B", b"z", b"_", b"le_"]), i) for i in range(rng.choice([8, 16, 40]))]
        k = rng.randrange(len(ns))
        rng.shuffle(ns)
        mixes.append((ns[:k], ns[k:]))
    rng.shuffle(mixes)
    items = []
    for k in range(0, len(mixes), 12):
        s = Script(rng)
        s.call(op="newreg", r=1, beh="merge")
        for j, (c, m) in enumerate(mixes[k:k + 12]):
            ty = TYPES[(k + j) % len(TYPES)]
            val = lambda n: rng.choice([n + b"1", b"same", b""])
            f = s.call(op="build", r=1, ty=ty, name=b"n%d" % j, help=b"h", lab=sorted((n, val(n)) for n in c))
            s.c.append(mutate(rng, ty, s.call(op="add", f=f, lab=sorted((n, val(n)) for n in m), **ctor_args(rng, ty))))
            s.call(op="add", f=f, lab=sorted((n, b"2") for n in m), **ctor_args(rng, ty))
            s.call(op="fcollect", f=f)
        s.call(op="rcollect", r=1)
        s.call(op="rcollect", r=1)
        items.append((s.c, Grid(0)))
    return items


def c14(check):
    exe = build()
    run_model("MCCore_registry_deep.cfg" if pcv.THOROUGH else "MCCore_registry.cfg", check, exe, "registry model")
    rng = random.Random(pcv.SEED * 7919 + 14)
    m = 8 if pcv.THOROUGH else 1
    items = [gen_collect(rng, rng.choice([5, 20, 50])) for _ in range(300 * m)]
    items += [gen_family(rng, 10, many=n) for n in (40, 120)] + label_mixes(rng)
    execute(exe, items, check, "collect random")
