"""C01 C05 C06 C12 C17 C18: concurrent programs."""
import random

import conc
import pcv
from conc import Program
from pcv import Grid

REG = dict(op="newreg", r=1, beh="merge")


def number(setup, threads, post):
    """replaces references ('name') by call numbers; calls may carry as='name'"""
    names = {}
    n = 0
    for part in [setup, *threads, post]:
        for c in part:
            n += 1
            if "as" in c:
                names[c["as"]] = n
    out = []
    for part in [setup, *threads, post]:
        cs = []
        for c in part:
            c = {k: v for k, v in c.items() if k != "as"}
            for k in ("o", "f"):
                if isinstance(c.get(k), str):
                    c[k] = names[c[k]]
            cs.append(c)
        out.append(cs)
    return out[0], out[1:-1], out[-1]


def prog(setup, threads, post, **kw):
    s, t, p = number(setup, threads, post)
    return Program(s, t, p, **kw)


# ---------------------------------------------------------------- scalars

def scalar_program(rng, big):
    """counter or gauge, alone or in a family, updated by 2 or 3 threads"""
    ty = rng.choice(["counter", "gauge"])
    grid = Grid(rng.choice([0, 0, -3, -20, 30]))
    unit = 2.0 ** grid.k
    bit = [0]

    def val():
        bit[0] += 1
        return unit * (1 << bit[0])

    def op(heavy):
        x = rng.random()
        if ty == "counter":
            if x < 0.5:
                return dict(op="inc", o="m", v=val())
            if x < 0.56:
                return dict(op="inc", o="m", v=-val())
            if x < 0.6 and grid.k <= 0:
                return dict(op="inc", o="m")
            if x < 0.68:
                return dict(op="reset", o="m")
        else:
            if x < 0.3:
                return dict(op="inc", o="m", v=val())
            if x < 0.5:
                return dict(op="dec", o="m", v=val())
            if x < 0.6:
                return dict(op="set", o="m", v=val())
            if x < 0.65 and grid.k <= 0:
                return dict(op=rng.choice(["inc", "dec"]), o="m")
        return dict(op=rng.choice(["value", "value", "ocollect"]), o="m")

    fam = rng.random() < 0.3
    av = dict(av=val()) if ty == "gauge" and rng.random() < 0.5 else {}
    if fam:
        setup = [REG, dict(op="build", r=1, ty=ty, name=b"m", help=b"", lab=[], **{"as": "f"}),
                 dict(op="add", f="f", lab=[(b"a", b"b")], **av, **{"as": "m"})]
    else:
        setup = [dict(op="newobj", ty=ty, **av, **{"as": "m"})]
    n = rng.choice([2, 2, 3] if not big else [2, 3, 3, 4])
    threads = [[op(0) for _ in range(rng.choice([1, 2, 3] if n < 3 else [1, 2] if n < 4 else [1]))] for _ in range(n)]
    post = [dict(op="value", o="m"), dict(op="ocollect", o="m")]
    if fam:
        if rng.random() < 0.5:
            threads[-1] = [dict(op=rng.choice(["fcollect", "rcollect"]), f="f", r=1)]
        post.append(dict(op="fcollect", f="f"))
    return prog(setup, threads, post, grid=grid)


def scalar_pairs():
    """every pair of two calls of two threads each, on a counter and a gauge"""
    out = []
    sets = dict(counter=[dict(op="inc", o="m", v=2.0), dict(op="inc", o="m", v=-4.0), dict(op="reset", o="m"), dict(op="value", o="m"), dict(op="inc", o="m")],
                gauge=[dict(op="inc", o="m", v=2.0), dict(op="dec", o="m", v=4.0), dict(op="set", o="m", v=16.0), dict(op="value", o="m"), dict(op="dec", o="m")])
    for ty, ops in sets.items():
        for a in ops:
            for b in ops:
                for c in ops:
                    if b["op"] == "value" and a["op"] == "value":
                        continue
                    d = dict(c)
                    if "v" in d:
                        d["v"] *= 32
                    out.append(prog([dict(op="newobj", ty=ty, **{"as": "m"}), dict(op="inc", o="m", v=1.0)], [[a, b], [d, dict(op="value", o="m")]], [dict(op="value", o="m")]))
    return out


def scalar_long(n):
    """many calls of one thread while another one performs a single call slowly"""
    out = []
    one = [("counter", dict(op="inc", v=4096.0)), ("gauge", dict(op="inc", v=4096.0)), ("gauge", dict(op="dec", v=4096.0))]
    for ty, c in one:
        out.append(prog([dict(op="newobj", ty=ty, **{"as": "m"})], [[dict(c, o="m"), dict(op="value", o="m")], [dict(op="inc", o="m", v=1.0) for _ in range(n)]],
                        [dict(op="value", o="m")]))
    return out


def c01(check):
    pcv.design(check, "MCAtomic", ["MCAtomic.cfg"] + (["MCAtomic_deep.cfg"] if pcv.THOROUGH else []), ["store", "stale", "giveup", "twice"] if pcv.THOROUGH else ["stale"], "cas")
    exe = conc.build()
    rng = random.Random(pcv.SEED * 7919 + 1)
    conc.check_linearizable(check, exe, scalar_pairs(), 1200 if pcv.THOROUGH else 150, "scalar pairs", 60 if not pcv.THOROUGH else 400)
    n = 400 if pcv.THOROUGH else 60
    conc.check_linearizable(check, exe, [scalar_program(rng, pcv.THOROUGH) for _ in range(n)], 8000 if pcv.THOROUGH else 1500, "scalar", 2000 if pcv.THOROUGH else 150)
    for k, runs in [(40, 200), (160, 120)] + ([(1200, 120)] if pcv.THOROUGH else []):
        conc.check_linearizable(check, exe, scalar_long(k), runs, "scalar, %d calls" % k, 240 if k < 1000 else 60)


# ---------------------------------------------------------------- histograms

def hist_program(rng):
    nb = rng.choice([0, 1, 2, 2, 3])
    bounds = [float(2 ** (i + 1)) for i in range(nb)]
    vals = [1.0, 2.0, 3.0, 4.0, 7.0, 8.0, 100.0]

    def op():
        x = rng.random()
        if x < 0.4:
            return dict(op="obs", o="m", v=rng.choice(vals))
        if x < 0.6:
            return dict(op="bulk", o="m", inc=[float(rng.randrange(0, 4)) for _ in range(nb + 1)], v=float(rng.randrange(0, 50)))
        if x < 0.65:
            return dict(op="bulk", o="m", inc=[1.0] * (nb + rng.choice([0, 2])), v=3.0)
        if x < 0.78:
            return dict(op="reset", o="m")
        return dict(op="ocollect", o="m")

    fam = rng.random() < 0.3
    if fam:
        setup = [REG, dict(op="build", r=1, ty="histogram", name=b"m", help=b"", lab=[], **{"as": "f"}),
                 dict(op="add", f="f", lab=[], ab=bounds, **{"as": "m"})]
    else:
        setup = [dict(op="newobj", ty="histogram", ab=bounds, **{"as": "m"})]
    if rng.random() < 0.5:
        setup.append(dict(op="obs", o="m", v=rng.choice(vals)))
    n = rng.choice([2, 3, 3])
    threads = [[op() for _ in range(rng.choice([1, 2, 3] if n == 2 else [1, 2]))] for _ in range(n)]
    threads[-1][-1] = dict(op=rng.choice(["fcollect", "rcollect"]), f="f", r=1) if fam else dict(op="ocollect", o="m")
    return prog(setup, threads, [dict(op="ocollect", o="m")])


def long_programs(kind, n):
    """many calls of one thread beside one or two, possibly slow, calls of another"""
    out = []
    m = lambda op, **kw: dict(op=op, o="m", **kw)
    if kind == "histogram":
        setup = [dict(op="newobj", ty="histogram", ab=[2.0, 4.0], **{"as": "m"}), m("obs", v=3.0)]
        for one in ([m("ocollect")], [m("obs", v=1.0)], [m("bulk", inc=[1.0, 2.0, 3.0], v=30.0)], [m("reset")]):
            many = [m("obs", v=float(i % 6)) for i in range(n)]
            out.append(prog(setup, [one + [m("ocollect")], many], [m("ocollect")]))
            if one[0]["op"] != "ocollect":
                out.append(prog(setup, [one, [m("ocollect") for _ in range(n // 2)]], [m("ocollect")]))
        out.append(prog(setup, [[m("ocollect")], [x for _ in range(n // 3) for x in (m("bulk", inc=[1.0, 0.0, 1.0], v=9.0), m("reset"))]], [m("ocollect")]))
    elif kind == "summary":
        setup = [dict(op="newobj", ty="summary", aq=[(0.0, 0.0), (1.0, 0.0)], aage=60000, abuckets=2, **{"as": "m"}), m("obs", v=50.0)]
        out.append(prog(setup, [[m("ocollect")], [m("obs", v=51.0 + i if i % 2 else 49.0 - i) for i in range(n)]], [m("ocollect")], quant=True, q=[(0, 0), (10000, 0)]))
        out.append(prog(setup, [[m("obs", v=1.0), m("obs", v=2.0)], [m("ocollect") for _ in range(n // 2)]], [m("ocollect")], quant=True, q=[(0, 0), (10000, 0)]))
    else:
        n = n // 2
        lab = lambda i: [(b"x", b"%d" % i)]
        fam = dict(op="build", r=1, ty="gauge", name=b"a", help=b"h", lab=[], **{"as": "f"})
        add = lambda i, **kw: dict(op="add", f="f", lab=lab(i), **kw)
        churn = [x for i in range(n // 2) for x in (add(100 + i, **{"as": "c%d" % i}), dict(op="fremove", f="f", o="c%d" % i))]
        for one in ([add(1), dict(op="has", f="f", lab=lab(1))], [dict(op="fcollect", f="f")], [dict(op="rcollect", r=1)], [dict(op="has", f="f", lab=lab(0))],
                    [dict(op="fremove", f="f", o="o"), dict(op="has", f="f", lab=lab(0))]):
            out.append(prog([REG, fam, add(0, **{"as": "o"})], [one, churn], [dict(op="fcollect", f="f")]))
        other = [x for i in range(n // 2) for x in (dict(fam, name=b"g%d" % i, **{"as": "g%d" % i}), dict(op="rremove", r=1, f="g%d" % i))]
        for one in ([dict(fam, name=b"b", **{"as": "1"}), dict(op="add", f="1", lab=[])], [dict(op="rcollect", r=1)], [dict(op="rremove", r=1, f="f"), dict(op="rcollect", r=1)],
                    [dict(fam, **{"as": "1"}), dict(op="add", f="1", lab=lab(3))]):
            out.append(prog([REG, fam, add(0)], [one, other], [dict(op="rcollect", r=1)]))
    return out


def c05(check):
    exe = conc.build()
    rng = random.Random(pcv.SEED * 7919 + 5)
    n = 400 if pcv.THOROUGH else 90
    conc.check_linearizable(check, exe, [hist_program(rng) for _ in range(n)], 6000 if pcv.THOROUGH else 1000, "histogram", 2000 if pcv.THOROUGH else 120)
    conc.check_linearizable(check, exe, long_programs("histogram", 200 if pcv.THOROUGH else 36), 1500 if pcv.THOROUGH else 150, "histogram, many calls", 1000 if pcv.THOROUGH else 100)


# ---------------------------------------------------------------- summaries

def sum_program(rng, clock):
    q = rng.choice([[(0, 0)], [(0, 0), (10000, 0)], [(5000, 500), (10000, 0)], [(0, 0), (5000, 0), (9900, 10)], []])
    args = dict(aq=[(a / 10000, b / 10000) for a, b in q], aage=60000, abuckets=rng.choice([1, 2, 3, 5]))
    if clock:
        args.update(aage=1000, abuckets=rng.choice([2, 4]))
    vals = [float(x) for x in range(1, 30)]
    rng.shuffle(vals)

    def op():
        x = rng.random()
        if clock and x < 0.3:
            return dict(op="adv", v=rng.choice([3e8, 6e8, 1.2e9]))
        return dict(op="obs", o="m", v=vals.pop()) if x < 0.65 else dict(op="ocollect", o="m")

    fam = rng.random() < 0.3
    if fam:
        setup = [REG, dict(op="build", r=1, ty="summary", name=b"m", help=b"", lab=[], **{"as": "f"}),
                 dict(op="add", f="f", lab=[], **args, **{"as": "m"})]
    else:
        setup = [dict(op="newobj", ty="summary", **args, **{"as": "m"})]
    setup += [dict(op="obs", o="m", v=vals.pop()) for _ in range(rng.choice([0, 0, 1, 2]))]
    n = rng.choice([2, 2, 3])
    threads = [[op() for _ in range(rng.choice([1, 2, 3] if n == 2 else [1, 2]))] for _ in range(n)]
    threads[-1][-1] = dict(op=rng.choice(["fcollect", "rcollect"]), f="f", r=1) if fam else dict(op="ocollect", o="m")
    return prog(setup, threads, [dict(op="ocollect", o="m")], quant=not clock, q=[] if clock else q)


def c06(check):
    import window_checks
    window_checks.c06_sequential(check)
    exe = conc.build()
    rng = random.Random(pcv.SEED * 7919 + 6)
    n = 300 if pcv.THOROUGH else 60
    conc.check_linearizable(check, exe, [sum_program(rng, i % 3 == 2) for i in range(n)], 5000 if pcv.THOROUGH else 800, "summary", 1500 if pcv.THOROUGH else 100)
    conc.check_linearizable(check, exe, long_programs("summary", 40 if pcv.THOROUGH else 30), 1500 if pcv.THOROUGH else 200, "summary, many calls", 1000 if pcv.THOROUGH else 120)


# ---------------------------------------------------------------- registry

L = [[], [(b"x", b"1")], [(b"x", b"2")], [(b"y", b"1")], [(b"__x", b"1")], [(b"c", b"z")]]
TYS = ["counter", "gauge", "histogram", "summary", "info"]


def family_calls(rng, thread, nops, fams, uid, removal):
    """calls of one thread; fams: families (names, types) that stay registered.
    A thread removes and updates only metrics with labels of its own."""
    out, mine = [], []
    for _ in range(nops):
        f, ty = rng.choice(fams)
        x = rng.random()
        if x < 0.35:
            c = dict(op="add", f=f, lab=rng.choice(L[:4] * 3 + L))
            if ty == "summary":
                c["aq"] = [(0.5, 0.05)]
            if ty == "histogram":
                c["ab"] = rng.choice([[1.0, 2.0], [1.0, 2.0], [2.0, 1.0]])
            out.append(c)
        elif x < 0.5 and removal:
            uid[0] += 1
            c = dict(op="add", f=f, lab=[(b"t", b"%d" % thread)], **{"as": "o%d" % uid[0]})
            if mine and rng.random() < 0.7:
                out.append(dict(op="fremove", f=mine[0][0], o=mine.pop(0)[1]))
            elif not any(m[0] == f for m in mine):
                out.append(c)
                mine.append((f, "o%d" % uid[0]))
        elif x < 0.62:
            out.append(dict(op="has", f=f, lab=rng.choice(L[:4] + [[(b"t", b"1")], [(b"t", b"2")]])))
        elif x < 0.8:
            out.append(dict(op="fcollect", f=f))
        else:
            out.append(dict(op="rcollect", r=1))
    if mine and rng.random() < 0.8:
        out.append(dict(op="fremove", f=mine[0][0], o=mine[0][1]))
    return out


def family_program(rng):
    tys = rng.sample(TYS, 2) if rng.random() < 0.4 else [rng.choice(TYS)]
    setup = [REG]
    fams = []
    for i, ty in enumerate(tys):
        setup.append(dict(op="build", r=1, ty=ty, name=b"f%d" % i, help=b"h", lab=rng.choice([[], [(b"c", b"d")]]), **{"as": "f%d" % i}))
        fams.append(("f%d" % i, ty))
        if rng.random() < 0.5:
            setup.append(dict(op="add", f="f%d" % i, lab=L[1]))
    n = rng.choice([2, 2, 3])
    uid = [0]
    threads = [family_calls(rng, t + 1, rng.choice([1, 2, 3] if n == 2 else [1, 2]), fams, uid, True) or [dict(op="rcollect", r=1)] for t in range(n)]
    post = [dict(op="fcollect", f=f) for f, _ in fams] + [dict(op="rcollect", r=1)]
    return prog(setup, threads, post)


def registry_program(rng):
    beh = rng.choice(["merge", "merge", "throw"])
    setup = [dict(op="newreg", r=1, beh=beh)]
    keep = []       # families every thread may use
    if rng.random() < 0.6:
        ty = rng.choice(TYS)
        setup.append(dict(op="build", r=1, ty=ty, name=b"keep", help=b"h", lab=[], **{"as": "keep"}))
        setup.append(dict(op="add", f="keep", lab=L[1]))
        keep = [("keep", ty)]
    gone = []       # families that one thread removes
    n = rng.choice([2, 2, 3])
    for t in range(n):
        if rng.random() < 0.4:
            ty = rng.choice(TYS[:3])
            setup.append(dict(op="build", r=1, ty=ty, name=b"gone%d" % t, help=b"h", lab=[], **{"as": "gone%d" % t}))
            if rng.random() < 0.6:
                setup.append(dict(op="add", f="gone%d" % t, lab=[]))
            gone.append((t, "gone%d" % t))
    uid = [0]
    threads = []
    for t in range(n):
        cs = []
        for _ in range(rng.choice([1, 2, 3] if n == 2 else [1, 2])):
            x = rng.random()
            mine = [g for g in gone if g[0] == t]
            if x < 0.45:
                uid[0] += 1
                name = rng.choice([b"a", b"a", b"b", b"gone%d" % rng.randrange(n), b"keep", b"__bad"])
                ty = rng.choice(["counter", "counter", "gauge", "histogram"])
                cs.append(dict(op="build", r=1, ty=ty, name=name, help=b"h", lab=rng.choice([[], [], [(b"k", b"v")]]), **{"as": "b%d" % uid[0]}))
                # families a and b are never removed
                if name in (b"a", b"b") and rng.random() < 0.5:
                    cs.append(dict(op="add", f="b%d" % uid[0], lab=rng.choice(L[:3]), ab=[1.0]))
            elif x < 0.6 and mine:
                g = mine[0]
                gone.remove(g)
                cs.append(dict(op="rremove", r=1, f=g[1]))
            elif keep and x < 0.75:
                cs += family_calls(rng, t + 1, 1, keep, uid, False)
            else:
                cs.append(dict(op="rcollect", r=1))
        threads.append(cs)
    post = [dict(op="rcollect", r=1), dict(op="build", r=1, ty="counter", name=b"a", help=b"h", lab=[])]
    return prog(setup, threads, post)


def named_programs():
    """the contended cases of the statements"""
    out = []
    b = dict(op="build", r=1, ty="counter", name=b"a", help=b"h", lab=[])
    bg = dict(b, ty="gauge")
    add = lambda f, lab=L[1]: dict(op="add", f=f, lab=lab)
    for x, y in [(b, b), (b, bg), (b, dict(b, lab=[(b"k", b"v")])), (bg, dict(bg, lab=[(b"k", b"v")]))]:
        for beh in ("merge", "throw"):
            out.append(prog([dict(op="newreg", r=1, beh=beh)],
                            [[dict(x, **{"as": "1"}), add("1")], [dict(y, **{"as": "2"}), add("2")], [dict(op="rcollect", r=1)]],
                            [dict(op="rcollect", r=1)]))
    for ty in TYS:
        f = dict(op="build", r=1, ty=ty, name=b"a", help=b"h", lab=[], **{"as": "f"})
        a = dict(op="add", f="f", lab=L[1], ab=[1.0], aq=[(0.5, 0.05)])
        out.append(prog([REG, f], [[a, dict(op="has", f="f", lab=L[1])], [a, dict(op="fcollect", f="f")], [dict(op="rcollect", r=1)]], [dict(op="fcollect", f="f")]))
        out.append(prog([REG, f, dict(a, **{"as": "o"})], [[dict(op="fremove", f="f", o="o")], [dict(op="has", f="f", lab=L[1]), a], [dict(op="fcollect", f="f")]], [dict(op="fcollect", f="f")]))
        out.append(prog([REG, f, dict(a, **{"as": "o"})], [[dict(op="rremove", r=1, f="f")], [b, dict(op="rcollect", r=1)], [dict(op="rcollect", r=1)]], [dict(op="rcollect", r=1)]))
        # removals beside removals, additions and registrations
        g = [dict(f, name=b"g%d" % i, **{"as": "g%d" % i}) for i in (1, 2, 3)]
        m = [dict(a, f="g%d" % i, lab=L[1]) for i in (1, 2, 3)]
        drop = lambda i: dict(op="rremove", r=1, f="g%d" % i)
        for x, y in [(drop(1), drop(2)), (drop(1), drop(3)), (drop(2), dict(f, name=b"n", **{"as": "n"})), (drop(1), dict(f, name=b"g3", **{"as": "n"}))]:
            out.append(prog([REG, *g, *m], [[x], [y]], [dict(op="rcollect", r=1)]))
        m = [dict(a, lab=[(b"x", b"%d" % i)], **{"as": "m%d" % i}) for i in (1, 2, 3)]
        drop = lambda i: dict(op="fremove", f="f", o="m%d" % i)
        for x, y in [(drop(1), drop(2)), (drop(1), drop(3)), (drop(2), dict(a, lab=[(b"x", b"9")])), (drop(1), dict(a, lab=[(b"x", b"3")]))]:
            out.append(prog([REG, f, *m], [[x], [y]], [dict(op="fcollect", f="f"), dict(a, lab=[(b"x", b"2")])]))
    # a whole update of two families seen through one collection
    out.append(prog([REG, dict(b, name=b"z", **{"as": "z"}), add("z", [])],
                    [[dict(b, **{"as": "1"}), add("1"), dict(op="rremove", r=1, f="z")], [dict(op="rcollect", r=1), dict(op="rcollect", r=1)]],
                    [dict(op="rcollect", r=1)]))
    # two families, one after the other, of all pairs of types: a collection
    # sees the first when it sees the second
    for t1 in TYS:
        for t2 in TYS:
            x = dict(b, ty=t1, name=b"p", **{"as": "1"})
            y = dict(b, ty=t2, name=b"q", **{"as": "2"})
            a = lambda f: dict(op="add", f=f, lab=L[1], ab=[1.0], aq=[(0.5, 0.05)])
            out.append(prog([REG], [[x, a("1"), y, a("2")], [dict(op="rcollect", r=1)]], [dict(op="rcollect", r=1)]))
            out.append(prog([REG, x, a("1")], [[dict(op="rremove", r=1, f="1"), y, a("2")], [dict(op="rcollect", r=1)]], [dict(op="rcollect", r=1)]))
    out.append(prog([REG, dict(b, **{"as": "1"})],
                    [[dict(add("1", L[1]), **{"as": "x"}), dict(add("1", L[2]), **{"as": "y"}), dict(op="fremove", f="1", o="x")], [dict(op="fcollect", f="1"), dict(op="rcollect", r=1)]],
                    [dict(op="rcollect", r=1)]))
    return out


def c12(check):
    exe = conc.build()
    rng = random.Random(pcv.SEED * 7919 + 12)
    n = 250 if pcv.THOROUGH else 40
    progs = named_programs() + [family_program(rng) for _ in range(n)] + [registry_program(rng) for _ in range(n)]
    conc.check_linearizable(check, exe, progs, 6000 if pcv.THOROUGH else 700, "registry", 1500 if pcv.THOROUGH else 80)
    conc.check_linearizable(check, exe, long_programs("registry", 100 if pcv.THOROUGH else 40), 1500 if pcv.THOROUGH else 150, "registry, many calls", 1000 if pcv.THOROUGH else 80)


# ---------------------------------------------------------------- races

def race_programs(rng, n):
    out = named_programs()
    for i in range(n):
        out += [scalar_program(rng, False), hist_program(rng), sum_program(rng, i % 2 == 1), family_program(rng), registry_program(rng)]
    # everything at once: updates of members while the family is changed and collected
    for ty, upd in (("counter", dict(op="inc", v=2.0)), ("gauge", dict(op="set", v=2.0)), ("gauge", dict(op="dec", v=2.0)), ("histogram", dict(op="obs", v=1.5)),
                    ("histogram", dict(op="reset")), ("histogram", dict(op="bulk", inc=[1.0, 1.0, 0.0], v=3.0)), ("summary", dict(op="obs", v=3.0))):
        f = dict(op="build", r=1, ty=ty, name=b"a", help=b"h", lab=[], **{"as": "f"})
        a = lambda l, n=None: dict(op="add", f="f", lab=l, ab=[1.0, 2.0], aq=[(0.5, 0.05)], **({"as": n} if n else {}))
        out.append(prog([REG, f, a(L[1], "x"), a(L[2], "y")],
                        [[dict(upd, o="x"), dict(upd, o="x")], [dict(op="rcollect", r=1)], [dict(op="fremove", f="f", o="y"), a(L[3])]], [dict(op="rcollect", r=1)]))
        out.append(prog([REG, f, a(L[1], "x")],
                        [[dict(upd, o="x")], [dict(upd, o="x"), dict(op="ocollect", o="x")], [dict(op="fcollect", f="f")]], [dict(op="rcollect", r=1)]))
    return out


def c17(check):
    exe = conc.build()
    rng = random.Random(pcv.SEED * 7919 + 17)
    conc.check_races(check, exe, race_programs(rng, 60 if pcv.THOROUGH else 8), 4000 if pcv.THOROUGH else 500, "races", 300 if pcv.THOROUGH else 25)


# ---------------------------------------------------------------- progress

def failing_programs():
    """calls that throw (bad arguments, failing allocations) before and beside
    others"""
    out = []
    for ty in TYS:
        fam = dict(op="build", r=1, ty=ty, name=b"a", help=b"h", lab=[(b"c", b"d")], **{"as": "f"})
        args = dict(ab=[1.0, 2.0], aq=[(0.5, 0.05)])
        first = dict(op="add", f="f", lab=L[1], **args, **{"as": "o"})
        setup = [REG, fam, first, dict(op="build", r=1, ty="counter", name=b"z", help=b"h", lab=[], **{"as": "z"})]
        calls = [dict(op="add", f="f", lab=L[2], **args), dict(op="add", f="f", lab=L[1], **args), dict(op="build", r=1, ty="gauge", name=b"b", help=b"h", lab=L[1]),
                 dict(op="build", r=1, ty=ty, name=b"a", help=b"h", lab=[(b"c", b"d")]), dict(op="rcollect", r=1), dict(op="fcollect", f="f"),
                 dict(op="has", f="f", lab=L[1]), dict(op="fremove", f="f", o="o"), dict(op="rremove", r=1, f="z"), dict(op="ocollect", o="o")]
        if ty == "histogram":
            calls += [dict(op="obs", o="o", v=1.0), dict(op="bulk", o="o", inc=[1.0] * 3, v=1.0), dict(op="reset", o="o")]
        if ty == "summary":
            calls += [dict(op="obs", o="o", v=1.0)]
        post = [dict(op="rcollect", r=1), dict(op="add", f="f", lab=L[3], **args), dict(op="build", r=1, ty="gauge", name=b"q", help=b"h", lab=[])]
        for c in calls:
            for n in range(1, 10):
                x = dict(c, id=n)
                if c["op"] in ("fremove", "rremove"):
                    other = dict(op="rcollect", r=1)
                else:
                    other = dict(calls[n % 6])
                out.append(prog(setup, [[x], [other]], post))
        bad = [dict(op="add", f="f", lab=L[4], **args), dict(op="add", f="f", lab=L[5], **args), dict(op="build", r=1, ty="gauge", name=b"__b", help=b"h", lab=[]),
               dict(op="build", r=1, ty="gauge", name=b"a", help=b"h", lab=[]), dict(op="build", r=1, ty="gauge", name=b"n", help=b"h", lab=L[4])]
        if ty == "histogram":
            bad += [dict(op="bulk", o="o", inc=[1.0], v=1.0), dict(op="add", f="f", lab=L[2], ab=[2.0, 1.0])]
        for b in bad:
            for c in (calls[0], calls[2], calls[4], calls[5]):
                out.append(prog(setup, [[b, dict(c)], [dict(c)]], post))
    return out


def check_progress(check, exe, programs, runs, label, max_logs):
    results = conc.explore(exe, programs, runs, 2, 0, max_logs)
    traces, src = [], []
    for i, (p, r) in enumerate(zip(programs, results)):
        for d in r.races:
            traces.append(dict(log=[e for e in d["race"] if e[1] in "irLUSV"], stuck=False))
            src.append((i, d))
        if r.stuck or r.crash:
            traces.append(dict(log=[], stuck=True))
            src.append((i, r.stuck or r.crash))
        if r.done:
            check.count("schedules_executed", r.done["runs"])
            check.count("scheduling_points", r.done["points"])
    bad = pcv.validate("Calls", traces, name=label.replace(" ", "_"), timeout=850)
    if bad:
        t, l, _ = bad
        i, d = src[t]
        log = traces[t]["log"]
        what = "a call returns while its thread holds a lock (event %s)" % log[l] if 0 <= l < len(log) else (
            "an execution ends with a crash" if "crash" in d else "an execution cannot end: every remaining thread waits, or one retries forever")
        check.violation("%s: %s" % (what, " | ".join(programs[i].lines(i, runs, 2, 0, max_logs, 0)[1:-1])),
                        dict(program=programs[i].lines(i, runs, 2, 0, max_logs, pcv.SEED * 1000003 + i), run=d["run"], log=log, outcome={k: v for k, v in d.items() if k != "race"},
                             how="feed the program to the driver of drivers/conc*.cc; spec/Calls.tla rejects the execution"))
    check.count("traces_validated_against_impl", len(traces))
    check.count("programs", len(programs))
    for k in (0, len(traces) // 2, len(traces) - 1):
        i, d = src[k]
        check.sample(dict(kind=label, program=programs[i].lines(i, runs, 2, 0, max_logs, 0), log=traces[k]["log"][:60], run=d["run"]))


def c18(check):
    pcv.design(check, "MCLocks", ["MCLocks.cfg"] + (["MCLocks_deep.cfg"] if pcv.THOROUGH else []), ["inverted", "back", "held", "open"] if pcv.THOROUGH else ["inverted"])
    exe = conc.build()
    rng = random.Random(pcv.SEED * 7919 + 18)
    check_progress(check, exe, failing_programs(), 600 if pcv.THOROUGH else 60, "throwing calls", 60 if pcv.THOROUGH else 4)
    check_progress(check, exe, [p for k in ("histogram", "summary", "registry") for p in long_programs(k, 24)] + scalar_long(24), 400 if pcv.THOROUGH else 80, "many calls", 60 if pcv.THOROUGH else 6)
    check_progress(check, exe, race_programs(rng, 60 if pcv.THOROUGH else 10), 6000 if pcv.THOROUGH else 800, "progress", 300 if pcv.THOROUGH else 25)
