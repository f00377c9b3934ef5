"""C07 sliding window, C08 rank errors, C06 (sequential part)."""
import json
import math
import random

import pcv
from core_checks import INF, NAN, build, execute as seq_execute, rand_double
from pcv import Grid

D = 10000


def mk(ms, k, quantiles, ops, fam=False, mv=0):
    """ops: ("adv", ms) | ("obs", [values]) | ("col",) -> item"""
    return dict(A=ms, k=k, q=quantiles, ops=ops, fam=fam, mv=mv)


def lines(it):
    a = dict(aq=[(q / D, e / D) for q, e in it["q"]], aage=it["A"], abuckets=it["k"])
    if it["fam"]:
        L = [dict(op="newfam", ty="summary", name=b"s", help=b"", lab=[]), dict(op="add", f=1, lab=[], **a)]
        o = 2
    else:
        L = [dict(op="newobj", ty="summary", amove=it["mv"], **a)]
        o = 1
    for op, *x in it["ops"]:
        if op == "adv":
            L.append(dict(op="adv", v=float(x[0]) * 1e6))
        elif op == "obs":
            L.append(dict(op="obsm", o=o, inc=x[0]))
        else:
            L.append(dict(op="ocollect", o=o))
    return [pcv.call_line(c) for c in L]


def to_trace(it, rs):
    vals = [v for op, *x in it["ops"] if op == "obs" for v in x[0]]
    rank = {v: i + 1 for i, v in enumerate(sorted(set(vals)))}
    pre = 2 if it["fam"] else 1
    t, n, ev = 0, 0, []
    if not rs:
        return dict(A=it["A"], k=it["k"], q=[list(x) for x in it["q"]], obs=[], ev=[])        # not run
    for (op, *x), r in zip(it["ops"], rs[pre:]):
        if "crash" in r:
            ev.append(dict(op=r["crash"]))
        elif op == "adv":
            t += x[0]
        elif op == "obs":
            if x[0]:
                ev.append(dict(op="obs", t=t, to=n + len(x[0]), **{"from": n + 1}))
                n += len(x[0])
        else:
            res = []
            for q, v in r["res"]["q"]:
                d = pcv.unbits(v)
                res.append(-1 if d != d else rank.get(d, 0))
            ev.append(dict(op="col", t=t, res=res))
    if len(rs) < pre + len(it["ops"]) and not (ev and ev[-1]["op"] in ("crash", "hang")):
        ev.append(dict(op="crash"))
    return dict(A=it["A"], k=it["k"], q=[list(x) for x in it["q"]], obs=[rank[v] for v in vals], ev=ev)


def execute(exe, items, check, kind):
    L = [lines(it) for it in items]

    def once(idx, name):
        res = pcv.run_driver(exe, [L[i] for i in idx])
        traces = [to_trace(items[i], r) for i, r in zip(idx, res)]
        return res, traces, pcv.validate("WindowTrace", traces, name=name)

    res, traces, bad = once(list(range(len(items))), kind)
    if bad:
        i = bad[0]
        _, tr2, bad2 = once([i], "again")
        if not bad2:
            raise pcv.CheckError("a rejected trace was accepted when repeated")
        l = bad2[1]
        ev = tr2[0]["ev"][l]
        it = items[i]
        check.violation("reported quantiles are not allowed (max_age %d ms, %d buckets, quantiles %s): %s" % (
            it["A"], it["k"], it["q"], json.dumps(ev)[:400]),
            dict(calls=L[i] if sum(map(len, L[i])) < 200000 else [x[:300] for x in L[i]], rejected_event=l, event=ev,
                 how="feed the calls to drivers/seqdrv.cc; times in ms, values as ranks"))
    check.count("traces_validated_against_impl", len(items))
    check.count("observations", sum(len(t["obs"]) for t in traces))
    check.sample(dict(kind=kind, calls=[x[:200] for x in L[len(L) // 2][:12]]))


def model_items(check, rng):
    items = []
    for k in (1, 2, 3):
        r = pcv.tlc("MCWindow", "MCWindow_%d%s.cfg" % (k, "_deep" if pcv.THOROUGH else ""), workers=1, timeout=900)
        if not r.ok:
            raise pcv.CheckError("the window design violates the specification:\n" + r.out[-3000:])
        seqs = pcv.printed(r.out, "SEQ")
        check.count("model_behaviours_replayed", len(seqs))
        if not pcv.THOROUGH:
            seqs = [s for s in seqs if any(e["op"] == "obs" for e in s)]
        elif len(seqs) > 40000:
            seqs = rng.sample(seqs, 40000)
        for s in seqs:
            ops = []
            v = rng.sample(range(100), 8)
            for e in s:
                if e["op"] == "adv":
                    ops.append(("adv", e["d"] * 500))
                elif e["op"] == "obs":
                    x = float(v.pop())
                    ops.append(("obs", [x, x, x]))
                else:
                    ops.append(("col",))
            ops.append(("col",))
            items.append(mk(k * 1000, k, [(0, 0), (5000, 0), (10000, 0)], ops))
    return items


def rand_script(rng):
    k = rng.choice([1, 2, 3, 4, 5, 7, 10])
    A = rng.choice([k * 100, 60000, 1000, k * 7, 600000, 100 * k + 1])
    ops = []
    t = 0
    step = max(A // k, 1)
    for _ in range(rng.choice([10, 30, 80])):
        r = rng.random()
        if r < 0.4:
            d = rng.choice([0, 1, step - 1, step, step + 1, 2 * step, A - step, A - 1, A, A + 1, rng.randrange(1, step + 1), rng.randrange(1, step // 3 + 2)])
            if rng.random() < 0.05:
                d = A * rng.choice([10, 1000])
            if t + d < 2 ** 31:          # TLC's integers
                ops.append(("adv", max(d, 0)))
                t += max(d, 0)
        elif r < 0.75:
            x = float(rng.randrange(1000))
            ops.append(("obs", [x] * rng.choice([1, 2, 3, 5]) if rng.random() < 0.7 else [float(rng.randrange(1000)) for _ in range(rng.choice([1, 4, 30]))]))
        else:
            ops.append(("col",))
    ops.append(("col",))
    q = rng.choice([[(5000, 500)], [(0, 0), (5000, 0), (10000, 0)], [(100, 10), (5000, 100), (9900, 10)], [(5000, 500), (9000, 100), (9900, 10)]])
    return mk(A, k, q, ops, fam=rng.random() < 0.3, mv=rng.choice([0, 1]))


def c07(check):
    exe = build()
    rng = random.Random(pcv.SEED * 7919 + 7)
    items = model_items(check, rng)
    if not pcv.THOROUGH:
        items = rng.sample(items, 6000)
    items += [rand_script(rng) for _ in range(6000 if pcv.THOROUGH else 500)]
    # boundaries: one burst, then a collection after each interesting age
    for k in (1, 2, 3, 5, 10):
        A = 1000 * k
        for phase in (0, 1, 500, 999, 1000, 1001):
            for age in sorted({0, 1, 500, 999, 1000, 1001, A - 1001, A - 1000, A - 999, A - 1, A, A + 1, 2 * A, 10 * A}):
                if age >= 0:
                    items.append(mk(A, k, [(5000, 0)], [("adv", phase), ("obs", [3.0, 3.0, 3.0]), ("adv", age), ("col",), ("adv", 20 * A), ("col",),
                                                       ("obs", [5.0] * 3), ("adv", age), ("col",)]))
    # any number of pending observations, around the sizes of internal buffers
    for n in list(range(1, 1100, 1 if pcv.THOROUGH else 3)) + [498, 499, 500, 501, 998, 999, 1000, 1001, 1499, 1999, 2000]:
        k = rng.choice([1, 2, 3])
        items.append(mk(1000 * k, k, [(5000, 500)], [("obs", [float(rng.randrange(1000)) for _ in range(n)]), ("col",), ("adv", 1000 * k + 1), ("col",),
                                                     ("obs", [5.0, 6.0, 7.0]), ("col",)]))
        items.append(mk(1000 * k, k, [(0, 0), (10000, 0)], [("obs", [3.0] * n), ("adv", 1000 * k + 1), ("obs", [5.0] * rng.choice([1, 3, n])), ("col",)]))
    # empty and tiny windows, and pauses of days
    for k in (1, 2, 5):
        for A in (0, 1, k, 60000):
            for pause in (0, 1, A + 1, 10**6, 86400000, 10**9):
                items.append(mk(A, k, [(5000, 0)], [("col",), ("adv", 1), ("obs", [3.0, 3.0]), ("col",), ("adv", pause), ("col",), ("obs", [5.0] * 3),
                                                    ("col",), ("adv", A + 1), ("col",), ("adv", pause), ("obs", [6.0]), ("col",)]))
    execute(exe, items, check, "window")
    check.assumptions += ["the clock is std::chrono::steady_clock, replaced by a virtual one; times are whole milliseconds"]


# ------------------------------------------------------------------- C08

def stream(rng, n):
    r = rng.randrange(12)
    if r == 0:
        v = [float(i) for i in range(n)]
    elif r == 1:
        v = [float(n - i) for i in range(n)]
    elif r == 2:
        v = [float(rng.randrange(n + 1)) for _ in range(n)]
    elif r == 3:
        v = [float(rng.randrange(10)) for _ in range(n)]
    elif r == 4:
        v = [float(i if i % 2 else n - i) for i in range(n)]           # zigzag outside in
    elif r == 5:
        v = [float(n // 2 + (i if i % 2 else -i)) for i in range(n)]   # inside out
    elif r == 6:
        p = rng.choice([3, 100, 499, 500, 501])
        v = [float(i % p) for i in range(n)]
    elif r == 7:
        v = [rng.gauss(0, 1) for _ in range(n)]
    elif r == 8:
        v = [rng.paretovariate(0.5) for _ in range(n)]
    elif r == 9:
        v = [float(i // 500 * 500 - i % 500) for i in range(n)]        # blocks reversed
    elif r == 10:
        v = [x for x in (rand_double(rng) for _ in range(n))]
    else:
        v = [1.0] * (n // 2) + [float(rng.randrange(3)) for _ in range(n - n // 2)]
        if rng.random() < 0.5:
            v.reverse()
    return v


QSETS = [[(5000, 500)], [(5000, 500), (9000, 100), (9900, 10)], [(9990, 5)], [(100, 10), (9900, 10)], [(5000, 0)], [(0, 0), (10000, 0)],
         [(1000, 100), (2000, 100), (3000, 100), (5000, 50), (7000, 100), (9000, 100)], [(9500, 50)], [(500, 50)], [(2500, 1000)],
         [(0, 100), (10000, 100)], [(9900, 10), (5000, 500)], [(5000, 1000), (5000, 10)], [(9999, 1)], [(1, 1)], [(3333, 33), (6666, 66)]]


def qset(rng):
    """quantiles with different errors, strict and tolerant ones"""
    if rng.random() < 0.5:
        return rng.choice(QSETS)
    qs = [(rng.choice([0, 1, 100, 500, 2500, 5000, 7500, 9000, 9500, 9900, 9999, 10000, rng.randrange(10001)]),
           rng.choice([0, 1, 10, 50, 100, 500, 1000, 2000, 3000, 5000])) for _ in range(rng.choice([1, 2, 2, 3, 5]))]
    return qs


def c08(check):
    exe = build(asan=False)
    rng = random.Random(pcv.SEED * 7919 + 8)
    items = []
    sizes = [1, 2, 3, 4, 5, 10, 50, 499, 500, 501, 502, 999, 1000, 1001, 1500, 3000, 5000]
    for _ in range(1500 if pcv.THOROUGH else 700):
        n = rng.choice(sizes)
        v = stream(rng, n)
        ops = []
        i = 0
        while i < n:      # collections interleaved
            m = min(n - i, rng.choice([1, 7, 100, 499, 500, 501, 2000, n]))
            ops.append(("obs", v[i:i + m]))
            i += m
            if rng.random() < 0.5 and len(ops) < 60:
                ops.append(("col",))
        ops += [("col",), ("col",)]
        items.append(mk(60000, rng.choice([1, 5]), qset(rng), ops))
    # all orders of few observations
    import itertools
    for n in (1, 2, 3, 4, 5, 6):
        perms = list(itertools.product([1.0, 2.0, 3.0, 4.0][:n], repeat=n)) if n <= 4 else [tuple(float(x) for x in p) for p in itertools.permutations(range(n))]
        if not pcv.THOROUGH:
            perms = perms if len(perms) <= 130 else rng.sample(perms, 130)
        for p in perms:
            items.append(mk(60000, 1, [(0, 0), (1000, 0), (5000, 0), (9000, 0), (10000, 0)],
                            [x for v in p for x in ((("obs", [v]), ("col",)) if rng.random() < 0.5 else (("obs", [v]),))] + [("col",)]))
    for n in ((20000, 50000, 100000) if pcv.THOROUGH else (20000,)):
        for qs in QSETS[:3]:
            v = stream(rng, n)
            items.append(mk(60000, 1, qs, [("obs", v), ("col",)]))
    # rotations in between: the window's observations only
    for _ in range(400 if pcv.THOROUGH else 60):
        k = rng.choice([2, 3])
        ops = []
        for _ in range(rng.choice([3, 6])):
            ops += [("obs", stream(rng, rng.choice([10, 300, 700, 1200]))), ("adv", rng.choice([0, 10, 500, 1001, 2000])), ("col",)]
        items.append(mk(1000 * k, k, qset(rng), ops))
    rng.shuffle(items)
    execute(exe, items, check, "ranks")
    check.assumptions += ["observed values are not NaN; quantiles and errors are multiples of 1/10000"]


# ------------------------------------------------------- C06 sequential part

def gen_summary(rng, n):
    k = rng.choice([0, 0, -1, -10, -40, 5, 700, 980, -1074])
    mag = rng.choice([10, 1 << 20, 1 << 40])
    special = rng.random() < 0.2
    A = rng.choice([1000, 60000])
    qs = rng.choice([[], [(0.5, 0.05)], [(0.5, 0.05), (0.9, 0.01), (0.99, 0.001)]])
    args = dict(aq=qs, aage=A, abuckets=rng.choice([1, 3, 5]))
    if rng.random() < 0.4:
        c = [dict(op="newreg", r=1, beh="merge"), dict(op="build", r=1, ty="summary", name=b"s", help=b"", lab=[]),
             dict(op="add", f=2, lab=[], **args)]
        o = 3
    else:
        c = [dict(op="newobj", ty="summary", amove=rng.choice([0, 1]), **args)]
        o = 1
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            v = math.ldexp(rng.choice([0, 1, rng.randrange(mag)]), k)
            if special and rng.random() < 0.15:
                v = rng.choice([INF, NAN, INF])
            c.append(dict(op="obs", o=o, v=rng.choice([v, v, -v])))
        elif r < 0.8:
            c.append(dict(op="adv", v=float(rng.choice([0, 1, A // 3, A, A + 1, 5 * A])) * 1e6))
        else:
            c.append(dict(op="ocollect", o=o))
    c.append(dict(op="ocollect", o=o))
    if o == 3:
        c.append(dict(op="rcollect", r=1))
    return c, Grid(k)


def c06_sequential(check):
    exe = build()
    rng = random.Random(pcv.SEED * 7919 + 6)
    items = [gen_summary(rng, rng.choice([3, 10, 40, 120])) for _ in range(2000 if pcv.THOROUGH else 250)]
    # more observations than the buffer of the quantile estimator holds
    for n in (499, 500, 501, 1203):
        c = [dict(op="newobj", ty="summary", aq=[(0.5, 0.05), (0.99, 0.001)], aage=1000, abuckets=3)]
        for i in range(n):
            c.append(dict(op="obs", o=1, v=float(rng.randrange(-1000, 1000))))
            if i % 97 == 0:
                c += [dict(op="adv", v=4e8), dict(op="ocollect", o=1)]
        items.append((c + [dict(op="ocollect", o=1)], Grid(0)))
    seq_execute(exe, items, check, "summary totals")
