import itertools
import math

from mc import impl, ref, worlds as W
from mc.checks.r02 import corridor, BOX, CAVITY
from mc.core import Space, product

PROPERTY = "R03"
RULE = ("all sequences of operations (runs, limited runs, runs without optics, flights) up to the stated depth on fresh objects; the state after every "
        "operation is compared with the reference tracer, and the whole with one run of the summed distance")
INF = math.inf


def close_path(whole, parts, ctx):
    """parts = whole plus stopping points on its legs"""
    i = 0
    for v in parts[1:]:
        a, b = whole[i], whole[i + 1] if i + 1 < len(whole) else whole[i]
        if impl.close(v, b, 1e-6):
            i = min(i + 1, len(whole) - 1)
            continue
        leg = ref.dist(a, b)
        s = ref.dist(a, v)
        if leg == 0 or s > leg + 1e-6 or not impl.close(v, ref.along(a, s / leg, ref.sub(b, a)), 1e-6):
            return ctx.fail("the stopped path has %s, which is not on the leg from %s to %s" % (v, a, b))
    if i != len(whole) - 1:
        ctx.fail("the stopped path stops short: %s against %s" % (impl.short(parts), impl.short(whole)))


def judge(spec, ctx):
    optics, (p, d, wl, order) , ops = spec[0], spec[1][:4], spec[2]
    marker = len(spec[1]) > 4
    real = [impl.build(o) for o in optics]
    r = impl.ray(p, d, wl, order, marker, show=len(spec) > 3)
    st = ref.State(p, d, wl, order, marker=marker, exact=optics == EXACT[0])
    total, plain = 0.0, True
    for op in ops:
        before = (len(r.point_history), impl.tup(r.position), impl.tup(r.direction), bool(r.blocked))
        if op[0] == "fly":
            if r.blocked:
                return
            r.fly(op[1])
            st.p = ref.along(st.p, op[1], st.d)
            st.history.append(st.p)
            plain = False
        else:
            limit = op[2] if len(op) > 2 else INF
            plain = plain and limit == INF and op[0] == "run"
            here, scene = (real, optics) if op[0] == "run" else ([], ())
            r.run(op[1], here, max_interactions=limit)
            ref.run(st, scene, op[1], limit)
            total += max(op[1], 0)
        if before[3]:
            if before != (len(r.point_history), impl.tup(r.position), impl.tup(r.direction), bool(r.blocked)):
                return ctx.fail("an absorbed ray changed: %s" % (op,))
        impl.compare(r, st, ctx, what="after %s: " % (op,))
        if ctx.fails:
            return
    impl.check_records(optics, real, st.records, ctx) if st.trust is None else None
    if r.blocked and not ctx.fails:
        # it has ended for good, whatever it is run through afterwards
        there = (impl.hist(r), impl.tup(r.position), impl.tup(r.direction))
        for again in ([], real[:1], real[::-1], real, [impl.build(o) for o in optics[-1:]]):
            for limit in (INF, 2):
                r.run(50.0, again, max_interactions=limit)
                if (impl.hist(r), impl.tup(r.position), impl.tup(r.direction)) != there or not r.blocked:
                    return ctx.fail("an absorbed ray moved on when run again: %s after %s" % (impl.short(impl.hist(r)), impl.short(there[0])))
        impl.check_records(optics, real, st.records, ctx) if st.trust is None else None
    if plain and st.trust is None and not ctx.fails:
        one = impl.ray(p, d, wl, order, marker)
        one.run(total, [impl.build(o) for o in optics])
        close_path(impl.hist(one), impl.hist(r), ctx)
        if not ctx.fails and not (impl.close(impl.tup(one.position), impl.tup(r.position))
                                  and impl.close(impl.tup(one.direction), impl.tup(r.direction))
                                  and bool(one.blocked) == bool(r.blocked)):
            ctx.fail("one run of %s ends at %s towards %s absorbed=%s; instalments end at %s towards %s absorbed=%s" % (
                total, one.position, one.direction, one.blocked, r.position, r.direction, r.blocked))


SCENES = [
    (corridor(1, 10), ((0, 0, 0), (0, 1, 0), 532, 0)),
    (corridor(0, 10) + (("detector", (0, 22, 0), (0, 1, 0), (0, 0, 1), 30, 30),), ((0, 0, 0), (3, 4, 0), 532, 0)),
    (BOX, ((1.1, -2.3, 3.7), (0.5, 0.3, -0.7), 532, 0)),
    ((W.optic("ball", 0, 0), W.optic("flat", 1, 0), W.optic("detector", 2, 0)), ((0.5, 8.0, 0.2), (0.02, 1, 0.03), 532, 0)),
    ((W.optic("ideal", 0, 0), W.optic("grating", 1, 0), ("flat", (0, -30, 0), (0.1, 1, 0.2), 200.0)), ((0.5, 8.0, 0.2), (0.02, 1, 0.03), 480, 1)),
    ((W.optic("bitten", 0, 0), W.optic("tube", 1, 1), W.optic("concave", 2, 0)), ((0.5, 8.0, 0.2), (0.02, 1, 0.03), 532, 0)),
    ((("solid", ("sphere", (0.0, 0.0, 0.0), 10.0), "refract", 1.8),), ((3.1, 6.2, 2.2), (0.8, -0.2, 0.1), 532, 0)),
    (CAVITY + (("ball", (0.5, 10.0, -0.3), 12.0, 1.5),), ((0.5, 30.0, 0.2), (0.01, -1, 0.02), 532, 0)),
    ((W.optic("flat", 1, 0), W.optic("detector", 0, 1)), ((0.5, 38.0, 0.2), (0.02, -1, 0.03), 532, 0)),
]
EXACT = SCENES[0]
OPS = [("run", 5), ("run", 7.3), ("run", 31.7), ("run", 60.0, 1), ("run", 200.0, 2), ("fly", 2.25), ("run", 0), ("empty", 3.5)]


def sequences(tier):
    """every operation sequence up to depth 4 (thorough: 5) on every scene"""
    for n in range(1, 5 if tier == "quick" else 6):
        for optics, ray in SCENES:
            for ops in product(*[OPS] * n):
                if n > 3 and tier == "quick" and ops[-1] in OPS[5:]:
                    continue
                yield (optics, ray, ops)


def splits(tier):
    """every split of one distance into two and three instalments on a grid that contains the exact surface positions"""
    for optics, ray in SCENES[:1]:
        for a in range(0, 31):
            for b in range(0, 31):
                yield (optics, ray, (("run", a), ("run", b)))
    for optics, ray in SCENES:
        total = 130.0
        n = 10 if tier == "quick" else 26
        for i in range(n + 1):
            for j in range(i, n + 1):
                yield (optics, ray, (("run", total * i / n), ("run", total * (j - i) / n), ("run", total * (n - j) / n)))


def printed(tier):
    """rays that print their trajectory, through every sequence of up to three operations"""
    ops = (("run", 31.7), ("run", 60.0, 1), ("empty", 2.5), ("fly", 1.25))
    for optics, ray in SCENES:
        for n in (1, 2, 3):
            for seq in product(*[ops] * n):
                yield (optics, ray, seq, True)


def manysteps(tier):
    """a path cut into many equal instalments"""
    for optics, ray in SCENES:
        for n in (7, 40, 130):
            yield (optics, ray, tuple(("run", 130.0 / n) for _ in range(n)))
        yield (optics, ray, tuple(("run", 400.0, 1) for _ in range(12)))
        for tiny in (0.01, 1e-4, 1.3e-5, 1e-6, 2e-8, 1e-10):
            yield (optics, ray, (("run", 3.3),) + tuple(("run", tiny) for _ in range(40)) + (("run", 30.0),))
            yield (optics, ray, (("run", tiny), ("run", 7.7), ("fly", tiny), ("run", tiny), ("run", 55.0), ("run", tiny), ("empty", tiny), ("run", 9.0)))


def longlives(tier):
    """rays with up to two thousand points behind them: limits, flights and instalments count as on the first day"""
    for k in (1, 7, 31, 63, 99, 127, 254, 255, 256, 499, 511, 998, 999, 1000, 1023, 2047):
        for tail in ((("run", 1000.0, 5), ("run", 33.0), ("run", 200.0, 1)), (("run", 7.5), ("fly", 0.25), ("run", 200.0, 2), ("empty", 3.5))):
            yield (SCENES[0][0], SCENES[0][1], (("run", 10.0 * k + 5.0),) + tail)


def flights(tier):
    """free flight adds up"""
    for k in itertools.product((0.0, 1.5, 3, -2.0, 100.25), repeat=3):
        yield ((), ((1.0, 2.0, -3.0), (0.3, -0.4, 1.2), 532, 0), tuple(("fly", x) for x in k))
        yield ((), ((1, 2, -3), (0, -3, 4), 532, 0), (("fly", k[0]), ("run", k[1]), ("fly", k[2])))


def pairs(tier):
    """two instalments with the split before, between and behind every pair of optics"""
    for a, b in product(W.NAMES, W.NAMES):
        optics = (W.optic(a, 0, 0), W.optic(b, 1, 1))
        for s in (20.1, 49.2, 62.3) if tier == "quick" else (20.1, 30.1, 40.4, 49.2, 55.5, 62.3, 75.1, 88.8, 120.2):
            yield (optics, W.FORWARD[1], (("run", s), ("run", 150.3 - s)))
            yield (optics, W.FORWARD[0], (("run", 300.0, 1), ("run", s)))


def markers(tier):
    """marker rays, light on blocks, detectors and gratings without the order: ended in one instalment, run on in the next ones"""
    ops = [("run", 31.7), ("run", 60.0, 1), ("run", 120.0), ("empty", 3.5), ("fly", 2.25)]
    for n in (1, 2, 3):
        for seq in product(*[ops] * n):
            for optics, ray in SCENES:
                yield (optics, ray + (True,), seq)
            block = ("block", (0.2, 30.0, 0.1), (0.1, 1, 0.2))
            for optics in ((block,), (W.optic("flat", 1, 0), block), (block, W.optic("grating", 0, 0), W.optic("ball", 1, 0))):
                yield (optics, W.FORWARD[1], seq)
                yield (optics, W.FORWARD[0][:3] + (40,), seq)


def judge_shuffled(spec, ctx):
    """each operation may use a different list made of the same optics, and the caller may turn or move the ray in between"""
    optics, (p, d, wl, order), ops = spec
    real = [impl.build(o) for o in optics]
    r = impl.ray(p, d, wl, order)
    st = ref.State(p, d, wl, order)
    records = []
    for op in ops:
        if op[0] == "turn":
            if not st.blocked:
                st.d = ref.mul(-1.0, st.d)
                r.direction = -1.0 * r.direction
        elif op[0] == "put":
            if not st.blocked:
                st.p, st.d = tuple(map(float, p)), ref.unit(d)
                r.position, r.direction = impl.arr(p), impl.arr(st.d)
        else:
            listing = [i for i in op[2] if i < len(optics)]
            n = len(st.records)
            ref.run(st, [optics[i] for i in listing], op[1], op[3])
            records += [(listing[i], x) for i, x in st.records[n:]]
            r.run(op[1], [real[i] for i in listing], max_interactions=op[3])
        impl.compare(r, st, ctx, what="after %s: " % (op,))
        if ctx.fails or st.trust is not None:
            return
    impl.check_records(optics, real, records, ctx)


INSIDES = SCENES[:6] + SCENES[7:] + [
    ((("convex", (0.0, 0.0, 0.0), 30.0),), ((1.0, 2.0, 3.0), (0.3, 1, -0.2), 532, 0)),
    ((("concave", (0.0, 20.0, 0.0), (0, -1, 0), 40.0, 11.0), W.optic("flat", 1, 0), W.optic("convex", 2, 0)), ((0.5, -14.0, 2.2), (0.02, 1, 0.03), 532, 0)),
    ((("flat", (0.0, 20.0, 0.0), (0, -1, 0), 40.0), ("flat", (0.0, 0.0, 0.0), (0, 1, 0), 40.0), ("ideal", (0.0, 10.0, 0.0), (0, 1, 0), 40.0, 50.0)),
     ((0.5, 5.0, 2.2), (0.02, 1, 0.03), 532, 0)),
]


def shuffled(tier):
    """every sequence of up to four runs through all, the first, the others or none of the optics, with the ray turned round or put back in between"""
    every = tuple(range(12))
    ops = [("run", 31.7, every, INF), ("run", 7.3, every[::-1], INF), ("run", 60.0, every, 1), ("run", 26.0, (0,), INF), ("run", 60.0, (1, 2), 1), ("run", 33.0, (1, 2, 3), INF),
           ("turn",), ("put",)]
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for seq in product(*[ops] * n):
            if seq[-1][0] != "run" or any(a[0] != "run" and b[0] != "run" for a, b in zip(seq, seq[1:])):
                continue
            for k, (optics, ray) in enumerate(INSIDES):
                if n < 4 or tier == "thorough" or (k + sum(map(ops.index, seq))) % 3 == 0:
                    yield (optics, ray, seq)


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip(), timeout=60)
            for f in (flights, printed, longlives, splits, markers, manysteps, pairs, sequences)] + \
        [Space("shuffled", lambda: shuffled(tier), judge_shuffled, note=shuffled.__doc__, timeout=60)]
