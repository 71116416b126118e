import itertools
import math

from mc import contexts, impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "R04"
RULE = ("all sequences of ray launches and re-runs up to the stated length on worlds with detectors; after every operation every "
        "detector's log is compared with the reference model's log")
INF = math.inf


def play(optics, ops, ctx, form=0):
    """ops: ("new", ray, marker) makes and runs a ray; ("again", k, distance) runs the k-th ray made again"""
    real = [impl.build(o, form) for o in optics]
    made, recs, trusted = [], [], True
    for op in ops:
        if op[0] == "new":
            (p, d, wl, order), distance, marker = op[1], op[2], op[3]
            r, st = impl.ray(p, d, wl, order, marker), ref.State(p, d, wl, order, marker)
            made.append((r, st))
        elif op[0] == "clear":  # the caller empties the logs, or takes them away
            for o, q in zip(optics, real):
                if o[0] == "detector":
                    if op[1] == "new":
                        q.hit_data = []
                    elif op[1] == "clear":
                        q.hit_data.clear()
                    elif op[1] == "slice":
                        del q.hit_data[:]
                    else:
                        q.hit_data = list(q.hit_data)
            recs = [] if op[1] != "copy" else recs
            continue
        else:
            if not made:
                continue
            r, st = made[op[1] % len(made)]
            distance = op[2]
        n = len(st.records)
        counts = [len(q.hit_data) if o[0] == "detector" else 0 for o, q in zip(optics, real)]
        ref.run(st, optics, distance)
        r.run(distance, real)
        for o, q, count in zip(optics, real, counts):
            if o[0] == "detector" and len(q.hit_data) > count:
                got = impl.tup(q.hit_data[-1])
                if got[3] != float(r.wavelength) or not impl.close(got[:3], impl.tup(r.position), 1e-11):
                    return ctx.fail("the record %r is not the arrival point %r and wavelength %r" % (got, impl.tup(r.position), r.wavelength))
        recs += st.records[n:]
        trusted = trusted and st.trust is None
        if not trusted:
            ctx.skip("margin")
            return
        ctx.step(max(1, len(st.history) - 1))
        if not impl.check_records(optics, real, recs, ctx):
            return
        absorbed = any(optics[i][0] == "detector" for i, _ in st.records)
        if absorbed and (not r.blocked or not impl.close(impl.tup(r.position), st.p) or len(impl.hist(r)) != len(st.history)):
            return ctx.fail("the recorded ray did not stay absorbed at the detector: %s blocked=%s" % (r.position, r.blocked))
        if bool(r.blocked) != st.blocked:
            return ctx.fail("ray at %s: absorbed=%s, expected %s" % (r.position, r.blocked, st.blocked))
    ctx.trace()
    ctx.state(impl.key(recs))
    return real


def judge(spec, ctx):
    play(spec[0], spec[1], ctx, spec[2] if len(spec) > 2 else 0)


DET = ("detector", (0.0, 60.0, 0.0), (0, -1, 0), (0, 0, 1), 12.0, 20.0)
DET2 = ("detector", (31.0, 30.0, 2.0), (-1, 0, 0), (0, 1, 0), 30.0, 16.0)
WORLDS = [
    (DET, DET2),
    (("flat", (0.0, 30.0, 0.0), (1, -1, 0), 9.0), DET, DET2, ("detector", (-25.0, 0.0, 0.0), (0.6, 0.8, 0), (0, 0, 1), 40.0, 25.0)),
    (("grating", (0.0, 40.0, 0.0), (0, -1, 0), (0, 0, 1), 30.0, 30.0, 500.0), ("detector", (12.0, 0.0, 0.0), (0, 1, 0), (1, 0, 0), 30.0, 40.0),
     ("detector", (-30.0, 20.0, 0.0), (1, 0.3, 0), (0, 0, 1), 50.0, 50.0)),
    (("ball", (0.0, 20.0, 0.0), 10.0, 1.5), DET, ("ideal", (0.0, 40.0, 0.0), (0, 1, 0), 30.0, 20.0), DET2),
]
# rays: onto the detector, beside it, backwards, along the mirror, onto its rear side, sideways
BEAMS = [((0.3, -5.0, 0.2), (0.01, 1, 0.02), 532, 0), ((9.0, -5.0, 0.2), (0.0, 1, 0.02), 633, 1), ((0.3, 5.0, 7.2), (0.013, 1, 0.02), 450.5, -1),
         ((1.3, 90.0, -0.2), (0.01, -1, 0.02), 700, 0), ((-20.0, 29.0, 1.2), (1, 0.01, 0.02), 1550, 0), ((0.4, 10.0, 0.3), (0.02, -1, -0.01), 300, 2)]


def histories(tier):
    """all launch sequences up to length 3 (thorough: 4): every beam with long and short runs, marker rays, re-runs of earlier rays"""
    ops = [("new", b, 150.0, False) for b in BEAMS] + [("new", BEAMS[0], 30.0, False), ("new", BEAMS[0], 150.0, True),
                                                       ("again", 0, 100.0), ("again", -1, 55.5)]
    for n in range(1, 4 if tier == "quick" else 5):
        for w in WORLDS:
            for s in product(*[ops] * n):
                yield (w, s)


def exposures(tier):
    """logs that the caller empties or replaces between exposures, in every way, once and again, and right away"""
    shots = [("new", b, 150.0, False) for b in BEAMS] + [("again", 0, 100.0)]
    for w in WORLDS:
        for a, b in product(("new", "clear", "slice", "copy"), ("new", "clear", "slice", "copy")):
            for k in range(len(shots) - 1):
                s = shots[k], shots[k - 1]
                yield (w, s + (("clear", a),) + s + (("clear", b),) + (shots[k - 2],) + tuple(shots))
                yield (w, (("clear", a),) + s + (("clear", b), ("clear", a)) + (shots[-1],) + s)
                for form in (1, 2):
                    yield (w, s[:1] + (("clear", a), s[0], ("clear", b), s[0]), form)


def grids(tier):
    """a dense bundle over the detector and around it: hits and misses on every side, for every orientation, from both sides"""
    dirs = [(0, -1, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1), (0.3, -0.8, 0.2), (-0.5, -0.5, 0.7), (0, 0.6, -0.8)]
    tans = [(0.31, 0.17, 0.93), (1.0, 0.1, 0.2), (-0.2, 0.9, 0.3)]
    for n in dirs:
        for hint in tans:
            for h, w in ((8.0, 20.0), (21.0, 6.0), (5.0, 5.0)):
                for c in ((0.0, 0.0, 0.0), (-31.0, 17.0, 44.0)):
                    t = W.frame(n, hint)
                    det = ("detector", c, n, t, h, w)
                    v = ref.cross(ref.unit(n), t)
                    ops = []
                    for i, j in product(range(-3, 4), range(-3, 4)):
                        for side in (1, -1):
                            target = ref.add(ref.add(c, ref.mul(0.21 * h * i, t)), ref.mul(0.21 * w * j, v))
                            start = ref.add(target, ref.add(ref.mul(side * 20.0, ref.unit(n)), (0.7 * i, 0.4 * j, 1.1)))
                            ops.append(("new", (start, ref.sub(target, start), 400 + 10 * i + j, 0), 50.0, False))
                    yield ((det,), tuple(ops))


def ranges(tier):
    """runs that end before, and after the detector, and the exact distance"""
    for i in range(1, 60):
        yield ((DET, DET2), tuple(("new", b, 2.07 * i, False) for b in BEAMS))
    det = ("detector", (0, 16, 0), (0, -1, 0), (0, 0, 1), 10, 10)
    for form in (0, 1):
        for d in (15, 17, 100, 15.5, 16.5):
            yield ((det,), (("new", ((0, 0, 0), (0, 1, 0), 500, 0), d, False), ("again", 0, 5), ("new", ((2, 0, 1), (0, 2, 0), 501, 0), d, False)), form)


def many(tier):
    """hundreds of rays on the same detectors, and several detectors one behind another"""
    stack = tuple(("detector", (0.0, 10.0 * k, 0.0), W.tilt((0, -1, 0), 0.1 * k), W.frame(W.tilt((0, -1, 0), 0.1 * k)), 4.0 + 4 * k, 6.0 + 3 * k)
                  for k in range(1, 6))
    n = 500 if tier == "quick" else 1500
    for w in WORLDS + [stack, tuple(reversed(stack))]:
        ops = []
        for i in range(n):
            b = BEAMS[i % len(BEAMS)]
            p = ref.add(b[0], (5.3 * math.sin(1.3 * i), 0.0, 5.1 * math.cos(0.7 * i)))
            ops.append(("new", (p, b[1], 350 + i + i / 7000.0, b[3]), 150.0, False))
            if i % 10 == 9:
                ops.append(("again", i - 3, 70.0))
        yield (w, tuple(ops))


def wavelengths(tier):
    """every kind of wavelength, from x-rays to microwaves, with and without a fraction, on one detector and behind a grating"""
    waves = (0, 1, 0.0123, 0.5, 13.5, 99.99, 380, 380.0, 532.28, 632.8, 780.1, 999.999, 1000.5, 1064.4, 1550.12, 10600.7, 123456.789, 1e6, 1e7 + 0.5, 3e9)
    for w in (WORLDS[0], WORLDS[2]):
        for wl in waves:
            yield (w, tuple(("new", (p, d, wl, 0), 150.0, False) for p, d, _, _ in BEAMS) + (("again", 0, 20.0), ("again", 1, 33.3)))
        yield (w, tuple(("new", (BEAMS[0][0], BEAMS[0][1], wl, 0), 150.0, False) for wl in waves))


def orders(tier):
    """every arrival order of four rays"""
    four = [("new", b, 150.0, False) for b in BEAMS[:4]]
    for w in WORLDS:
        for q in itertools.permutations(four):
            yield (w, tuple(q) + (("again", 2, 30.0),))


def bulks(tier):
    """tens of thousands of rays on one detector, one behind the other and in bundles that partly miss it; the log is compared as a whole"""
    n = 30000 if tier == "quick" else 300000
    for w, beams in (((DET,), BEAMS[:1]), ((DET2,), ((((-20.0, 29.0, 1.2), (1, 0.01, 0.02), 1550, 0)),)), (WORLDS[1], BEAMS)):
        yield (w, tuple(beams), n if len(w) == 1 else n // 5)


def judge_bulk(spec, ctx):
    optics, beams, n = spec
    real = [impl.build(o) for o in optics]
    want = [ref.run(ref.State(*b), optics, 150.0) for b in beams]
    if any(st.trust is not None for st in want):
        ctx.skip("margin")
        return
    counts = [0] * len(optics)
    for k in range(n):
        p, d, wl, order = beams[k % len(beams)]
        st = want[k % len(beams)]
        r = impl.ray(p, d, wl, order)
        r.run(150.0, real)
        if bool(r.blocked) != st.blocked or not impl.close(impl.tup(r.position), st.p):
            return ctx.fail("ray number %d ends at %s absorbed=%s, expected %s %s" % (k + 1, impl.tup(r.position), r.blocked, st.p, st.blocked))
        for i, rec in st.records:
            counts[i] += 1
            log = real[i].hit_data
            if len(log) != counts[i] or not impl.close(impl.tup(log[-1]), rec):
                return ctx.fail("after ray number %d the detector's log has %d records, expected %d ending with %s" % (k + 1, len(log), counts[i], rec))
    ctx.step(n)
    ctx.trace()
    recs = [x for k in range(n) for x in want[k % len(beams)].records]
    ctx.state(impl.key([x for st in want for x in st.records]))
    impl.check_records(optics, real, recs, ctx)


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip())
            for f in (grids, exposures, ranges, wavelengths, orders, many, histories)] + \
        [Space("bulks", lambda: bulks(tier), judge_bulk, note=bulks.__doc__)] + contexts.spaces(("detector",))
