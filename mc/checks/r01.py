import itertools
import math

from mc import contexts, impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "R01"
RULE = ("every scene of the stated alphabets is traced with every ray of a fan; an execution is one complete run compared "
        "vertex by vertex with the reference tracer; non-trivial when at least one surface is met")
ASSUMPTIONS = ["scenes whose outcome hinges on less than 1e-6 are abstained from (counted)"]


def trace(optics, rays, distance, form, ctx, limit=None, exact=False):
    real = [impl.build(o, form) for o in optics]
    real = tuple(real) if form in (2, 3) else real
    recs = []
    ok = True
    for p, d, wl, order in rays:
        st = ref.State(p, d, wl, order, exact=exact)
        ref.run(st, optics, distance, ref.INF if limit is None else limit)
        r = impl.ray(p, d, wl, order, form=form)
        if limit is None:
            r.run(distance, real)
        else:
            r.run(distance, real, max_interactions=limit)
        if st.trust is not None:
            ok = False
        recs += st.records
        if not impl.compare(r, st, ctx, what="ray %s -> %s: " % (p, d)) and ctx.fails:
            return
    if ok:
        impl.check_records(optics, real, recs, ctx)


def judge(spec, ctx):
    optics, rays, distance, form = spec[:4]
    trace(optics, rays, distance, form, ctx, exact=len(spec) > 4)


def singles(tier):
    for name in W.NAMES:
        for f in range(3):
            for place in range(3):
                for form in ((0, 1, 2, 3) if tier == "thorough" else (place + 1,)):
                    yield ((W.optic(name, place, f),), tuple(W.ALL_RAYS), 400.0, form)


def pairs(tier):
    rays = W.FORWARD[:3] + W.BACKWARD[:1] + W.MIDDLE[:2] + W.INSIDE + W.SIDE[:1]
    if tier == "thorough":
        rays = W.ALL_RAYS
    for a, b in product(W.NAMES, W.NAMES):
        for fa, fb in product(range(3) if tier == "thorough" else range(2), range(2)):
            A, B = W.optic(a, 0, fa), W.optic(b, 1, fb)
            yield ((A, B), tuple(rays), 300.0, 0)
            yield ((B, A), tuple(rays), 300.0, 0)


def triples(tier):
    names = W.NAMES if tier == "thorough" else ("flat", "concave", "ideal", "ball", "grating", "detector", "lens", "shiny", "tube")
    rays = W.FORWARD[:2] + W.BACKWARD[:1] + W.MIDDLE[:2] + W.MIDDLE[3:]
    for a, b, c in product(names, names, names):
        s = (W.optic(a, 0, 0), W.optic(b, 1, 1), W.optic(c, 2, 0))
        perms = list(itertools.permutations(s)) if tier == "thorough" else [(s[1], s[2], s[0])]
        for q in perms:
            yield (q, tuple(rays), 350.0, 0)


def overlapping(tier):
    """two optics at the same place or interleaved: solids inside solids, mirror behind a ball, several shells"""
    names = W.NAMES
    for a, b in product(names, names):
        if a == b:
            continue
        A = W.KINDS[a](W.PLACES[0], W.FACINGS[0])
        for off in ((0.0, 3.1, 0.4), (1.3, -4.2, 2.2)):
            B = W.KINDS[b](ref.add(W.PLACES[0], off), W.FACINGS[2])
            yield ((A, B), tuple(W.FORWARD + W.INSIDE[:1] + W.BACKWARD[:1]), 200.0, 0)


SPEC8 = [W.KINDS[n]((x, y, z), W.tilt((0, s, 0), a, b)) for n, x, y, z, s, a, b in (
    ("flat", 0.0, 90.0, 0.0, -1, 0.05, 0.02), ("concave", 3.0, -20.0, 2.0, 1, -0.06, 0.04), ("ball", 0.0, 40.0, 1.0, 1, 0, 0),
    ("ideal", -1.0, 15.0, 0.0, 1, 0.1, -0.1), ("rect", 8.0, 60.0, 6.0, -1, 0.5, -0.6), ("grating", -9.0, 62.0, -6.0, -1, 0.3, 0.5),
    ("detector", 22.0, 20.0, 9.0, -1, 0.2, 0.9), ("lens", 1.0, 66.0, -1.0, 1, 0.04, 0.0))]
RAYS8 = [((0.5, 2.0, -0.4), (0.02 * i - 0.05, 1.0 if i % 2 else -1.0, 0.03 * i - 0.08), 400 + 60 * i, (i % 3) - 1) for i in range(7)]


def crowds(tier):
    """eight optics in every rotation and reversal of the list; six optics in every order; lists of 13, 26 and 65"""
    for k in range(8):
        L = SPEC8[k:] + SPEC8[:k]
        yield (tuple(L), tuple(RAYS8), 500.0, 0)
        yield (tuple(reversed(L)), tuple(RAYS8), 500.0, 0)
    for q in itertools.permutations(SPEC8[:6] if tier == "thorough" else SPEC8[:5]):
        yield (tuple(q), tuple(RAYS8[:3]), 500.0, 0)
    far = [("flat", (30.0 * i - 90, 150.0 + 11 * j, 200.0), (0.1, -1, 0.2), 9.0) for i in range(7) for j in range(9)]
    for n in (5, 18, 57):
        for pos in range(0, n + 1, 3):
            yield (tuple(far[:pos] + SPEC8 + far[pos:n]), tuple(RAYS8[:3]), 500.0, 0)


def stacks(tier):
    """k parallel windows of the same kind one behind another, every listing rotation: the k-1 behind must be ignored"""
    for name in ("flat", "detector", "convex", "rect", "concave", "shiny", "dmd", "grating"):
        L = [W.KINDS[name]((0.3, 10.0 + 25.0 * i, 0.2), W.tilt((0, -1, 0), 0.05 * i, 0.03)) for i in range(6)]
        for k in range(6):
            yield (tuple(L[k:] + L[:k]), tuple(W.FORWARD[:3] + W.BACKWARD), 300.0, 0)


def scaled(tier):
    """the same scene at other sizes and far from the origin"""
    for s in (0.02, 0.3, 7.0, 80.0):
        for off in ((0.0, 0.0, 0.0), (-310.0, 270.0, -450.0)):
            if s < 0.1 and off[0]:
                continue
            L = [scale_optic(o, s, off) for o in SPEC8]
            R = [(ref.add(ref.mul(s, p), off), d, wl, m) for p, d, wl, m in RAYS8]
            yield (tuple(L), tuple(R), 500.0 * s, 0)
            for o in L:
                yield ((o,), tuple(R), 500.0 * s, 0)


def scale_prim(p, s, off):
    if p[0] in impl.OPS:
        return (p[0], scale_prim(p[1], s, off), scale_prim(p[2], s, off))
    if p[0] == "sphere":
        return ("sphere", ref.add(ref.mul(s, p[1]), off), p[2] * s)
    return ("cyl", ref.add(ref.mul(s, p[1]), off), p[2], p[3] * s)


def scale_optic(o, s, off):
    k = o[0]
    if k == "solid":
        return (k, scale_prim(o[1], s, off)) + o[2:]
    p = ref.add(ref.mul(s, o[1]), off)
    if k == "flat":
        return (k, p, o[2], o[3] * s)
    if k in ("rect", "detector"):
        return (k, p, o[2], o[3], o[4] * s, o[5] * s)
    if k in ("dmd", "grating"):
        return (k, p, o[2], o[3], o[4] * s, o[5] * s, o[6])
    if k in ("concave", "ideal", "collimate", "focus"):
        return (k, p, o[2], o[3] * s, o[4] * s)
    if k == "convex":
        return (k, p, o[2] * s)
    if k == "ball":
        return (k, p, o[2] * s, o[3])
    return (k, p) + o[2:]


def broad(tier):
    """optics of up to kilometres, met far from their centre by rays that start a few units away and end just behind them"""
    for s in (1.0, 8.0, 60.0, 400.0):
        for name in W.NAMES:
            for f in range(2):
                o = scale_optic(W.optic(name, 0, f), s, (0.0, 0.0, 0.0))
                for p, d, wl, m in W.FORWARD + W.BACKWARD[:1]:
                    st = ref.run(ref.State(ref.mul(s, p), d, wl, m), (o,), 200.0 * s)
                    if len(st.history) < 3:
                        continue
                    hit, u = st.history[1], ref.unit(d)
                    near = [((ref.sub(hit, ref.mul(b, u))), d, wl, m) for b in (0.25, 3.0, 40.0)]
                    for k, distance in enumerate((0.5, 4.0, 41.0)):
                        yield ((o,), tuple(near[:k + 1]), distance, 0)
                        yield ((o, ("detector", ref.add(hit, (700.0 * s, 5.0, 0.0)), (-1.0, 0.1, 0.0), (0.0, 0.0, 1.0), 900.0 * s, 900.0 * s)), tuple(near), distance, 0)


def ranges(tier):
    """the travel distance ends before, between and after the surfaces"""
    scene = tuple(W.optic(n, i, 0) for i, n in enumerate(("ideal", "ball", "flat")))
    for i in range(0, 80 if tier == "quick" else 400):
        yield (scene, tuple(W.FORWARD[:2]), 3.7 + i * (3.3 if tier == "quick" else 0.66), 0)
    for a, b in product(W.NAMES, W.NAMES):
        for d in (35.0, 64.0, 93.0):
            yield ((W.optic(a, 1, 0), W.optic(b, 0, 0)), tuple(W.FORWARD[:2]), d, 0)


def standing(tier):
    """rays that start exactly on a surface, in every direction of the 26 lattice directions"""
    worlds = [
        (("flat", (0, 0, 0), (0, 1, 0), 20.0), (1, 0, 2)), (("rect", (0, 0, 0), (0, 0, 1), (1, 0, 0), 10, 12), (1, 2, 0)),
        (("convex", (0, 0, 0), 10), (3, 4, 0)), (("convex", (0, 0, 0), 10), (0, 0, -5)), (("ball", (0, 0, 0), 10, 1.5), (0, -3, 4)),
        (("solid", ("sphere", (0, 0, 0), 5), "refract", 1.5), (4, 0, -3)), (("solid", ("cyl", (0, 0, 0), (0, 0, 1), 5), "reflect", 1.5), (3, 4, 1)),
        (("solid", ("cyl", (0, 0, 0), (0, 0, 1), 5), "refract", 1.3), (-3, 4, 2)),
        (("ideal", (0, 0, 0), (1, 0, 0), 20, 30), (0, 1, 1)), (("detector", (0, 0, 0), (0, 0, 1), (0, 1, 0), 10, 12), (1, 1, 0)),
        (("grating", (0, 0, 0), (0, 0, 1), (0, 1, 0), 10, 12, 300), (1, 1, 0)), (("concave", (0, 0, 0), (0, 1, 0), 20, 25), (0, 0, 0)),
    ]
    wall = [("flat", (0, 40, 0), (0.1, -1, 0.2), 200.0), ("flat", (0, -40, 0), (0.2, 1, 0.1), 200.0)]
    dirs = [d for d in product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)) if d != (0, 0, 0)]
    dirs += [(0.3, 0.9, 0.2), (-0.7, 0.1, 0.4), (0.2, -0.5, -0.8)]
    for o, p in worlds:
        for form in (0, 1):
            yield ((o,), tuple((p, d, 532, 1) for d in dirs), 100, form)
            yield ((wall[0], o, wall[1]), tuple((p, d, 532, 1) for d in dirs), 150, form)


AXES = [((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0)), ((-1, 0, 0), (0, 0, 1)), ((0, -1, 0), (1, 0, 0)), ((0, 0, -1), (0, 1, 0))]


def ends():
    """exact in binary: a surface at distance 8 (and another at 24) met by runs that end before, exactly at and behind it"""
    for n, t in AXES:
        back = ref.mul(-1, n)
        far = ("detector", ref.mul(24.0, n), back, t, 40.0, 40.0)
        for o in (("flat", ref.mul(8.0, n), back, 20.0), ("rect", ref.mul(8.0, n), n, t, 20.0, 16.0), ("detector", ref.mul(8.0, n), back, t, 16.0, 20.0),
                  ("grating", ref.mul(8.0, n), back, t, 20.0, 20.0, 300.0), ("ideal", ref.mul(8.0, n), n, 20.0, 16.0),
                  ("convex", ref.mul(12.0, n), 8.0), ("ball", ref.mul(12.0, n), 8.0, 1.5), ("concave", ref.mul(8.0, n), back, 16.0, 32.0),
                  ("solid", ("sphere", ref.mul(12.0, n), 4.0), "refract", 1.5), ("solid", ("cyl", ref.mul(12.0, n), t, 4.0), "reflect", 1.5)):
            for optics in ((o,), (far, o)):
                for distance in (7.5, 8, 8.0, 8.5, 24, 31.75, 32.0):
                    yield (optics, (((0, 0, 0), n, 532, 0),), distance)


def exact_ends(tier):
    """a surface exactly at the end of the travel distance is met; one just beyond it is not"""
    for optics, rays, distance in ends():
        yield (optics, rays, distance, 0, "exact")


def close_spaced(tier):
    """two surfaces, and a start and a surface, from a tenth down to a few millionths apart, in both listing orders"""
    names = ("flat", "rect", "detector", "grating", "ideal", "collimate", "concave", "dmd")
    gaps = (0.1, 1e-2, 2e-3, 7e-4, 9e-5, 1.1e-5, 3e-6)
    for gap in gaps:
        for a in names:
            n = W.FACINGS[0]
            first = W.KINDS[a](W.PLACES[0], n)
            for b in names:
                second = W.KINDS[b](ref.add(W.PLACES[0], (0.0, gap, 0.0)), n)
                for optics in ((first, second), (second, first)):
                    yield (optics, tuple(W.FORWARD[:2] + W.BACKWARD[:1]), 150.0, 0)
        for a in W.NAMES:
            o, near = W.optic(a, 0, 0), []
            for p, d, wl, m in W.FORWARD[:2] + W.BACKWARD[:1]:
                h, margin = ref.hit(o, p, ref.unit(d))
                if h is not None and margin > 1e-3:
                    near.append((ref.along(p, h[0] - gap, ref.unit(d)), d, wl, m))
            if near:
                yield ((o, W.optic("flat", 1, 0)), tuple(near), 200.0, 0)
        for R in (9.0, 120.0):  # an air gap between two solids, and thin shells
            lens = ("solid", ("sphere", (0.0, 0.0, 0.0), R), "refract", 1.5)
            other = ("ball", (0.0, 2 * R + gap, 0.0), 2 * R, 1.7)
            shell = ("solid", ("difference", ("sphere", (0.0, 0.0, 0.0), R), ("sphere", (0.0, 0.0, 0.0), R - gap)), "refract", 1.4)
            rays = tuple(((1e-3 * k, -3 * R, 2e-4 * k), (1e-5 * k, 1.0, 0.0), 532, 0) for k in range(-2, 3))
            yield ((lens, other), rays, 9 * R, 0)
            yield ((other, shell), rays, 9 * R, 0)


def exact_gaps(tier):
    """exact in binary: surfaces a ten-millionth to a thousandth apart (and starts as near to them) up to a million units from the origin, along every axis"""
    kinds = ("flat", "rect", "detector", "ideal", "grating", "dmd", "collimate")
    for axis in range(6):
        for ck, C in enumerate((0.0, 64.0, 1024.0, 16384.0, 2.0 ** 17, 2.0 ** 20)):
            g0 = max(-23, math.ceil(math.log2(1e-7 + 1e-11 * C)))
            for k in range(g0, -9, 3 if tier == "quick" else 1):
                for i, a in enumerate(kinds):
                    for j, b in enumerate(kinds):
                        if tier == "quick" and (i + j + ck + axis + k) % 3:
                            continue
                        yield (axis, C, 2.0 ** k, a, b)


def judge_gaps(spec, ctx):
    axis, C, g, a, b = spec
    n, t = AXES[axis]
    o = ref.add(ref.mul(C, (1.0, -0.5, 0.25)), ref.mul(-C, ref.mul(ref.dot((1.0, -0.5, 0.25), n), n)))
    o = ref.along(o, C, n)

    def make(kind, z, toward):
        p, f = ref.along(o, z, n), ref.mul(toward, n)
        return {"flat": ("flat", p, f, 20.0), "rect": ("rect", p, f, t, 20.0, 16.0), "detector": ("detector", p, f, t, 20.0, 16.0), "ideal": ("ideal", p, f, 20.0, 16.0),
                "grating": ("grating", p, f, t, 20.0, 20.0, 300.0), "dmd": ("dmd", p, f, t, 20.0, 20.0, f), "collimate": ("collimate", p, f, 20.0, 16.0)}[kind]
    # where the surfaces stand along the axis, where the ray starts and how far it flies
    for places, z0, sense, total in (((8.0, 8.0 + g), 0.0, 1, 32.0), ((8.0, 8.0 + g), 16.0, -1, 32.0), ((g, -4.0), 0.0, 1, 16.0), ((-g, 4.0), 0.0, 1, 16.0),
                                     ((-g, g), 0.0, 1, 0.5 * g), ((-4.0, g + 8.0), 8.0, 1, 16.0), ((4.0, g), 0.0, -1, 16.0)):
        for flip in (1, -1):
            scene = [(a, places[0]), (b, places[1])][::flip]
            # the same journey along a line
            z, s, left, want, stopped = z0, sense, total, [z0], False
            for _ in range(7):
                ahead = [(s * (x - z), kind, x) for kind, x in scene if 0 < s * (x - z) <= left]
                if not ahead:
                    break
                d, kind, x = min(ahead)
                z, left = x, left - d
                want.append(z)
                if kind in ("flat", "rect", "grating", "dmd"):
                    s = -s
                stopped = kind == "detector"
                if stopped or len(want) == 8:
                    break
            if not stopped and len(want) < 8 and left > 0:
                want.append(z + s * left)
            real = [impl.build(make(kind, x, -flip)) for kind, x in scene]
            r = impl.ray(ref.along(o, z0, n), ref.mul(sense, n), 532, 0)
            r.run(total, real, max_interactions=7)
            got = [ref.dot(ref.sub(x, o), n) for x in impl.hist(r)]
            ctx.step(len(got))
            ctx.trace()
            ctx.state(impl.key(got), axis, C)
            tol = 4e-16 * (len(want) + 4) * (C + 40.0)
            if len(got) != len(want) or any(abs(x - y) > tol for x, y in zip(got, want)) or bool(r.blocked) != stopped:
                return ctx.fail("%s along axis %s from %s (origin %s): positions %s, expected %s" % (scene, n, z0, o, got, want))


class Wrapped(impl.OP.Optic):
    """an optic a user writes: it meets and turns rays as the one inside it does"""
    def __init__(self, inner):
        self.inner = inner

    def test_intersect(self, ray):
        return self.inner.test_intersect(ray)

    def do_intersect(self, ray, int_pt, int_normal, shooting_from_outside):
        self.inner.do_intersect(ray, int_pt, int_normal, shooting_from_outside)


def judge_own(spec, ctx):
    """optics of classes the library does not know: derived from the known ones, or from Optic itself"""
    optics, how, rays, distance = spec
    real = [impl.build(o) for o in optics]
    L = []
    for q, h in zip(real, how):
        if h == "derived":
            q.__class__ = type("My" + type(q).__name__, (type(q),), {"label": "mine"})
        elif h == "twice":
            q.__class__ = type("Our", (type("My", (type(q),), {}),), {})
        L.append(Wrapped(q) if h == "wrapped" else q)
    recs, whole = [], True
    for p, d, wl, order in rays:
        st = ref.run(ref.State(p, d, wl, order), optics, distance)
        r = impl.ray(p, d, wl, order)
        r.run(distance, L)
        if not impl.compare(r, st, ctx, what="ray %s -> %s with optics %s: " % (p, d, how)) and ctx.fails:
            return
        recs += st.records
        whole = whole and st.trust is None
    if whole:
        impl.check_records(optics, real, recs, ctx)


def own(tier):
    """every pair of kinds, one or both of a class of the user's, in both list orders"""
    names = W.NAMES if tier == "thorough" else W.NAMES[::2] + ["detector", "grating", "lens"]
    for a, b in product(W.NAMES, names):
        A, B = W.optic(a, 0, 0), W.optic(b, 1, 1)
        for how in (("derived", ""), ("wrapped", ""), ("", "wrapped"), ("wrapped", "derived"), ("twice", "twice")):
            yield ((A, B), how, tuple(W.FORWARD[:2] + W.BACKWARD[:1] + W.MIDDLE[:1]), 300.0)
    for a in W.NAMES:
        for how in ("derived", "wrapped", "twice"):
            yield ((W.optic(a, 0, 0), ("block", (0.5, 80.0, -0.5), (0.3, -0.8, 0.2))), (how, how), tuple(W.ALL_RAYS), 300.0)


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip())
            for f in (singles, exact_ends, close_spaced, standing, stacks, scaled, broad, crowds, ranges, overlapping, pairs, triples)] + [Space("exact_gaps", lambda: exact_gaps(tier), judge_gaps, note=exact_gaps.__doc__), Space("own", lambda: own(tier), judge_own, note=own.__doc__)] + contexts.spaces(W.NAMES)
