import math
from fractions import Fraction

import numpy as np

from mc import impl, ref
from mc.core import Space, product

PROPERTY = "V01"
RULE = ("every pair of vectors of a lattice and of bundles around special positions, at every combination of magnitudes and container "
        "types: lengths, distances, projections and angles compared with plain-Python geometry, and arguments checked unaltered")
ASSUMPTIONS = ["magnitudes whose squares a double can hold (1e-150 to 1e150); integers whose products and differences their own type can hold; angles within 1e-7 of 0 or pi are not resolved further"]
GO = impl.GO
SIGNS = [v for v in product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)) if any(v)]
ODD = [(1, 2, 3), (-3, 1, 2), (2, -5, 1), (7, 0, -3), (0, -2, 9), (1, 1, -8)]
FORMS = (np.array, lambda v: np.array([float(x) for x in v]), list, tuple)


def same(before, after):
    return type(before) is type(after) and list(before) == list(after)


def close(a, b, tol):
    return len(a) == len(b) and all(math.isfinite(x) and abs(x - y) <= tol for x, y in zip(a, b))


def judge_unit(spec, ctx):
    v, scale, form = spec
    w = tuple(scale * x for x in v) if scale != 1 else v
    arg = FORMS[form](w)
    keep = FORMS[form](w)
    got = impl.tup(GO.unit_vector(arg))
    ctx.step()
    ctx.trace()
    ctx.state(impl.key(got))
    if not close(got, ref.unit(tuple(map(float, v))), 1e-13) or any(abs(g - u) > 1e-12 * abs(u) for g, u in zip(got, ref.unit(tuple(map(float, v))))):
        ctx.fail("unit_vector(%r) = %s" % (arg, got))
    if not same(keep, arg):
        ctx.fail("unit_vector changed its argument %r into %r" % (keep, arg))


def angle(a, b):
    """independent of arccos: half-angle formula on unit vectors"""
    a, b = ref.unit(tuple(map(float, a))), ref.unit(tuple(map(float, b)))
    return 2.0 * math.atan2(ref.norm(ref.sub(a, b)), ref.norm(ref.add(a, b)))


def judge_angle(spec, ctx):
    a, others, sa, sb, form = spec
    for b in others:
        va = FORMS[form](tuple(sa * x for x in a))
        vb = FORMS[(form + (1 if sa != sb else 0)) % 4](tuple(sb * x for x in b))
        ka, kb = list(va), list(vb)
        if list(va) == list(vb):
            vb = va
        want = angle(a, b)
        got = float(GO.angle_between(va, vb))
        back = float(GO.angle_between(vb, va))
        ctx.step(2)
        ctx.trace()
        ctx.state(round(want, 6))
        if not abs(got - want) <= 1e-7:
            return ctx.fail("angle between %r and %r is %r, expected %r" % (va, vb, got, want))
        if not abs(got - back) <= 1e-9:
            return ctx.fail("angle between %r and %r is %r one way and %r the other" % (va, vb, got, back))
        if not 0.0 <= got <= math.pi:
            return ctx.fail("angle between %r and %r is %r" % (va, vb, got))
        if list(va) != ka or list(vb) != kb:
            return ctx.fail("angle_between changed an argument")


def judge_signed(spec, ctx):
    n, sn, a, turns, form = spec
    un = ref.unit(tuple(map(float, n)))
    ua = ref.unit(ref.perp(ref.unit(tuple(map(float, a))), un))
    w = ref.cross(un, ua)
    for theta in turns:
        for s1, s2 in ((1.0, 1.0), (3e-5, 40.0)):
            # second vector u2; first vector u1 = u2 turned counter-clockwise about n by theta
            u2, u1 = ref.mul(s2, ua), ref.mul(s1, ref.add(ref.mul(math.cos(theta), ua), ref.mul(math.sin(theta), w)))
            vn = FORMS[form](tuple(sn * x for x in n))
            kn = list(vn)
            got = float(GO.angle_between(np.array(u1), np.array(u2), vn))
            ctx.step()
            ctx.trace()
            want = math.atan2(math.sin(theta), math.cos(theta))
            ctx.state(round(want, 6), n)
            err = abs(got - want)
            if not min(err, abs(err - 2 * math.pi)) <= 1e-7:
                return ctx.fail("signed angle about %r from %s to %s is %r, expected %r" % (vn, u2, u1, got, want))
            if 1e-6 < abs(want) < math.pi - 1e-6 and (got > 0) != (want > 0):
                return ctx.fail("signed angle about %r from %s to %s has the wrong sign: %r" % (vn, u2, u1, got))
            if list(vn) != kn:
                return ctx.fail("angle_between changed the normal")


def judge_tilted(spec, ctx):
    """vectors out of the normal's plane: only sign, antisymmetry and independence of the normal's length"""
    n, a, others = spec
    for b in others:
        side = ref.dot(ref.cross(ref.unit(b), ref.unit(a)), ref.unit(n))
        got = [float(GO.angle_between(np.array(a, float), np.array(b, float), np.array(n, float) * s)) for s in (1.0, 2e-3, 700.0)]
        ctx.step(3)
        if abs(side) < 1e-9:
            ctx.skip("no turning sense")
            continue
        ctx.trace()
        ctx.state(n, side > 0, round(got[0], 6))
        if any((g > 0) != (side > 0) or abs(g) > math.pi for g in got) or max(got) - min(got) > 1e-9:
            return ctx.fail("signed angles from %s to %s about %s (three lengths): %s" % (b, a, n, got))


def judge_distance(spec, ctx):
    p, others, scale = spec
    for q in others:
        a, b = np.array([scale * x for x in p]), np.array([scale * x for x in q])
        if p == q:
            b = a
        want = scale * math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q)))
        got = float(GO.distance_between(a, b))
        back = float(GO.distance_between(b, a))
        ctx.step(2)
        ctx.trace()
        ctx.state(round(got / scale, 6))
        if not abs(got - want) <= 1e-12 * max(want, 1e-300) or not abs(back - want) <= 1e-12 * max(want, 1e-300):
            return ctx.fail("distance of %s and %s is %r / %r, expected %r" % (a, b, got, back, want))
        if list(a) != [scale * x for x in p]:
            return ctx.fail("distance_between changed an argument")
        if a.dtype.kind == "i":  # whole numbers and floats mixed
            for x, y in ((a, b * 1.0), (a * 1.0, b)):
                if not abs(float(GO.distance_between(x, y)) - want) <= 1e-12 * want:
                    return ctx.fail("distance of %r and %r is %r, expected %r" % (x, y, GO.distance_between(x, y), want))


def judge_project(spec, ctx):
    n, sn, xs, sx, form = spec
    un = ref.unit(tuple(map(float, n)))
    for x in xs:
        vx, vn = FORMS[form](tuple(sx * c for c in x)), FORMS[form if len(xs) % 2 else (form + 1) % 4](tuple(sn * c for c in n))
        if list(vx) == list(vn):
            vx = vn
        kx, kn = list(vx), list(vn)
        got = impl.tup(GO.project_onto_plane(vx, vn))
        ctx.step()
        ctx.trace()
        fx = tuple(float(c) for c in x)
        want = ref.mul(float(sx), ref.perp(fx, un))
        ctx.state(impl.key(tuple(g / float(sx) for g in got)))
        if not close(got, want, 1e-13 * float(sx) * max(1.0, ref.norm(fx))):
            return ctx.fail("projection of %r along %r is %s, expected %s" % (vx, vn, got, want))
        if list(vx) != kx or list(vn) != kn:
            return ctx.fail("project_onto_plane changed an argument")


SCALES = (1, 1e-120, 1e-100, 1e-9, 2.5e-3, 37.0, 1e8, 1e100, 1e130)


def units(tier):
    """lattice vectors x magnitudes 1e-100..1e100 x container types"""
    for v, f in product(SIGNS + ODD, range(4)):
        for s in SCALES + ((1e-150, 1e-135, 1e150, 0.99, 1.01) if tier == "thorough" else ()):
            yield (v, s, f)


def angles(tier):
    """all ordered pairs of lattice vectors x magnitudes x container types, with equal and opposite pairs"""
    vs = SIGNS + ODD
    if tier == "thorough":
        vs = [v for v in product(range(-2, 3), range(-2, 3), range(-2, 3)) if any(v)] + ODD
    pairs = [(1, 1, 0), (1, 1, 2), (1, 1, 3), (1e-100, 1.0, 1), (1e-120, 1e-125, 1), (1e130, 0.5, 1), (7.0, 1e100, 1), (3.0, 3.0, 1), (1e-9, 1e9, 2)]
    for a in vs:
        others = vs + [ref.mul(k, a) for k in (-1.0, -0.1, 0.1, 0.3, 3.7)]
        for sa, sb, form in pairs:
            yield (a, tuple(others), sa, sb, form)


def fine_angles(tier):
    """pairs separated by very small angles from equal, opposite and square"""
    for a in SIGNS + ODD:
        u = ref.unit(tuple(map(float, a)))
        for t in (ref.unit(ref.cross(u, (0.3, -0.2, 0.9))), ref.unit(ref.cross(u, (-0.5, 0.7, 0.1)))):
            out = []
            for base in (0.0, math.pi / 2, math.pi):
                for e in (0.0, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5):
                    for s in (1, -1):
                        th = base + s * e
                        out.append(ref.add(ref.mul(math.cos(th), u), ref.mul(math.sin(th), t)))
            for sa, sb in ((1.0, 1.0), (1e-50, 1e3), (0.37, 1e60)):
                yield (u, tuple(out), sa, sb, 1)


def signed(tier):
    """a vector turned about every lattice normal (of every length) by a fan of angles"""
    step = 15 if tier == "quick" else 3
    turns = tuple(math.radians(k) for k in range(-180, 181, step)) + (1e-3, -1e-3, 1e-5, -1e-5, math.pi - 1e-3, 1e-3 - math.pi) + tuple(s * (b - e) for b in (math.pi, math.pi / 2) for e in (1e-4, 1e-5, 2e-6) for s in (1, -1))
    for n in SIGNS + ODD:
        for sn, form in ((1, 0), (1, 3), (1e-3, 1), (1e-80, 1), (250.0, 2), (1e90, 1)):
            for a in ((0.3, -0.2, 0.9), (-0.5, 0.7, 0.1)):
                yield (n, sn, a, turns, form)


def tilted(tier):
    """pairs not perpendicular to the normal: sign and independence of the normal's length"""
    vs = SIGNS if tier == "thorough" else SIGNS[::2] + ODD
    for n in SIGNS + ODD:
        for a in vs:
            yield (n, a, tuple(vs))


def distances(tier):
    """lattice point pairs at several scales"""
    pts = list(product((-2, 0, 1, 5), (-1, 0, 3), (-7, 0, 2)))
    for s in (1, 1.0, 1e-120, 1e-100, 1e-6, 1e5, 1e100, 1e130):
        for p in pts if tier == "thorough" else pts[::2]:
            yield (p, tuple(pts), s)


def judge_near(spec, ctx):
    """two points close together far from the origin, against exact rational arithmetic"""
    p, steps = spec
    for q in steps:
        a = np.array(p, float)
        b = a + np.array(q, float)
        want = math.sqrt(sum((Fraction(float(x)) - Fraction(float(y))) ** 2 for x, y in zip(a, b)))
        got, back = float(GO.distance_between(a, b)), float(GO.distance_between(b, a))
        ctx.step(2)
        ctx.trace()
        ctx.state(got)
        if not abs(got - want) <= 1e-12 * want or not abs(back - want) <= 1e-12 * want:
            return ctx.fail("distance of %r and %r is %r / %r, expected %r" % (a, b, got, back, want))


def nearby(tier):
    """pairs whose separation is 1e-12 to 1 of their distance from the origin, and pairs on (nearly) opposite sides of it"""
    for p in SIGNS + ODD:
        yield (p, tuple(ref.add(ref.mul(-k, p), ref.mul(e, v)) for k in (2.0, 1.5, 7.0) for e in (0.0, 1e-6, 1e-4) for v in SIGNS[::3]))
        for s in (1.0, 1e3, 1e7, 1e-4):
            for e in (0.0, 1e-12, 1e-9, 1e-6, 1e-3, 1.0):
                yield (ref.mul(s, p), tuple(ref.mul(e * s, v) for v in SIGNS + ODD))


def skewed(tier):
    """vectors and normals with components from 1e-12 of the others up, as unit vectors, projections and angles"""
    small = (1e-3, 1e-5, 1e-6, 3e-8, 1e-10, 1e-12)
    out = []
    for e in small:
        for s in (1, -1):
            out += [(1.0, s * e, 0.0), (s * e, 1.0, 0.3), (0.0, -1.0, s * e), (s * e, -e / 2, 1.0), (-1.0, 0.7, s * e)]
    return out


def skewed_units(tier):
    """vectors with one component far smaller than the others"""
    for v in skewed(tier):
        for s in (1, 1e-9, 1e8):
            for f in (1, 2):
                yield (v, s, f)


def skewed_projections(tier):
    """projections along normals with one component far smaller than the others, of vectors far longer than the normal"""
    for v in skewed(tier):
        for sn, sx in ((1.0, 1.0), (1e-3, 1e6), (1.0, 1e4)):
            yield (v, sn, tuple(SIGNS[::2] + ODD), sx, 1)


def judge_dimensions(spec, ctx):
    """vectors with two, four or five components, against exact arithmetic; a helper may decline them, but not answer wrongly"""
    try:
        other_dimensions(spec, ctx)
    except (ValueError, TypeError, IndexError):
        ctx.skip("declined")


def other_dimensions(spec, ctx):
    a, others, sa = spec
    fa = [Fraction(x) for x in a]
    for b in others:
        fb = [Fraction(x) for x in b]
        for kind in (int, float):
            va, vb = np.array([kind(x * sa) for x in a]), np.array([kind(x) for x in b])
            ka, kb = list(va), list(vb)
            aa, bb, ab = sum(x * x for x in fa), sum(x * x for x in fb), sum(x * y for x, y in zip(fa, fb))
            na, nb = math.sqrt(aa), math.sqrt(bb)
            got = impl.tup(GO.unit_vector(va))
            ctx.step(4)
            ctx.trace()
            ctx.state(a, b)
            if not close(got, [float(x) / na for x in fa], 1e-14):
                return ctx.fail("unit_vector(%r) = %s" % (va, got))
            want = [float(sa * (x - ab / bb * y)) for x, y in zip(fa, fb)]
            got = impl.tup(GO.project_onto_plane(va, vb))
            if not close(got, want, 1e-13 * sa * na):
                return ctx.fail("the projection of %r along %r is %s, expected %s" % (va, vb, got, want))
            want = math.sqrt(sum((sa * x - y) ** 2 for x, y in zip(fa, fb)))
            if not abs(float(GO.distance_between(va, vb)) - want) <= 1e-13 * want:
                return ctx.fail("the distance of %r and %r is %r, expected %r" % (va, vb, GO.distance_between(va, vb), want))
            want = math.atan2(math.sqrt(max(0, aa * bb - ab * ab)), float(ab))
            if not abs(float(GO.angle_between(va, vb)) - want) <= 1e-7:
                return ctx.fail("the angle of %r and %r is %r, expected %r" % (va, vb, GO.angle_between(va, vb), want))
            if list(va) != ka or list(vb) != kb:
                return ctx.fail("an argument was changed")


def dimensions(tier):
    """vectors of two, four and five (thorough: one to nine) components: lengths, projections, distances and angles"""
    for n in (2, 4, 5) if tier == "quick" else (1, 2, 4, 5, 6, 7, 8, 9):
        vs = [tuple(int(7 * math.sin(k * (2.3 + i) + i * i)) for i in range(n)) for k in range(24)] + [tuple(int(i == k) for i in range(n)) for k in range(n)]
        vs = [v for v in vs if any(v)]
        for a in vs:
            for s in (1, 3):
                yield (a, tuple(vs), s)


def projections(tier):
    """lattice vectors projected along lattice normals of every length, all container types"""
    xs = tuple(SIGNS + ODD)
    for n in SIGNS + ODD:
        yield (n, 1, xs[1:], 1, 0)
        yield (n, 3, xs[1:], 1, 1)
        yield (n, 1, (n,) * 2, 1, 3)
        for sn, sx, form in ((1, 1, 0), (1, 1, 2), (1, 1, 3), (2.0, 3.0, 1), (0.01, 1.0, 1), (1e-60, 1e5, 1), (1e70, 1e-5, 1), (1e-120, 1e-118, 1), (1e130, 1e125, 1), (40, 3, 0)):
            yield (n, sn, xs, sx, form)


def spaces(tier):
    pairs = [("unit", units, judge_unit), ("angles", angles, judge_angle), ("fine_angles", fine_angles, judge_angle),
             ("signed", signed, judge_signed), ("tilted", tilted, judge_tilted), ("distances", distances, judge_distance),
             ("nearby", nearby, judge_near), ("dimensions", dimensions, judge_dimensions),
             ("projections", projections, judge_project), ("skewed_units", skewed_units, judge_unit),
             ("skewed_projections", skewed_projections, judge_project)]
    return [Space(n, (lambda g=g: g(tier)), j, note=g.__doc__) for n, g, j in pairs]
