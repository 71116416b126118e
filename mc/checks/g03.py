import math

from mc import impl, ref, worlds as W
from mc.checks.g01 import AXES, DIRS, chunks
from mc.core import Space, product

PROPERTY = "G03"
RULE = ("every sphere and cylinder of the alphabet x points on a lattice and on shells just inside and outside; along rays, membership "
        "is evaluated between and beyond all reported crossings")


def judge(spec, ctx):
    prim, pts, form = spec
    shape = impl.prim(prim, form)
    buffer = impl.arr((0.0, 0.0, 0.0))
    for x in pts:
        want, m = ref.prim_inside(x, prim)
        ctx.step()
        if m < 1e-11 * max(ref.norm(x), ref.norm(prim[1]), prim[-1]):
            ctx.skip("on the surface")
            continue
        got = shape.test_point(impl.arr(x, form))
        buffer[:] = x  # one array, changed in place from question to question
        if bool(shape.test_point(buffer)) != want or impl.tup(buffer) != impl.tup(x):
            return ctx.fail("%s: point %s, in an array used before, inside=%s, expected %s" % (prim, x, not want, want))
        ctx.trace()
        ctx.state(impl.key(prim, tuple(map(float, x)), bool(got)))
        if bool(got) != want:
            return ctx.fail("%s: point %s inside=%s, expected %s (%.3g from the surface)" % (prim, x, got, want, m))


def judge_rims(spec, ctx):
    """points exactly on the surface, where every way of computing the distance is exact: not closer than the radius, so not inside"""
    prim, pts, form = spec
    shape = impl.prim(prim, form)
    for x in pts:
        ctx.step()
        ctx.trace()
        if shape.test_point(impl.arr(x, form)):
            return ctx.fail("%s: point %s on the surface counts as inside" % (prim, x))
        ctx.state(impl.key(prim, tuple(map(float, x))))


def rims(tier):
    """every axis point of spheres and of cylinders along z with radii that are powers of two, and Pythagorean points"""
    six = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    for R in (0.25, 1, 2, 8, 1024, 2 ** 17):
        for c in ((0, 0, 0), (R, -3 * R, 2 * R)):
            for form in (0, 1) if R >= 1 else (0,):
                yield (("sphere", c, R), tuple(ref.along(c, R, v) for v in six), form)
                yield (("cyl", c, (0, 0, 1), R), tuple(ref.add(ref.along(c, R, v), (0, 0, z * R)) for v in six[:4] for z in (-5, 0, 4)), form)
    for c in ((0, 0, 0), (10, -20, 30)):
        yield (("sphere", c, 5), tuple(ref.add(c, v) for v in ((3, 4, 0), (0, -3, 4), (-4, 0, 3), (4, 3, 0), (0, -4, -3))), 0)


def judge_rays(spec, ctx):
    prim, rays = spec
    shape = impl.prim(prim)
    for p, d in rays:
        span, m = ref.prim_span(p, ref.unit(d), prim)
        m = min([m] + ([ref.t_margin(t) for t in span] if span else []))
        ctx.step()
        if m < 1e-6:
            ctx.skip("margin")
            continue
        hit, p1, p2, n1, n2, count = shape.test_intersect(impl.ray(p, d))
        ts = sorted(ref.dot(ref.sub(impl.tup(x), p), ref.unit(d)) for x in (p1, p2) if x is not None)
        inside = bool(shape.test_point(impl.arr(p)))
        ctx.trace()
        ctx.state(impl.key(inside, len(ts)))
        endless = span is not None and span[0] == -ref.INF
        if not endless and inside != (count % 2 == 1):
            return ctx.fail("%s ray %s -> %s: start inside=%s but %d crossings ahead" % (prim, p, d, inside, count))
        # membership along the ray: constant between crossings, changing at each
        state = inside
        knots = [0.0] + ts + [(ts[-1] if ts else 0.0) + 10.0]
        for a, b in zip(knots, knots[1:]):
            for q in (1e-4, 0.3, 0.7, 1 - 1e-4):
                x = ref.along(p, a + q * (b - a), ref.unit(d))
                if ref.prim_inside(x, prim)[1] < 1e-9:
                    continue
                if bool(shape.test_point(impl.arr(x))) != state:
                    return ctx.fail("%s ray %s -> %s: membership changes at %s away from the reported crossings %s" % (prim, p, d, x, ts))
            state = not state


def points(tier):
    """lattice points in, on and around integer shapes; shells at relative radii from 0 to 2 of shapes of all sizes and axes"""
    prims = [("sphere", (0, 0, 0), 5), ("sphere", (2, -1, 3), 4), ("cyl", (0, 0, 0), (0, 0, 1), 3), ("cyl", (1, 2, -1), (1, 0, 0), 4),
             ("cyl", (1, 2, -1), (0, -1, 0), 2), ("cyl", (0, 0, 0), (1, 2, 2), 3), ("cyl", (0, 1, 0), (0, 0, -1), 3)]
    rng = range(-6, 7) if tier == "thorough" else range(-6, 7, 2)
    for prim in prims:
        for form in (0, 1):
            pts = list(product(range(-6, 7), rng, range(-5, 6, 2)))
            for part in chunks(pts, 200):
                yield (prim, part, form)
    for R in (0.01, 1.7, 60.0, 4000.0):
        for c in ((0.0, 0.0, 0.0), (13.0, -7.0, 3.0)):
            for prim in [("sphere", c, R)] + [("cyl", c, a, R) for a in AXES]:
                pts = []
                for v in DIRS + [(0.3, -0.8, 0.1), (-0.2, 0.1, 0.97)]:
                    for q in (0.0, 0.2, 0.7, 0.9, 0.99, 0.9999, 1 - 2e-8, 1 + 2e-8, 1 - 1e-9, 1 + 1e-9, 1.0001, 1.01, 1.2, 1.42, 2.0, 30.0):
                        x = ref.along(c, q * R, ref.unit(v))
                        pts.append(x)
                        if prim[0] == "cyl":
                            u = ref.unit(prim[2])
                            w = ref.perp(v, u)
                            if ref.norm(w) > 1e-3:
                                x = ref.add(c, ref.add(ref.mul(q * R, ref.unit(w)), ref.mul(100.0 * q - 40.0, u)))
                                pts.append(x)
                yield (prim, tuple(pts), 0)


def far(tier):
    """points hundreds to thirty million radii along the axis, and shapes that far from the origin, on shells a millionth in and out"""
    for R in (0.02, 1.0, 77.7):
        for c in ((0.0, 0.0, 0.0), (900.0 * R, 50.0 * R, -2.0 * R), (-7e4 * R, 3e4 * R, 11.0 * R)):
            for prim in [("sphere", c, R)] + [("cyl", c, a, R) for a in AXES + [(1, 0, 0), (0, -1, 0)]]:
                pts = []
                for k, v in enumerate(DIRS + [(0.3, -0.8, 0.1), (-0.2, 0.1, 0.97)]):
                    for q in (0.01, 0.019, 0.6, 0.9999, 1 - 1e-6, 1 + 1e-6, 1.0001, 1.2):
                        if prim[0] == "sphere":
                            pts.append(ref.along(c, q * R, ref.unit(v)))
                            continue
                        u = ref.unit(prim[2])
                        w = ref.perp(v, u)
                        if ref.norm(w) > 1e-3:
                            pts.append(ref.add(c, ref.add(ref.mul(q * R, ref.unit(w)), ref.mul((-300.0, 2e4, 1e5, -4e6, 3e7)[k % 5] * R, u))))
                yield (prim, tuple(pts), 0)


def rays(tier):
    """membership along rays through, past, out of and along shapes of all axes and sizes"""
    for R in (0.3, 6.0, 500.0):
        c = (1.0, -2.0, 0.5)
        for prim in [("sphere", c, R)] + [("cyl", c, a, R) for a in AXES + [(0, 1, 0), (-1, 0, 0)]]:
            out = []
            for k, v in enumerate(DIRS[::3] + [(0.3, -0.8, 0.1)]):
                v = ref.unit(ref.add(v, (0.07, -0.05, 0.03)))
                t = W.frame(v)
                for b in (0.0, 0.5, 0.95, 1.3):
                    for s in (-4.0, -0.3, 0.1, 3.0):
                        out.append((ref.add(c, ref.add(ref.mul(b * R, t), ref.mul(s * R, v))), v))
            if prim[0] == "cyl":
                u = ref.unit(prim[2])
                out += [(ref.along(c, q * R, W.frame(u)), ref.mul(s, prim[2])) for q in (0.0, 0.6, 1.5) for s in (1, -1)]
            yield (prim, tuple(out))


def spaces(tier):
    return [Space("rims", lambda: rims(tier), judge_rims, note=rims.__doc__), Space("far", lambda: far(tier), judge, note=far.__doc__),
            Space("points", lambda: points(tier), judge, note=points.__doc__), Space("rays", lambda: rays(tier), judge_rays, note=rays.__doc__)]
