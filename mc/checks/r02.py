import math

import numpy as np

from mc import impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "R02"
RULE = ("every world of the alphabet x start x requested distance x interaction limit; each run is checked against path-length and "
        "counting invariants and, where no decision hinges on rounding, vertex by vertex against the reference tracer")
INF = math.inf


def judge(spec, ctx):
    optics, (p, d, wl, order), distance, limit, how = spec
    form = int(how == "integers")
    real = [impl.build(o, form) for o in optics]
    r = impl.ray(p, d, wl, order, form=form)
    if how.startswith("short") and limit == INF:
        r.run(distance, real)
    elif how == "numpy, exact":
        r.run(np.float64(distance), optic_list=real, max_interactions=limit if limit == INF else np.int64(limit))
    else:
        r.run(max_distance=distance, optic_list=real, max_interactions=limit)
    invariants(r, p, d, distance, limit, ctx)
    if not optics and not ctx.fails:
        far = max(0.0, float(distance))
        if not ref.dist(impl.hist(r)[-1], ref.add(p, ref.mul(far, ref.unit(d)))) <= 1e-12 * (1.0 + ref.norm(p) + far):
            return ctx.fail("a free flight of %r from %s along %s ends at %s" % (distance, p, d, impl.hist(r)[-1]))
    if not ctx.fails:
        st = ref.run(ref.State(p, d, wl, order, exact=how in EXACT), optics, distance, limit)
        impl.compare(r, st, ctx)


def invariants(r, p, d, distance, limit, ctx, first=0):
    limit = max(limit, 0)  # a negative limit allows no interaction
    h = impl.hist(r)
    if h[0] != impl.tup(p):
        return ctx.fail("the trajectory begins at %s, not at the start %s" % (h[0], p))
    if not all(impl.finite(x) for x in h) or not impl.finite(impl.tup(r.direction)):
        return ctx.fail("undefined coordinates %s %s" % (impl.short(h), r.direction))
    if not impl.close(h[-1], impl.tup(r.position), 1e-9):
        return ctx.fail("the trajectory ends at %s, the ray is at %s" % (h[-1], r.position))
    if abs(ref.norm(impl.tup(r.direction)) - 1) > 1e-9:
        return ctx.fail("direction of length %r" % ref.norm(impl.tup(r.direction)))
    length = sum(ref.dist(a, b) for a, b in zip(h, h[1:]))
    legs = len(h) - 1
    tol = 1e-9 * max(1.0, abs(distance) if distance != INF else 1.0) * max(1, legs)
    if distance != INF and length > max(distance, 0) + tol:
        return ctx.fail("travelled %r, more than the requested %r" % (length, distance))
    short = length < max(distance, 0) - tol
    if short and not r.blocked and legs < limit:
        return ctx.fail("travelled only %r of %r although neither absorbed nor at the limit of %s interactions (%d legs)" % (
            length, distance, limit, legs))
    exact = 1e-14 * (legs + 3) * (max(max(map(abs, x)) for x in h) + distance)
    if not first and not r.blocked and legs <= limit and not (legs == limit and short) and 0 < distance < INF:
        if abs(length - distance) > exact:
            return ctx.fail("travelled %r, not the requested %r" % (length, distance))
    if legs > limit + 1 or (legs == limit + 1 and short):
        return ctx.fail("%d legs with a limit of %s interactions" % (legs, limit))
    if limit <= 0 and legs > 1:
        return ctx.fail("interacted although no interaction was allowed")
    for a, b in zip(h, h[1:]):
        if ref.dist(a, b) <= 0 and distance > 0:
            return ctx.fail("a leg without length at %s" % (a,))
    if legs and ref.dist(ref.unit(ref.sub(h[1], h[0])), ref.unit(impl.tup(d))) > 1e-7 + 1e-14 * (1 + ref.norm(h[0])) / ref.dist(h[0], h[1]):
        ctx.fail("the first leg does not follow the direction")


def corridor(axis, gap, half=500):
    """two facing mirrors at -gap/2 and +gap/2 along an axis; everything exact in binary"""
    e = [0, 0, 0]
    e[axis] = 1
    t = [0, 0, 0]
    t[(axis + 1) % 3] = 1
    p = tuple(gap / 2 * x for x in e)
    return (("rect", p, tuple(-x for x in e), tuple(t), half, half), ("flat", tuple(-x for x in p), tuple(e), half))


EXACT = ("short, exact", "keyword, exact", "numpy, exact")
LIMITS = (-5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 32, 50, 60, INF)


def perpendicular(tier):
    """exact bouncing between two mirrors; the distance ends before, exactly at and after the mirrors"""
    dists = [0, -1, 0.5, 4, 5, 6, 14, 15, 16, 25, 35, 45, 100, 105, 1000, 1005, 0.0, 5.0, 15.0, 7505.0]
    if tier == "thorough":
        dists += [i / 2 for i in range(1, 400)] + [5000, 5005]
    for axis in range(3):  # thousands of interactions; a last leg of next to nothing
        d = tuple(int(i == axis) for i in range(3))
        for dist in (30005.0, 50007.5) if tier == "quick" else (30005.0, 50007.5, 300005.0, 700007.5):
            for limit in (INF, 2600, 100000):
                yield (corridor(axis, 10), ((0, 0, 0), d, 532, 0), dist, limit, EXACT[axis])
        if axis == 1:
            yield (corridor(axis, 10), ((0, 0, 0), d, 532, 0), 130005.0, INF, EXACT[axis])
        for k in range(4, 19):
            for base in (5, 15, 35):
                for limit in (INF, 1, 2, 9):
                    yield (corridor(axis, 10), ((0, 0, 0), d, 532, 0), base + 2.0 ** -k, limit, EXACT[axis])
                    yield (corridor(axis, 10), ((0, 0, 0), d, 532, 0), base - 2.0 ** -k, limit, EXACT[axis])
    for axis in range(3):
        optics = corridor(axis, 10)
        for sign in (1, -1):
            d = tuple(sign * int(i == axis) for i in range(3))
            for dist in dists:
                for limit in LIMITS:
                    yield (optics, ((0, 0, 0), d, 532, 0), dist, limit, EXACT[axis])


BOX = tuple(("rect", tuple(12.0 * s * e for e in ax), tuple(-s * e for e in ax), tan, 24.0, 24.0)
            for ax, tan in (((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0))) for s in (1, -1))


def box(tier):
    """a closed box of six mirrors, in general directions, for up to hundreds of bounces"""
    for i in range(40 if tier == "quick" else 300):
        d = (math.cos(1.7 * i + 0.3), math.sin(2.3 * i + 0.4), math.cos(0.9 * i + 1.1))
        for dist in (3.3, 40.7, 333.3, 2000.9, 15000.7):
            for limit in (1, 5, 17, INF):
                yield (BOX, ((1.1, -2.3, 3.7), d, 532, 0), dist, limit, "keyword")


CAVITY = (("flat", (0.0, 60.0, 0.0), W.tilt((0, -1, 0), 0.01, 0.013), 40.0), ("concave", (0.0, -50.0, 0.0), (0, 1, 0), 40.0, 70.0))


def trapped(tier):
    """rays that cannot get out: inside shiny and glass balls and tubes, between a mirror and a concave mirror with things inside"""
    balls = [(("convex", (1.0, 2.0, -3.0), 20.0),), (("solid", ("sphere", (1.0, 2.0, -3.0), 10.0), "reflect", 1.5),),
             (("solid", ("sphere", (1.0, 2.0, -3.0), 10.0), "refract", 1.9),), (("ball", (1.0, 2.0, -3.0), 20.0, 1.7),),
             (("solid", ("cyl", (1.0, 2.0, -3.0), (0.2, 0.3, 1.0), 10.0), "refract", 1.5),),
             (("solid", ("difference", ("sphere", (1.0, 2.0, -3.0), 20.0), ("sphere", (1.0, 2.0, -3.0), 10.0)), "reflect", 1.5),),
             CAVITY, CAVITY + (("ball", (0.5, 10.0, -0.3), 12.0, 1.5),), CAVITY + (("ideal", (0.0, 15.0, 0.0), (0.05, 1, 0.02), 30.0, 55.0),),
             CAVITY + (("solid", ("difference", ("sphere", (0.0, 5.0, 0.0), 9.0), ("sphere", (0.0, 12.0, 0.0), 8.0)), "refract", 1.5),)]
    for optics in balls:
        for i in range(30 if tier == "quick" else 200):
            p = (1.0 + 6.9 * math.cos(0.8 * i), 2.0 + 6.9 * math.sin(0.8 * i), -3.1)
            d = (math.cos(2.1 * i + 0.7), math.sin(2.1 * i + 0.7), 0.1 * math.sin(i))
            for dist, limit in ((2.5, INF), (50.5, INF), (700.3, INF), (700.3, 9), (90.7, 2)):
                yield (optics, (p, d, 532, 0), dist, limit, "keyword")


def everything(tier):
    """every pair of kinds with every limit and several distances, including distances that end between the optics"""
    rays = W.FORWARD[:2] + W.BACKWARD[:1] if tier == "quick" else W.ALL_RAYS
    for a, b in product(W.NAMES, W.NAMES):
        optics = (W.optic(a, 0, 0), W.optic(b, 1, 1))
        for ray in rays:
            for dist, limit in ((61.3, INF), (92.2, INF), (400.2, 1), (400.2, 2), (900.1, 3), (900.1, INF)) if tier == "quick" else \
                    product((11.1, 61.3, 92.2, 400.2, 3000.1), (0, 1, 2, 3, 5, INF)):
                yield (optics, ray, dist, limit, "keyword")


def nothing(tier):
    """empty space, and unbounded runs that end on a detector"""
    for d in (0, 1, 2.5, 1000, 12345.678, 98765.4321, 123456.7, 1e6, 1e-3, 2.5e6, 3e9, 1e12, 1e-5, 3e-9, 1e-12):
        for v in ((1, 0, 0), (0, -3, 4), (0.2, 0.3, -0.9)):
            yield ((), ((1.0, -2.0, 0.5), v, 532, 0), d, INF, "short")
            yield ((), ((1.0, -2.0, 0.5), v, 532, 0), d, 1, "keyword")
            yield ((W.optic("flat", 2, 0),), ((1.0, -2.0, 0.5), v, 532, 0), d, 3, "keyword")
    det = W.optic("detector", 2, 0)
    for ray in W.FORWARD[:2]:
        yield ((det,), ray, INF, INF, "keyword")
        yield ((W.optic("ideal", 0, 0), det), ray, INF, 1, "keyword")


def integers(tier):
    """starts, directions, places and distances given as integers, with and without surfaces in the way"""
    worlds = [(), (("flat", (0, 30, 0), (0, -1, 1), 60),), (("rect", (0, 20, 3), (1, 3, -1), (3, -1, 0), 90, 70),), (("convex", (0, 30, 2), 20),),
              (("ball", (1, 30, 0), 24, 1.5), ("flat", (0, 55, 0), (1, -3, 1), 80)), (("ideal", (0, 20, 0), (0, 2, 0), 40, 15),),
              (("solid", ("cyl", (0, 25, 0), (0, 0, 1), 9), "refract", 1.5),), (("concave", (0, 33, 0), (0, -1, 0), 30, 25), ("grating", (0, 3, 0), (0, 3, 0), (1, 0, 0), 30, 30, 300))]
    for optics in worlds:
        for p, d in product(((0, 0, 0), (2, -5, 1), (-3, 4, 2)), ((0, 1, 0), (1, 3, 1), (-1, 7, 2), (3, -4, 0))):
            for dist, limit in ((7, INF), (7.75, INF), (100, 1), (123.4, INF)):
                yield (optics, (p, d, 532, 1), dist, limit, "integers")


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip(), timeout=20)
            for f in (nothing, integers, perpendicular, box, trapped, everything)]
