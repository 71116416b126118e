from mc import impl, ref, worlds as W
from mc.checks.o02 import csg
from mc.checks.r02 import BOX, CAVITY
from mc.core import Space, product

PROPERTY = "O05"
RULE = ("every reversible scene x ray is run forward and its reversed ray is run back the same distance; the two recorded paths must be "
        "mirror images of each other vertex by vertex; non-trivial when a surface is met")
ASSUMPTIONS = ["paths that amplify a disturbance more than 1e5 times, or hinge on less than 1e-6, are abstained from",
               "a concave mirror's aperture is the flat disc at its vertex, so near its rim a path may pass it in one direction only: such "
               "paths (recognised by the reference model) are left out"]
REVERSIBLE = [k for k in W.NAMES if k not in ("collimate", "focus", "grating", "detector")]


def retraces(st, back):
    return len(st.history) == len(back.history) and all(ref.dist(x, y) < 1e-3 for x, y in zip(st.history, back.history[::-1]))


def judge(spec, ctx):
    optics, rays, distance = spec
    real = [impl.build(o) for o in optics]
    for p, d, wl, order in rays:
        st = ref.run(ref.State(p, d, wl, 0), optics, distance)
        if st.trust is not None:
            ctx.skip("hinges on a margin")
            continue
        back = ref.run(ref.State(st.p, ref.mul(-1, st.d), wl, 0), optics, distance)
        if back.trust is not None:
            ctx.skip("hinges on a margin on the way back")
            continue
        if any(o[0] == "concave" for o in optics) and not retraces(st, back):
            ctx.skip("passes the aperture of a concave mirror in one direction only")
            continue
        r = impl.ray(p, d, wl, 0)
        r.run(distance, real)
        b = impl.ray(impl.tup(r.position), ref.mul(-1, impl.tup(r.direction)), wl, 0)
        b.run(distance, real)
        ctx.step(len(r.point_history) + len(b.point_history) - 2)
        ctx.trace()
        f, g = impl.hist(r), impl.hist(b)[::-1]
        ctx.state(impl.key(f))
        if len(f) != len(g):
            return ctx.fail("%s -> %s: %d points forward, %d back: %s and %s" % (p, d, len(f), len(g), impl.short(f), impl.short(g)))
        for x, y in zip(f, g):
            if not impl.close(x, y, 1e-7):
                return ctx.fail("%s -> %s passes %s, on the way back %s" % (p, d, x, y))
        if not impl.close(ref.mul(-1, impl.tup(b.direction)), ref.unit(d), 1e-7):
            return ctx.fail("%s -> %s comes back along %s" % (p, d, b.direction))


def singles(tier):
    for a in REVERSIBLE:
        for place in range(3):
            for f in range(3):
                for dist in (77.7, 205.3):
                    yield ((W.optic(a, place, f),), tuple(W.ALL_RAYS), dist)


def balls(tier):
    """ball lenses and glass balls and rods of every index, bundles at all heights, single and double passes"""
    mirror = ("flat", (0.0, 60.0, 0.0), W.tilt((0, -1, 0), 0.02, 0.01), 90.0)
    for index in (0.6, 1.02, 1.33, 1.5, 1.71, 1.9, 2.4, 4.0):
        for thing in (("ball", (0.0, 20.0, 0.0), 20.0, index), ("solid", ("sphere", (0.0, 20.0, 0.0), 10.0), "refract", index),
                      ("solid", ("cyl", (0.0, 20.0, 0.0), (0.1, 0.2, 1.0), 10.0), "refract", index),
                      ("solid", ("intersect", ("sphere", (0.0, 14.0, 0.0), 10.0), ("sphere", (0.0, 26.0, 0.0), 10.0)), "refract", index)):
            rays = [((0.3 + 0.5 * x, -10.0, 1.93 * z), (0.01 * x, 1, 0.02 - 0.01 * z), 532, 0) for x in (-2, 1) for z in range(-5, 6)]
            for optics in ((thing,), (mirror, thing)):
                yield (optics, tuple(rays), 143.7)


def pairs(tier):
    for a, b in product(REVERSIBLE, REVERSIBLE):
        for fa in range(2 if tier == "quick" else 3):
            yield ((W.optic(a, 0, fa), W.optic(b, 1, 1)), tuple(W.ALL_RAYS[(0 if fa else 1)::2] if tier == "quick" else W.ALL_RAYS), 180.3)


def triples(tier):
    names = ("flat", "concave", "ideal", "diverging", "ball", "lens", "bitten", "dmd") if tier == "quick" else REVERSIBLE
    for a, b, c in product(names, names, names):
        yield ((W.optic(c, 2, 0), W.optic(a, 0, 0), W.optic(b, 1, 1)), tuple(W.FORWARD[:3] + W.MIDDLE[:2]), 260.3)


def solids(tier):
    """every solid of the Boolean alphabet in glass of several indices and as a mirror"""
    for tree in csg():
        for how, index in (("refract", 1.5), ("refract", 2.2), ("refract", 0.8), ("reflect", 1.5)):
            rays = [((20.0 * x + 0.3, 20.0 * y - 0.2, 20.0 * z + 0.1), (-x + 0.1, -y + 0.07, -z - 0.05), 532, 0)
                    for x, y, z in product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)) if (x, y, z) != (0, 0, 0)]
            rays += [((0.4, 0.3, -0.2), (x + 0.13, y + 0.2, z - 0.1), 532, 0) for x, y, z in product((-1, 1), (-1, 1), (-1, 1))]
            for part in (rays[:13], rays[13:26], rays[26:]):
                yield ((("solid", tree, how, index),), tuple(part), 66.6)


def cavities(tier):
    """long paths in a mirror box and in a stable cavity with lenses and balls inside"""
    for i in range(20 if tier == "quick" else 150):
        d = (0.3 + 0.017 * i, 0.9 - 0.03 * i, 0.21 + 0.011 * i)
        yield (BOX, (((1.1, -2.3, 3.7), d, 532, 0),), 900.7)
        for inside in ((), (("ball", (0.5, 10.0, -0.3), 12.0, 1.5),), (("ideal", (0.0, 15.0, 0.0), (0.05, 1, 0.02), 30.0, 55.0),)):
            yield (CAVITY + inside, (((0.3, -2.3, 0.7), (0.01 * i - 0.1, 1.0, 0.03 - 0.004 * i), 532, 0),), 640.3)


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip())
            for f in (singles, balls, solids, cavities, pairs, triples)]
