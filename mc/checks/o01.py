import math

from mc import contexts, impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "O01"
RULE = ("products of mirror kind x orientation x place x size x curvature x ray bundle; each ray's meeting point and new direction are "
        "compared with the closed form; non-trivial when the ray meets the mirror, and misses are checked to be misses")

NORMALS = [d for d in product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)) if d != (0, 0, 0)] + \
    [(0.2, -0.9, 0.4), (-0.7, 0.3, 0.1), (0.001, 1.0, 0.0), (0.0, -1.0, 1e-6), (1e-9, 0.0, -1.0)]
CENTRES = [(0.0, 0.0, 0.0), (3.0, -7.0, 12.0), (-250.0, 130.0, -77.0)]


def bundle(c, n, spread, distances=(37.0,), steps=2, sides=(1, -1), scale=1.0):
    """rays aimed at points of the plane through c perpendicular to n, on a grid of +-spread, from several directions"""
    n = ref.unit(n)
    t = W.frame(n)
    v = ref.cross(n, t)
    out = []
    for i, j in product(range(-steps, steps + 1), range(-steps, steps + 1)):
        target = ref.add(c, ref.add(ref.mul(spread * (i + 0.11) / steps, t), ref.mul(spread * (j - 0.07) / steps, v)))
        for side in sides:
            for dist in distances:
                a, b = 0.5 * math.sin(1.3 * i + 2.1 * j), 0.6 * math.cos(2.2 * i - j)
                d = ref.unit(ref.add(ref.mul(-side, n), ref.add(ref.mul(a, t), ref.mul(b, v))))
                out.append((ref.along(target, -dist * scale, d), d))
    # and the very middle, met straight and aslant
    out += [(ref.along(c, -dist * scale, d), d) for dist in distances for side in sides
            for d in (ref.mul(-side, n), ref.unit(ref.add(ref.mul(-side, n), ref.add(ref.mul(0.3, t), ref.mul(-0.2, v)))))]
    return out


def judge(spec, ctx, limit=1):
    optic, rays, distance, form = spec
    real = [impl.build(optic, form)]
    for p, d in rays:
        st = ref.run(ref.State(p, d), (optic,), distance, limit)
        r = impl.ray(p, d, form=form)
        r.run(distance, real, max_interactions=limit)
        impl.compare(r, st, ctx, what="%s -> %s: " % (p, d))
        if ctx.fails:
            return


def judge_on(spec, ctx):
    judge(spec, ctx, 40)


def flats(tier):
    """discs and rectangles of every orientation, number form and size, from both sides, inside and outside the outline"""
    for n in NORMALS:
        for ci, c in enumerate(CENTRES):
            for D in (10.0, 31.0):
                yield (("flat", c, n, D), tuple(bundle(c, n, 0.8 * D)), 120.0, (ci, 2, 3)[ci])
            for hint in ((0.31, 0.17, 0.93), (-0.6, 0.8, 0.02)):
                t = W.frame(n, hint)
                for h, w in ((6.0, 30.0), (22.0, 9.0)):
                    yield (("rect", c, n, t, h, w), tuple(bundle(c, n, 0.6 * max(h, w))), 120.0, (0, 2, 3)[ci])


def lattice(tier):
    """integer scenes: axis-aligned and diagonal rectangles and discs hit by lattice rays"""
    for n, t in (((0, 1, 0), (1, 0, 0)), ((0, 0, -1), (0, 1, 0)), ((1, 1, 0), (1, -1, 0)), ((1, 1, 1), (1, 0, -1)), ((-1, 0, 0), (0, 3, 4))):
        for form in (0, 1, 2):
            for h, w in ((6, 10), (11, 4)):
                rays = []
                for p in product((-13, -4, 3, 12), (-9, 5, 14), (-11, 2, 8)):
                    for tgt in ((0, 0, 0), (1, 2, -1), (-3, 1, 2), (4, -4, 1)):
                        rays.append((p, tuple(b - a for a, b in zip(p, tgt))))
                yield (("rect", (0, 0, 0), n, t, h, w), tuple(rays), 60, form)
                yield (("flat", (0, 0, 0), n, h + w), tuple(rays), 60, form)


def dmds(tier):
    """micromirror devices with every tilt direction and angle, both sides"""
    for n in NORMALS[::2]:
        t = W.frame(n)
        v = ref.cross(ref.unit(n), t)
        for ang in (12, -12, 24, 3, 45, 80):
            for ax in (t, v, ref.unit(ref.add(t, v))):
                a = math.radians(ang)
                m = ref.add(ref.mul(math.cos(a), ref.unit(n)), ref.mul(math.sin(a), ax))
                if ang in (-12, 45):
                    for base in (("flat", (1.0, -2.0, 3.0), n, 15.0), ("concave", (1.0, -2.0, 3.0), n, 15.0, 20.0), ("convex", (1.0, -2.0, 3.0), 15.0)):
                        yield (("as_dmd", base, m), tuple(bundle((1.0, -2.0, 3.0), n, 9.0, steps=1)), 120.0, 0 if ang > 0 else 2)
                for k in (1.0, 3.0):
                    yield (("dmd", (1.0, -2.0, 3.0), n, t, 14.0, 20.0, ref.mul(k, m)), tuple(bundle((1.0, -2.0, 3.0), n, 9.0, steps=1)), 120.0, 0)


def concaves(tier):
    """concave mirrors from deep to shallow, front and back, rays from inside and outside the centre of curvature"""
    for n in NORMALS:
        for c in CENTRES[:2] if tier == "quick" else CENTRES:
            for D, f in ((12.0, 9.0), (20.0, 6.0), (30.0, 200.0), (5.0, 50.0), (50.0, 6e4), (0.02, 0.03)):
                rays = bundle(c, n, 0.55 * D, (0.3 * f + 4.0, 3.3 * f + 40.0))
                yield (("concave", c, n, D, f), tuple(rays), 10 * f + 200.0, 0 if f > 7 else 2)


def convexes(tier):
    """whole spheres of many sizes, from outside, from inside and beside"""
    for c in CENTRES:
        for D in (5e-3, 0.05, 1.0, 10.0, 44.0, 500.0, 3e5):
            for n in NORMALS[::3]:
                rays = bundle(c, n, 0.56 * D, (1.4 * D,))
                rays += [(ref.along(c, 0.31 * D, ref.unit(d)), ref.add(d, (0.2, 0.3, -0.6))) for d in NORMALS[::5]]
                yield (("convex", c, D), tuple(rays), 5.0 * D, 0)


def judge_focus(spec, ctx):
    """near-axis parallel light crosses the axis at distance f"""
    c, n, D, f = spec
    optic = ("concave", c, n, D, f)
    real = [impl.build(optic)]
    n = ref.unit(n)
    t = W.frame(n)
    for k in range(8):
        a = k * math.pi / 4
        off = ref.add(ref.mul(math.cos(a), t), ref.mul(math.sin(a), ref.cross(n, t)))
        rho = 0.004 * f
        p = ref.add(ref.along(c, 3.7 * f, n), ref.mul(rho, off))
        r = impl.ray(p, ref.mul(-1, n))
        r.run(10 * f, real, max_interactions=1)
        q, d = impl.tup(r.position), impl.tup(r.direction)
        ctx.step()
        out = ref.dot(d, off)
        s = ref.dot(ref.sub(q, c), off)
        if out >= 0:
            return ctx.fail("parallel light at %s is not turned towards the axis" % (off,))
        cross = ref.dot(ref.sub(ref.along(q, -s / out, d), c), n)
        if abs(cross - f) > 1e-4 * f:
            return ctx.fail("parallel light crosses the axis at %s instead of f=%s" % (cross, f))
    ctx.trace()
    ctx.state(impl.key(c, n, D, f))


def grazings(tier):
    """incidence from a tenth down to a hundred-thousandth of a radian from grazing on every kind of mirror, from both sides, near
    the origin and metres away from it"""
    slopes = (0.1, 0.011, 2e-3, 4e-4, 9e-5, 2e-5)
    for n, c in product(NORMALS[::4] + [(0.2, -0.9, 0.4)], ((3.0, -7.0, 12.0), (1e3, -400.0, 900.0), (-3e4, 7e3, 5e4))):
        u = ref.unit(n)
        t = W.frame(u)
        v = ref.cross(u, t)
        for name in ("flat", "rect", "dmd", "concave"):
            rays = []
            for k, (slope, side) in enumerate(product(slopes, (1, -1))):
                d = ref.unit(ref.add(ref.mul(math.cos(k), t), ref.add(ref.mul(math.sin(k), v), ref.mul(-side * slope, u))))
                x = ref.add(c, ref.add(ref.mul(1.3, v), ref.mul(-0.4, t)))
                rays.append((ref.along(x, -40.0, d), d))
            yield (W.KINDS[name](c, n), tuple(rays), 120.0, 0)
        rays = []  # a ball met near its limb
        for k, b in enumerate((0.99, 0.9999, 0.999999, 0.9999999)):
            d = ref.unit(ref.add(ref.mul(math.cos(k), t), ref.mul(math.sin(k), v)))
            rays.append((ref.add(c, ref.add(ref.mul(900.0 * b, u), ref.mul(-1000.0, d))), d))
            rays.append((ref.add(c, ref.mul(900.0 * b, u)), d))
        yield (("convex", c, 1800.0), tuple(rays), 2500.0, 0)


def foci(tier):
    for n in NORMALS:
        for c in CENTRES:
            for f in (2.5, 40.0, 333.0, 5000.0):
                yield (c, n, f, f)


def judge_both(spec, ctx):
    """unlimited runs between the mirror and a wall: reflections from either side, again and again"""
    optic, rays, form = spec
    wall = ("convex", optic[1], 400.0)
    real = [impl.build(optic, form), impl.build(wall, form)]
    for p, d in rays:
        st = ref.run(ref.State(p, d), (optic, wall), 1500.0)
        r = impl.ray(p, d)
        r.run(1500.0, real)
        impl.compare(r, st, ctx, what="%s -> %s: " % (p, d))
        if ctx.fails:
            return


def caves(tier):
    """every mirror kind inside a reflecting sphere"""
    for name in ("flat", "rect", "dmd", "concave", "convex"):
        for n in NORMALS[::3]:
            c = (4.0, -3.0, 5.0)
            yield (W.KINDS[name](c, n), tuple(bundle(c, n, 10.0, (60.0,), 1)), 0)


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), j, note=((f.__doc__ or j.__doc__) or "").strip())
            for f, j in ((flats, judge), (lattice, judge), (dmds, judge), (concaves, judge), (convexes, judge), (foci, judge_focus), (grazings, judge_on), (caves, judge_both))] + contexts.spaces(("flat", "rect", "dmd", "concave", "convex", "shiny", "shinyrod"))
