import math

import numpy as np

from mc import contexts, impl, ref, worlds as W
from mc.checks.o01 import NORMALS, CENTRES
from mc.core import Space, product

PROPERTY = "O04"
RULE = ("products of groove density x order x wavelength x in-plane angle x out-of-plane angle x face x orientation; the diffracted "
        "direction is checked component by component against the grating equation")
ASSUMPTIONS = ["at in-plane normal incidence (|sin a| < 1e-7) the side 'the ray came from' is undefined: either side is accepted, but opposite orders must "
               "leave symmetrically"]
WAVES = (1.3, 62.0, 193.0, 405, 532, 650.25, 1064.0, 10600.0)
ORDERS = (-3, -2, -1, 0, 1, 2, 3)


def judge(spec, ctx):
    G, n, hint, c, face, form, angles, orders, waves = spec
    nn = ref.unit(n)
    g = W.frame(nn, hint)
    e = ref.cross(nn, g)
    real = [impl.build(("grating", c, n, g, 20.0, 20.0, G), form)]
    up = ref.mul(face, nn)
    for sa, cone in angles:
        # the ray comes from the face side; sa: in-plane sine, cone: component along the grooves
        w = math.sqrt(1 - cone * cone)
        d = ref.add(ref.mul(-w * math.sqrt(1 - sa * sa), up), ref.add(ref.mul(-w * sa, e), ref.mul(cone, g)))
        for order in orders:
            for wl in waves:
                p = ref.along(ref.add(c, (0.1, 0.2, -0.1)), 0.0, d)
                p = ref.sub(p, ref.mul(ref.dot(ref.sub(p, c), nn), nn))
                start = ref.along(p, -17.0, d)
                r = impl.ray(start, d, wl, order)
                r.run(20.0, real)
                ctx.step(2)
                ctx.trace()
                q, out = impl.tup(r.position), impl.tup(r.direction)
                h = impl.hist(r)
                if not impl.finite(q) or not impl.finite(out) or not all(impl.finite(x) for x in h):
                    return ctx.fail("order %s at %s nm, sin a=%s: undefined state %s %s" % (order, wl, sa, q, out))
                if len(h) < 2 or not impl.close(h[1], p):
                    return ctx.fail("does not meet the grating at %s: %s" % (p, impl.short(h)))
                what = "G=%s order %s wavelength %s sin a=%.4f cone=%.3f face %s normal %s: " % (G, order, wl, sa, cone, face, n)
                # light that came from +e (sa > 0): sin b measured on the same side
                s = math.copysign(1.0, sa)
                sb = G * 1e-6 * order * wl - abs(sa)
                if order != 0 and abs(abs(sb) - 1) < 1e-6:
                    ctx.skip("order on the verge of existing")
                    continue
                if order != 0 and abs(sb) > 1:
                    if not r.blocked or len(h) != 2:
                        return ctx.fail(what + "the order does not exist but the ray goes on to %s" % (q,))
                    ctx.state("absorbed", order, wl, impl.key(sa))
                    continue
                if r.blocked or len(h) != 3:
                    return ctx.fail(what + "the order exists but the ray is absorbed")
                a, b, k = ref.dot(out, up), ref.dot(out, e), ref.dot(out, g)
                if a <= 0:
                    return ctx.fail(what + "leaves through the back")
                if abs(k - cone) > 1e-10:
                    return ctx.fail(what + "component along the grooves %r instead of %r" % (k, cone))
                if abs(b - w * s * sb) > 1e-9 / max(1e-3, math.sqrt(1 - sb * sb)) or abs(ref.norm(out) - 1) > 1e-9:
                    return ctx.fail(what + "sin b = %r instead of %r (direction %s)" % (s * b / w, sb, out))
                if not impl.close(q, ref.along(p, 3.0, out), 1e-6):
                    return ctx.fail(what + "does not follow its direction")
                ctx.state(impl.key(a, b, k))


IN_PLANE = (0.02, -0.3, 0.5, -0.77, 0.95)
ANGLES = [(s, k) for s in IN_PLANE for k in (0.0, 0.25, -0.6)]


def judge_normal(spec, ctx):
    """light along the normal, or in the plane of the normal and the grooves: opposite orders leave as mirror images"""
    G, n, hint, c, cones, orders, waves = spec
    nn = ref.unit(n)
    g = W.frame(nn, hint)
    e = ref.cross(nn, g)
    real = [impl.build(("grating", c, n, g, 20.0, 20.0, G))]
    for face, cone, order, wl in product((1, -1), cones, orders, waves):
        w = math.sqrt(1 - cone * cone)
        d = ref.add(ref.mul(-face * w, nn), ref.mul(cone, g))
        start = ref.along(ref.add(c, ref.add(ref.mul(1.1, g), ref.mul(0.7, e))), -17.0, d)
        outs = []
        what = "G=%s order %s wavelength %s cone=%.3f face %s normal %s: " % (G, order, wl, cone, face, n)
        for m in (order, -order):
            r = impl.ray(start, d, wl, m)
            r.run(20.0, real)
            ctx.step(2)
            h, out = impl.hist(r), impl.tup(r.direction)
            if not impl.finite(out) or not all(impl.finite(x) for x in h):
                return ctx.fail(what + "undefined state %s %s" % (impl.short(h), out))
            outs.append(None if r.blocked else out)
        ctx.trace()
        sb = G * 1e-6 * order * wl
        if abs(abs(sb) - 1) < 1e-6:
            ctx.skip("order on the verge of existing")
            continue
        if abs(sb) > 1:
            if outs != [None, None]:
                return ctx.fail(what + "the order does not exist but the ray goes on: %s" % (outs,))
            ctx.state("absorbed", order, wl)
            continue
        if None in outs:
            return ctx.fail(what + "an order that exists is absorbed: %s" % (outs,))
        tol = 1e-7
        parts = [(ref.dot(o, nn) * face, ref.dot(o, e), ref.dot(o, g)) for o in outs]
        ctx.state(impl.key([tuple(map(abs, q)) for q in parts]))
        for a, b, k in parts:
            if a <= 0 or abs(k - cone) > tol or abs(abs(b) - w * abs(sb)) > tol or abs(a * a + b * b + k * k - 1) > tol:
                return ctx.fail(what + "leaves with components %s (normal, in-plane, groove), expected |in-plane| = %r, groove %r" % ((a, b, k), w * abs(sb), cone))
        if abs(parts[0][1] + parts[1][1]) > tol:
            return ctx.fail(what + "opposite orders leave with in-plane components %r and %r" % (parts[0][1], parts[1][1]))


def normals(tier):
    """normal and conical in-plane-normal incidence on every orientation x groove density x order x wavelength"""
    for ni, n in enumerate(NORMALS + [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -1, 0), (0, 1, 0)]):
        for hint in ((0.31, 0.17, 0.93), (-0.9, 0.3, 0.2)) if ni % 2 else ((0.1, -1.0, 0.4), (1, 0.01, 0.02)):
            for G in (0.5, 300.0, 600, 2400.0):
                yield (G, n, hint, CENTRES[ni % 3], (0.0, 0.25, -0.6), (1, 2, -3), (62.0, 405, 532, 1064.0))


def densities(tier):
    """every groove density, order, wavelength and pair of angles on both faces"""
    for G in (0, 0.0, 0.5, 75, 300.0, 600, 1200.0, 2400.0):
        for face in (1, -1):
            for n, hint in (((0, -1, 0), (0.31, 0.17, 0.93)), ((0.3, 0.8, -0.4), (1, 0, 0)), ((0, 0, 1), (0.3, 1, 0.1)), ((1, 0, 0), (0, 0, 1))):
                for a in ANGLES if tier == "quick" else [(s / 12, k) for s in range(-11, 12) if s for k in (0.0, 0.01, 0.25, -0.6, 0.9)]:
                    yield (G, n, hint, CENTRES[1], face, 0, (a,), ORDERS, WAVES)


def grazings(tier):
    """nearly grazing incidence and light nearly along the grooves, on both faces"""
    for G in (1.0, 75, 600, 2400.0):
        for face in (1, -1):
            for n, hint in (((0, -1, 0), (0.31, 0.17, 0.93)), ((0.3, 0.8, -0.4), (1, 0, 0))):
                for s in (0.9975, -0.9975, 0.9999, -0.99995, 0.999995):
                    yield (G, n, hint, CENTRES[1], face, 0, tuple((s, k) for k in (0.0, 0.25, -0.9)), ORDERS, WAVES[1:])
                yield (G, n, hint, CENTRES[2], face, 0, ((0.3, 0.995), (-0.5, -0.9999), (0.9, 0.99)), ORDERS, WAVES[1:])


def steep(tier):
    """from a ten-millionth of a radian to a degree off the normal, on both sides"""
    for ni, n in enumerate(NORMALS):
        for G in (75, 600.0, 1200):
            for face in (1, -1):
                yield (G, n, (0.31, 0.17, 0.93), CENTRES[ni % 3], face, 0, tuple((sgn * s, k) for s in (1e-7, 5e-7, 3e-6, 2e-5, 1e-4, 1e-3, 0.0174) for sgn in (1, -1) for k in (0.0, 0.25)),
                       (-2, -1, 0, 1, 3), (532, 405.5))


def orientations(tier):
    """every orientation, groove direction, place and number form"""
    for ni, n in enumerate(NORMALS):
        for hint in ((0.31, 0.17, 0.93), (-0.9, 0.3, 0.2), (0.1, -1.0, 0.4)):
            for face in (1, -1):
                for form in (0, 2, 3):
                    yield (600.0, n, hint, CENTRES[(ni + form) % 3], face, form, tuple(ANGLES[::4]), (-2, -1, 0, 1, 2), (532, 405.0))


def fine(tier):
    """angles and wavelengths on a fine grid around the angles where an order appears and disappears"""
    for order in (-2, -1, 1, 2):
        for i in range(-40, 41):
            if i:
                yield (900.0, (0.1, -1.0, 0.2), (0.3, 0.1, 1.0), (1.0, 2.0, 3.0), 1, 0, ((i / 41.0, 0.0), (i / 41.0, 0.3)), (order,),
                       tuple(200.0 + 61.7 * k for k in range(24)))


def judge_zero(spec, ctx):
    """order zero is the specular reflection at every angle, normal incidence included"""
    optic, rays, form = spec
    real = [impl.build(optic, form)]
    for p, d, wl in rays:
        st = ref.run(ref.State(p, d, wl, 0), (optic,), 100.0)
        r = impl.ray(p, d, wl, 0)
        r.run(100.0, real)
        impl.compare(r, st, ctx, what="order 0 %s -> %s: " % (p, d))
        if ctx.fails:
            return


def zero(tier):
    """order zero at all angles including normal incidence, both faces, hits and misses of the outline"""
    from mc.checks.o01 import bundle
    for n in NORMALS:
        for hint in ((0.31, 0.17, 0.93), (-0.9, 0.3, 0.2)):
            g = W.frame(n, hint)
            rays = [(p, d, 400 + 37 * i) for i, (p, d) in enumerate(bundle((1.0, 2.0, 3.0), n, 14.0))]
            rays += [(ref.along((1.1, 2.2, 3.1), s * 20.0, ref.unit(n)), ref.mul(-s, ref.unit(n)), 500) for s in (1, -1)]
            yield (("grating", (1.0, 2.0, 3.0), n, g, 21.0, 13.0, 600.0), tuple(rays), 0)


ORDER_KINDS = {"int64": np.int64, "int8": np.int8, "float": float, "float64": np.float64, "0-d": np.array, "float32": np.float32}


def judge_types(spec, ctx):
    """the order counts, not the type of number it is given in, nor the one the wavelength and the groove density are given in"""
    optic, p, d, wl, m, kind, other = spec
    st = ref.run(ref.State(p, d, wl, m), (optic,), 50.0)
    real = [impl.build(optic)]
    if other:
        real[0].G = ORDER_KINDS[other](real[0].G)
    r = impl.ray(p, d, ORDER_KINDS[other](wl) if other else wl, ORDER_KINDS[kind](m))
    r.run(50.0, real)
    impl.compare(r, st, ctx, what="order %d as %s, others as %s: " % (m, kind, other))


def types(tier):
    """orders as numpy integers, floats and 0-d arrays, wavelengths and groove densities as numpy numbers"""
    for n in NORMALS[:6]:
        optic = ("grating", (1.0, 2.0, 3.0), n, W.frame(n, (0.31, 0.17, 0.93)), 30.0, 30.0, 500.0)
        d = ref.unit(ref.add(ref.mul(-1.0, ref.unit(n)), (0.21, -0.13, 0.17)))
        for m, kind, other in product((-2, -1, 0, 1, 2), ORDER_KINDS, (None, "int64", "float64", "float")):
            yield (optic, ref.along((1.1, 2.2, 3.1), -20.0, d), d, 500, m, kind, other)


def judge_pairs(spec, ctx):
    optics, rays, distance = spec
    real = [impl.build(o) for o in optics]
    for p, d, wl, m in rays:
        st = ref.run(ref.State(p, d, wl, m), optics, distance)
        r = impl.ray(p, d, wl, m)
        r.run(distance, real)
        impl.compare(r, st, ctx, what="%s -> %s %s nm order %d: " % (p, d, wl, m))
        if ctx.fails:
            return


def mounts(tier):
    """two gratings and mirrors in a monochromator, all wavelengths and orders"""
    scene = (("grating", (0.0, 40.0, 0.0), (0.3, -1.0, 0.0), (0, 0, 1), 30.0, 40.0, 600.0), ("flat", (-25.0, 0.0, 0.0), (0.5, 1.0, 0.1), 60.0),
             ("concave", (30.0, 0.0, 0.0), (-0.4, 1.0, 0.0), 50.0, 60.0), ("grating", (0.0, -30.0, 0.0), (0.1, 1.0, 0.0), (0, 0, 1), 60.0, 80.0, 300.0))
    for i in range(30 if tier == "quick" else 300):
        rays = [((0.4, 10.0, 0.2), (0.01 * i - 0.12, 1.0, 0.013 * (i % 5)), wl, m) for wl in (380.0, 532, 700.5) for m in ORDERS]
        yield (scene, tuple(rays), 400.0)


def spaces(tier):
    return [Space("zero", lambda: zero(tier), judge_zero, note=zero.__doc__),
            Space("orientations", lambda: orientations(tier), judge, note=orientations.__doc__),
            Space("steep", lambda: steep(tier), judge, note=steep.__doc__),
            Space("grazings", lambda: grazings(tier), judge, note=grazings.__doc__),
            Space("normals", lambda: normals(tier), judge_normal, note=normals.__doc__),
            Space("types", lambda: types(tier), judge_types, note=types.__doc__),
            Space("mounts", lambda: mounts(tier), judge_pairs, note=mounts.__doc__),
            Space("densities", lambda: densities(tier), judge, note=densities.__doc__),
            Space("fine", lambda: fine(tier), judge, note=fine.__doc__)] + contexts.spaces(("grating",))
