import math

from mc import contexts, impl, ref, worlds as W
from mc.checks.o01 import NORMALS, CENTRES, bundle
from mc.core import Space, product

PROPERTY = "O02"
RULE = ("products of solid x index x ray bundle, alone and among other optics; at every crossing Snell's law is checked from the observed "
        "directions and true normals, and the whole path is compared with the reference tracer; non-trivial when a surface is crossed")
INDICES = (1.0, 1.0003, 1.33, 1.5, 1.9, 2.6, 4.0, 0.7, 0.95)


def judge(spec, ctx):
    optics, rays, distance, form = spec[:4]
    limit = spec[4] if len(spec) > 4 else 12
    real = [impl.build(o, form) for o in optics]
    for p, d in rays:
        st = ref.run(ref.State(p, d), optics, distance, limit)
        r = impl.ray(p, d, form=form)
        r.run(distance, real, max_interactions=limit)
        impl.compare(r, st, ctx, what="%s -> %s: " % (p, d))
        if ctx.fails:
            return


def judge_law(spec, ctx):
    """one glass sphere alone: the law itself, from what is observed"""
    kind, c, R, index, rays = spec
    o = ("ball", c, 2 * R, index) if kind == "ball" else ("solid", ("sphere", c, R), "refract", index)
    real = [impl.build(o)]
    for p, d in rays:
        r = impl.ray(p, d)
        r.run(50 * R, real, max_interactions=4)
        h = impl.hist(r)
        ctx.step(len(h) - 1)
        dirs = [ref.unit(ref.sub(b, a)) for a, b in zip(h, h[1:])] + [impl.tup(r.direction)]
        for k in range(1, len(h)):
            if abs(ref.dist(h[k], c) - R) > 1e-7 * R:
                break  # flew off
            n = ref.unit(ref.sub(h[k], c))
            i, o_ = dirs[k - 1], dirs[k]
            entering = ref.dot(i, n) < 0
            e1, e2 = (1.0, index) if entering else (index, 1.0)
            si, so = ref.norm(ref.cross(i, n)), ref.norm(ref.cross(o_, n))
            if abs(e1 / e2 * si - 1) < 1e-6:
                ctx.skip("critical angle")
                break
            if abs(ref.norm(o_) - 1) > 1e-9:
                return ctx.fail("direction of length %r" % ref.norm(o_))
            if abs(ref.dot(ref.cross(i, n), o_)) > 1e-7:
                return ctx.fail("left the plane of incidence at %s" % (h[k],))
            through = ref.dot(i, n) * ref.dot(o_, n) > 0
            if e1 / e2 * si > 1:
                if through or abs(so - si) > 1e-7:
                    return ctx.fail("beyond the critical angle at %s but not totally reflected: %s -> %s" % (h[k], i, o_))
            else:
                if not through or ref.dot(ref.cross(i, n), ref.cross(o_, n)) < -1e-7 or abs(e1 * si - e2 * so) > 1e-6 * max(e1, e2):
                    return ctx.fail("at %s: n1 sin t1 = %r, n2 sin t2 = %r, %s -> %s" % (h[k], e1 * si, e2 * so, i, o_))
            ctx.state(impl.key(si, so, e1, e2))
    ctx.trace()


def law(tier):
    """balls and solid spheres of every index and size, from outside (glancing to central) and inside"""
    for kind in ("ball", "solid"):
        for index in INDICES:
            for c in CENTRES[:2]:
                for R in (0.6, 8.0, 300.0):
                    rays = []
                    for i in range(-9, 10):
                        rays.append((ref.add(c, (0.1055 * i * R, -3.0 * R, 0.03 * R)), (0.0, 1.0, 0.0)))
                        rays.append((ref.add(c, (3.0 * R, 0.04 * R, 0.1055 * i * R)), (-1.0, 0.02, 0.01)))
                    for n in NORMALS[::4]:
                        for m in NORMALS[::5]:
                            rays.append((ref.along(c, 0.83 * R, ref.unit(n)), ref.add(m, (0.03, 0.05, -0.02))))
                    yield (kind, c, R, index, tuple(rays))


def weak(tier):
    """glass hardly denser or thinner than the surroundings: balls and solid spheres and rods met close to and far from the critical angle from the denser side, and all over from the other"""
    R, c = 8.0, (1.0, -2.0, 0.5)
    for index in (1.0003, 1.001, 1.004, 1.02, 1.05, 1.08, 0.9997, 0.999, 0.995, 0.98, 0.93):
        crit = min(index, 1 / index)
        sines = [0.05, 0.4, 0.8, 0.9] + [crit - e for e in (0.05, 0.01, 1e-3, 1e-4, 1e-5)] + [crit + e for e in (1e-5, 1e-4, 1e-3, 0.01, 0.05) if crit + e < 0.99999]
        sines += [crit + q * (1 - crit) for q in (0.1, 0.3, 0.7, 0.9, 0.97)]
        for kind in range(3):
            axis = (0.2, 0.1, 1.0)
            o = (("ball", c, 2 * R, index), ("solid", ("sphere", c, R), "refract", index), ("solid", ("cyl", c, axis, R), "refract", index))[kind]
            for m in NORMALS[::9] if tier == "quick" else NORMALS[::2]:
                n = ref.unit(m)
                if kind == 2:
                    n = ref.unit(ref.perp(n, ref.unit(axis)))
                t = W.frame(n, (0.31, 0.17, 0.93)) if kind < 2 else ref.cross(n, ref.unit(axis))
                rays = []
                for s in sines:
                    k = math.sqrt(1 - s * s)
                    x = ref.along(c, R, n)
                    rays.append((ref.along(x, -1.1 * R * k, ref.add(ref.mul(k, n), ref.mul(s, t))), ref.add(ref.mul(k, n), ref.mul(s, t))))       # from inside
                    rays.append((ref.along(x, -20.0, ref.add(ref.mul(-k, n), ref.mul(s, t))), ref.add(ref.mul(-k, n), ref.mul(s, t))))  # from outside
                yield ((o,), tuple(rays), 60.0, 0, 6)


def judge_verge(spec, ctx):
    """just before the critical angle light leaves almost along the surface, just beyond it stays inside: both in closed form"""
    kind, c, R, index, n, q = spec
    o = ("ball", c, 2 * R, index) if kind == "ball" else ("solid", ("sphere", c, R), "refract", index)
    n = ref.unit(n)
    t = W.frame(n, (0.31, 0.17, 0.93))
    dense = max(index, 1 / index)
    s = math.sqrt(1 - q) / dense  # the sine on the denser side: on the other one it is sqrt(1 - q)
    k = math.sqrt(1 - s * s)
    out = index > 1
    d = ref.add(ref.mul(k if out else -k, n), ref.mul(s, t))
    x = ref.along(c, R, n)
    r = impl.ray(ref.along(x, -0.9 * R * k, d), d)
    r.run(2 * R, [impl.build(o)], max_interactions=1)
    ctx.step()
    ctx.trace()
    h, got = impl.hist(r), impl.tup(r.direction)
    ctx.state(impl.key(got))
    if len(h) != 2 or ref.dist(h[1], x) > 1e-9 * R:
        return ctx.fail("%s: does not meet the surface at %s: %s" % (spec, x, impl.short(h)))
    if q > 0:
        w = math.sqrt(q)
        want = ref.add(ref.mul(w if out else -w, n), ref.mul(math.sqrt(1 - q), t))
    else:
        want = ref.add(ref.mul(-k if out else k, n), ref.mul(s, t))
    if not impl.finite(got) or ref.dist(got, want) > 1e-12 + 1e-13 * (1 + ref.norm(c) / R) / math.sqrt(abs(q)):
        ctx.fail("%s: leaves along %s instead of %s" % (spec, got, want))


def verge(tier):
    """balls and solid spheres of every index met within 1e-2 down to 1e-9 of the critical angle from the denser side, on either side of it"""
    for kind, index, R, q in product(("ball", "solid"), (1.0003, 1.33, 1.5, 1.9, 4.0, 0.95, 0.7), (0.6, 8.0, 300.0), [s * 10.0 ** -k for k in range(2, 10) for s in (1, -1, 3.3, -3.3)]):
        if math.sqrt(1 - q) >= max(index, 1 / index):
            continue
        for c in ((0.0, 0.0, 0.0), (1.0, -2.0, 0.5)):
            for n in NORMALS[::5] if tier == "quick" else NORMALS:
                yield (kind, c, R, index, n, q)


def cyls(tier):
    """glass rods and tubes of every axis"""
    for a in NORMALS:
        for index in (1.33, 1.6, 0.8) if tier == "quick" else INDICES:
            c = (2.0, -3.0, 1.0)
            rod = ("solid", ("cyl", c, a, 6.0), "refract", index)
            tube = ("solid", ("difference", ("cyl", c, a, 6.0), ("cyl", ref.add(c, (0.3, 0.2, 0.1)), a, 4.0)), "refract", index)
            rays = bundle(c, ref.add(W.frame(a), (0.13, 0.2, 0.17)), 6.5, (20.0,)) + \
                [(ref.add(c, (0.5, 0.4, 0.7)), ref.add(m, (0.03, 0.05, -0.02))) for m in NORMALS[::7]]
            for f in (0, 2):
                yield ((rod,), tuple(rays), 60.0, f)
            yield ((tube,), tuple(rays), 60.0, 0)


def csg():
    s = lambda x, y, z, R: ("sphere", (x, y, z), R)
    return [
        ("intersect", s(0, -12.0, 0, 17.0), s(0, 12.0, 0, 17.0)),
        ("difference", s(0, 0, 0, 9.0), s(0, -6.0, 0, 7.0)),
        ("difference", s(0, 0, 0, 9.0), s(1.0, 0.5, -0.3, 5.0)),
        ("union", s(-4.0, 0, 0, 7.0), s(5.0, 1.0, 0, 6.0)),
        ("union", s(0, -20.0, 0, 7.0), s(0, 13.0, 0, 6.0)),
        ("intersect", ("intersect", s(0, -12.0, 0, 17.0), s(0, 12.0, 0, 17.0)), ("cyl", (0, 0, 0), (0, 1, 0.1), 6.0)),
        ("difference", ("union", s(-4.0, 0, 0, 7.0), s(5.0, 1.0, 0, 6.0)), ("cyl", (0, 0, 0), (0.2, 1, 0.1), 3.0)),
        ("difference", s(0, 0, 0, 9.0), ("union", s(0, -6.0, 0, 5.0), s(0, 7.0, 1.0, 5.0))),
        ("union", ("difference", s(0, 0, 0, 9.0), s(0, 0.2, 0, 6.0)), s(0, 0.3, 0, 3.0)),
        ("intersect", ("cyl", (0, 0, 0), (1, 0, 0), 7.0), ("cyl", (0, 0, 0), (0, 0.1, 1), 7.0)),
    ]


def solids(tier):
    """lenses, menisci, shells, overlapping and separate unions, drilled and nested solids of several indices"""
    for tree in csg():
        for index in (1.2, 1.5, 2.4, 0.8):
            o = ("solid", tree, "refract", index)
            for n in NORMALS[::2]:
                rays = bundle((0.3, 0.2, -0.1), n, 8.0, (33.0,), 1, (1,)) + [((0.2, 0.1, 0.3), ref.add(n, (0.1, 0.2, 0.05))),
                                                                            ((0.3, 7.7, -0.2), ref.add(n, (0.1, 0.2, 0.05)))]
                yield ((o,), tuple(rays), 90.0, 0)


def thin(tier):
    """chords through glass down to 2e-5 long: lens rims, slivers of balls and rods, thin shells and thin gaps"""
    s = lambda y, R, x=0.0: ("sphere", (x, y, 0.0), R)
    for index in (1.5, 1.05, 0.8):
        lens = ("solid", ("intersect", s(-9.0, 10.0), s(9.0, 10.0)), "refract", index)
        rim = math.sqrt(19.0)
        moon = ("solid", ("difference", s(0.0, 10.0), s(-1.5, 10.0)), "refract", index)
        edge = math.sqrt(100.0 - 0.75 ** 2)
        eps = (1e-5, 1e-4, 1e-3, 1e-2, 0.1)
        rays, moons = [], []
        for e in eps:
            for a in range(0, 6):
                cx, cz = math.cos(a + 0.2), math.sin(a + 0.2)
                for d in ((0.0, 1.0, 0.0), (0.02 * cx, 1.0, 0.02 * cz), (0.0, -1.0, 0.0), (0.3 * cz, 1.0, -0.3 * cx)):
                    moons.append((ref.sub(((edge - e) * cx, -0.75, (edge - e) * cz), ref.mul(20.0, ref.unit(d))), d))
                    rays.append((ref.sub(((rim - e) * cx, 0.0, (rim - e) * cz), ref.mul(20.0, ref.unit(d))), d))
        yield ((lens,), tuple(rays), 50.0, 0, 8)
        yield ((moon,), tuple(moons), 60.0, 0, 8)
        for e in eps:
            for kind in range(6):
                R = 8.0
                if kind == 0:
                    o = (("ball", (0.0, 0.0, 0.0), 2 * R, index),)
                elif kind == 1:
                    o = (("solid", ("sphere", (0.0, 0.0, 0.0), R), "refract", index),)
                elif kind == 2:
                    o = (("solid", ("cyl", (0.0, 0.0, 0.0), (0, 0, 1), R), "refract", index),)
                elif kind == 3:   # a shell of thickness e
                    o = (("solid", ("difference", ("sphere", (0.0, 0.0, 0.0), R), ("sphere", (0.0, 0.0, 0.0), R - e)), "refract", index),)
                elif kind == 4:   # two balls with a gap of e between them
                    o = (("solid", ("union", ("sphere", (0.0, -R, 0.0), R), ("sphere", (0.0, R + e, 0.0), R)), "refract", index),)
                else:             # separate solids with a gap of e
                    o = (("solid", ("sphere", (0.0, -R, 0.0), R), "refract", index), ("solid", ("sphere", (0.0, R + e, 0.0), R), "refract", 1.7))
                rays = []
                for b in (0.02, 0.4, 0.9) if kind > 2 else (1 - e / R,):
                    for a in range(6):
                        rays.append(((b * R * math.cos(a), -30.0, 0.1 * b * R * math.sin(a) if kind > 2 else 0.0), (0.001 * a, 1.0, 0.003)))
                        rays.append(((b * R, -30.0, 0.2 * a), (0.0, 1.0, 0.0)))
                yield (o, tuple(rays), 80.0, 0, 8)


def company(tier):
    """a glass solid among other optics, in every listing order: mirrors around it, other solids inside and next to it"""
    glass = [("ball", (0.0, 0.0, 0.0), 16.0, 1.5), ("solid", ("sphere", (0.0, 0.0, 0.0), 8.0), "refract", 1.5),
             ("solid", ("difference", ("sphere", (0.0, 0.0, 0.0), 8.0), ("sphere", (0.0, 0.0, 0.0), 5.0)), "refract", 1.7)]
    others = [("flat", (0.0, 25.0, 0.0), W.tilt((0, -1, 0), 0.1, 0.2), 60.0), ("convex", (3.0, -18.0, 2.0), 12.0),
              ("ball", (2.0, 22.0, -3.0), 18.0, 1.8), ("solid", ("sphere", (-4.0, 20.0, 3.0), 9.0), "refract", 1.3),
              ("solid", ("sphere", (0.5, 0.5, 0.5), 3.0), "refract", 1.9), ("ball", (0.5, 0.5, 0.5), 6.0, 1.9),
              ("rect", (0.0, 0.5, 0.0), W.tilt((0, -1, 0), 0.3, 0.2), W.frame(W.tilt((0, -1, 0), 0.3, 0.2)), 4.0, 4.0),
              ("ideal", (0.0, -14.0, 0.0), (0, 1, 0.1), 40.0, 30.0), ("detector", (0.0, 40.0, 0.0), (0, -1, 0), (0, 0, 1), 9.0, 9.0),
              ("concave", (0.0, 60.0, 0.0), (0, -1, 0.05), 80.0, 60.0), ("convex", (0.0, 0.0, 0.0), 90.0)]
    rays = tuple(bundle((0.0, 0.0, 0.0), (0.1, 1, 0.2), 7.0, (29.0,), 1)) + (((0.2, 6.4, 0.3), (0.3, 0.2, 0.9)), ((0.1, 0.1, -0.2), (0.3, -1, 0.2)))
    for g in glass:
        for a in others:
            for scene in ((g, a), (a, g)):
                yield (scene, rays, 260.0, 0, 40)
        for a, b in product(others, others):
            if a != b:
                yield ((a, g, b), rays[::3], 200.0, 0, 25)


def shift(t, o):
    if t[0] in impl.OPS:
        return (t[0], shift(t[1], o), shift(t[2], o))
    return (t[0], ref.add(t[1], o)) + t[2:]


def far(tier):
    """glass metres away from the origin, met anywhere up to a thousandth of a radian from grazing, and every solid there"""
    for o in ((1e3, -2e3, 500.0), (-3e4, 1e4, 7e3)):
        for tree in csg():
            for index in (1.5, 0.8):
                for n in NORMALS[::6]:
                    rays = bundle(ref.add(o, (0.3, 0.2, -0.1)), n, 8.0, (33.0,), 1, (1,)) + \
                        [(ref.add(o, (0.2, 0.1, 0.3)), ref.add(n, (0.1, 0.2, 0.05)))]
                    yield ((("solid", shift(tree, o), "refract", index),), tuple(rays), 90.0, 0)
        for g in (("ball", o, 16.0, 1.5), ("solid", ("sphere", o, 8.0), "refract", 1.5), ("solid", ("cyl", o, (0.1, 0.2, 1), 8.0), "refract", 1.5),
                  ("solid", ("cyl", o, (0.1, 0.2, 1), 8.0), "refract", 0.7)):
            a = ref.unit((0.1, 0.2, 1))
            u = W.frame(a)
            v = ref.cross(a, u)
            rays = []
            for k, slope in enumerate((0.5, 0.1, 0.02, 5e-3, 1e-3)):
                n = ref.add(ref.mul(math.cos(k), u), ref.mul(math.sin(k), v))
                x = ref.add(o, ref.mul(8.0, n))
                d = ref.unit(ref.add(ref.cross(a, n), ref.mul(-slope, n)))
                rays.append((ref.along(x, -20.0, d), d))
                rays.append((ref.along(x, 8.0 * slope, ref.unit(ref.add(ref.cross(a, n), ref.mul(-slope, n)))), ref.add(d, ref.mul(0.1, a))))
            yield ((g,), tuple(rays), 100.0, 0, 30)


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), j, note=(f.__doc__ or "").strip())
            for f, j in ((law, judge_law), (weak, judge), (verge, judge_verge), (cyls, judge), (solids, judge), (thin, judge), (far, judge), (company, judge))] + contexts.spaces(("ball", "glassball", "lens", "bitten", "tube"))
