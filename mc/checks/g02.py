import math

from Shapes import shapes as SH

from mc import impl, ref, worlds as W
from mc.checks.o01 import NORMALS, CENTRES
from mc.core import Space, product

PROPERTY = "G02"
RULE = ("every plane, disc and rectangle of the alphabet x every ray aimed at a grid of points in and around it from both sides, plus "
        "rays parallel to it, behind it and on it; hit, point and normal are compared with the exact answer")


def make(s, form):
    k, c, n = s[0], impl.arr(s[1], form), impl.vec(s[2], form)
    if k == "plane":
        return SH.Plane(c, n)
    if k == "disc":
        return SH.Circle(c, normal=n, D=2 * s[3]) if form % 2 else SH.Circle(c, normal=n, R=s[3])
    return SH.Rectangle(c, n, impl.vec(s[3], form), h=s[4], w=s[5])


def judge(spec, ctx):
    s, rays, form = spec
    shape = make(s, form)
    n = ref.unit(s[2])
    for p, d in rays:
        ctx.step()
        u = ref.unit(d)
        pf = tuple(map(float, p))
        if s[0] == "plane":
            t, m = ref.plane_t(pf, u, s[1], n)
        elif s[0] == "disc":
            t, m = ref.disc_t(pf, u, s[1], n, s[3])
        else:
            t, m = ref.rect_t(pf, u, s[1], n, s[3], s[4], s[5])
        scale = max([max(map(abs, pf)), max(map(abs, s[1]))] + [x for x in s[3:] if not isinstance(x, tuple)])
        if m < (ref.EPS if scale < 1e3 else 1e-9 * scale):
            ctx.skip("on the outline, nearly parallel, or starting next to the plane")
            continue
        hit, x, normal = shape.test_intersect(impl.ray(p, d, form=form))
        ctx.trace()
        what = "%s ray %s -> %s: " % (s, p, d)
        ctx.state(impl.key(bool(hit), None if x is None else impl.tup(x)))
        if bool(hit) != (t is not None):
            return ctx.fail(what + "hit=%s, expected %s" % (hit, "a hit at distance %s" % t if t is not None else "a miss"))
        if t is not None:
            size = max(t, max(map(abs, pf)), max(map(abs, s[1])))
            cosine = max(abs(ref.dot(u, n)), 1e-9)
            if ref.dist(impl.tup(x), ref.along(pf, t, u)) > 1e-11 * size / cosine:
                return ctx.fail(what + "point %s instead of %s" % (x, ref.along(pf, t, u)))
            if ref.dist(impl.tup(normal), n) > 1e-12:
                return ctx.fail(what + "normal %s instead of %s" % (normal, n))


def aimed(c, n, t, v, us, vs, dist=23.0):
    for i, a in enumerate(us):
        for j, b in enumerate(vs):
            target = ref.add(c, ref.add(ref.mul(a, t), ref.mul(b, v)))
            for side in (1, -1):
                q, w = 0.7 * math.sin(1.3 * i + 2.1 * j), 0.8 * math.cos(2.2 * i - j + side)
                d = ref.unit(ref.add(ref.mul(-side, n), ref.add(ref.mul(q, t), ref.mul(w, v))))
                start = ref.along(target, -dist, d)
                yield (start, d)
                if (i + j) % 5 == 0:
                    yield (start, ref.mul(-1, d))          # pointing away
                    yield (ref.along(target, 0.5, d), d)   # already past it
                    yield (start, ref.add(ref.mul(a + 1.0, t), v))  # parallel to the plane


def grid(*xs):
    out = []
    for x in xs:
        out += [x, -x]
    return out


def outlines(tier):
    """every orientation, place, size and number form; grid points just inside and just outside of every edge and corner"""
    for ni, n in enumerate(NORMALS):
        nn = ref.unit(n)
        for ci, c in enumerate(CENTRES):
            if tier == "quick" and (ni + ci) % 2:
                continue
            form = (0, 2, 3)[(ni + ci) % 3]
            for hint in ((0.31, 0.17, 0.93), (-0.6, 0.8, 0.02)):
                t = W.frame(nn, hint)
                v = ref.cross(nn, t)
                for h, w in ((8.0, 30.0), (22.0, 5.0), (100.0, 100.0)):
                    rays = tuple(aimed(c, nn, t, v, grid(0.001 * h, 0.3 * h, 0.499 * h, 0.501 * h, 0.9 * h), grid(0.003 * w, 0.4 * w, 0.499 * w, 0.501 * w, 2 * w)))
                    yield (("rect", c, n, t, h, w), rays, form)
            t = W.frame(nn)
            v = ref.cross(nn, t)
            for R in (0.7, 13.0, 800.0):
                rays = []
                for k in range(16):
                    a = 0.2 + k * math.pi / 8
                    for q in (0.01, 0.6, 0.999, 1.001, 1.3, 1.42, 5.0):
                        rays += list(aimed(c, nn, t, v, (q * R * math.cos(a),), (q * R * math.sin(a),)))[:2]
                yield (("disc", c, n, R), tuple(rays), form)
            yield (("plane", c, n), tuple(aimed(c, nn, t, v, grid(0.2, 30.0, 4000.0), grid(0.1, 77.0))), form)


def distances(tier):
    """starts from very near to very far, and very oblique rays"""
    n = (0.3, -0.9, 0.2)
    nn = ref.unit(n)
    t = W.frame(nn)
    v = ref.cross(nn, t)
    c = (5.0, -3.0, 2.0)
    for s in (("plane", c, n), ("disc", c, n, 10.0), ("rect", c, n, t, 12.0, 20.0)):
        for slope in (1e-5, 1e-3, 0.1, 1.0, 50.0):
            rays = []
            for a, b in product((-5.5, -0.3, 4.1, 6.5), (-9.1, 0.2, 8.8, 10.4)):
                for dist in (1e-3, 0.3, 20.0, 5e3, 1e5):
                    if slope < 1e-2 and dist > 30:
                        continue
                    for side in (1, -1):
                        d = ref.unit(ref.add(ref.mul(side * slope, nn), ref.add(ref.mul(0.8, t), ref.mul(-0.6, v))))
                        rays.append((ref.along(ref.add(c, ref.add(ref.mul(a, t), ref.mul(b, v))), -dist, d), d))
            yield (s, tuple(rays), 0)
    # starts within microns of the surface, on either side
    for s in (("plane", c, n), ("disc", c, n, 10.0), ("rect", c, n, t, 12.0, 20.0)):
        rays = []
        for a, b in product((-5.5, -0.3, 4.1, 6.5), (-9.1, 0.2, 8.8, 10.4)):
            x = ref.add(c, ref.add(ref.mul(a, t), ref.mul(b, v)))
            for gap in (5e-6, 2e-5, 1e-4, 1e-3, 1e-2):
                for q in (0.0, 0.9, -3.0):
                    for side in (1, -1):
                        for aim in (1, -1):
                            rays.append((ref.along(x, side * gap, nn), ref.add(ref.mul(aim, nn), ref.mul(q, t))))
        for k in range(0, len(rays), 60):
            yield (s, tuple(rays[k:k + 60]), 0)


def lattice(tier):
    """integer planes, discs and rectangles, lattice rays, integer arrays"""
    D = [d for d in product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)) if d != (0, 0, 0)]
    for n, t in (((0, 0, 1), (1, 0, 0)), ((0, -1, 0), (0, 0, 1)), ((1, 0, 0), (0, 1, 0)), ((1, 1, 0), (0, 0, -1)), ((2, -1, 2), (1, 2, 0))):
        for s in (("plane", (1, 0, -1), n), ("disc", (1, 0, -1), n, 4), ("rect", (1, 0, -1), n, t, 7, 3), ("rect", (1, 0, -1), n, t, 3, 9)):
            for form in (0, 1, 2):
                rays = [(p, d) for p in product((-5, -2, 1, 3), (-4, 0, 2, 5), (-6, -1, 0, 4)) for d in D[::2]]
                yield (s, tuple(rays), form)


def sizes(tier):
    """outlines from microns to a kilometre and up to 100 km from the origin; rays within a millionth of the rim and of every edge and corner"""
    for k, size in enumerate((4e-3, 0.05, 1.0, 60.0, 250.0, 3000.7, 1e6)):
        for off in (0.0, 3.0, -80.0):
            n = NORMALS[(3 * k + int(off)) % len(NORMALS)]
            nn = ref.unit(n)
            c = tuple(off * size * x for x in (0.37, -0.81, 0.55))
            t = W.frame(nn, (0.31, 0.17, 0.93) if k % 2 else (-0.6, 0.8, 0.02))
            v = ref.cross(nn, t)
            e = max(1e-6, 3e-6 / size)
            qs = (0.1, 0.8, 1 - 30 * e, 1 - e, 1 + e, 1 + 30 * e, 1.2)
            rays = []
            for a in range(12):
                f = 0.1 + a * math.pi / 6
                for q in qs:
                    rays += list(aimed(c, nn, t, v, (q * size * math.cos(f),), (q * size * math.sin(f),), dist=(0.4, 2.0, 30.0)[a % 3] * size))[:2]
            yield (("disc", c, n, size), tuple(rays), 0)
            for h, w in ((2.0, 0.6), (0.7, 3.0), (0.02, 3.0), (3.5, 0.01)):
                rays = list(aimed(c, nn, t, v, grid(*(q * h * size / 2 for q in qs)), grid(*(q * w * size / 2 for q in qs)), dist=(0.4, 2.0, 30.0)[k % 3] * size))
                for i in range(0, len(rays), 200):
                    yield (("rect", c, n, t, h * size, w * size), tuple(rays[i:i + 200]), 0)
            yield (("plane", c, n), tuple(aimed(c, nn, t, v, grid(0.2 * size, 50 * size), grid(0.1 * size, 7 * size), dist=3 * size)), 0)


def straight(tier):
    """incidence exactly along the normal of every orientation, from both faces, all over, at the rim and just beside it"""
    for n in NORMALS:
        nn = ref.unit(n)
        for c in CENTRES:
            t = W.frame(nn, (0.31, 0.17, 0.93))
            v = ref.cross(nn, t)
            for s, R in ((("disc", c, n, 6.5), 6.5), (("rect", c, n, t, 13.0, 5.0), 6.5), (("plane", c, n), 300.0)):
                rays = []
                for k in range(12):
                    a = 0.1 + k * math.pi / 6
                    for q in (0.0, 0.3, 0.7, 0.9, 0.97, 0.995, 0.9999, 1.0001, 1.005, 1.03, 1.1, 1.4, 3.0):
                        x = ref.add(c, ref.add(ref.mul(q * R * math.cos(a), t), ref.mul(q * R * math.sin(a), v)))
                        for side in (1, -1):
                            rays.append((ref.along(x, side * 9.0, nn), ref.mul(-side, nn)))
                            rays.append((ref.along(x, side * 9.0, nn), ref.mul(-side, n)))
                yield (s, tuple(rays), 0)


def edges(tier):
    """zero-sized and thin rectangles and discs still miss everything beside them"""
    for n, t in (((0, 0, 1), (1, 0, 0)), ((0.3, -0.9, 0.2), W.frame((0.3, -0.9, 0.2)))):
        nn = ref.unit(n)
        u = ref.unit(t)
        v = ref.cross(nn, u)
        for h, w in ((0.0, 5.0), (5.0, 0.0), (1e-3, 10.0), (10.0, 1e-3)):
            rays = []
            for a, b in product((-6.0, -2.0, -1e-4, 1e-4, 0.3, 2.0, 6.0), (-7.0, -1.0, -1e-4, 1e-4, 0.2, 3.0, 7.0)):
                rays += list(aimed((1.0, 2.0, 3.0), nn, u, v, (a,), (b,)))[:2]
            yield (("rect", (1.0, 2.0, 3.0), n, t, h, w), tuple(rays), 0)


def judge_rim(spec, ctx):
    """an outline around the origin along the axes, met at right angles: where it ends is exact to rounding"""
    axis, R, h, w = spec
    n, t = (tuple(float(k == axis) for k in range(3)), tuple(float(k == (axis + 1) % 3) for k in range(3)))
    v = ref.cross(n, t)
    o = (0.0, 0.0, 0.0)
    disc, rect = make(("disc", o, n, R), 0), make(("rect", o, n, t, h, w), 0)
    for e in (1e-11, 1e-9, 3e-8, 6e-7):
        for q in (1 - e, 1 + e):
            for side in (1, -1):
                away = ref.mul(side * 5.0, n)
                for k in range(8):
                    a = k * math.pi / 4
                    x = ref.add(ref.mul(q * R * math.cos(a), t), ref.mul(q * R * math.sin(a), v))
                    ctx.step()
                    if bool(disc.test_intersect(impl.ray(ref.add(x, away), ref.mul(-side, n)))[0]) != (q < 1):
                        return ctx.fail("a disc of radius %r is %s at %r of its radius" % (R, "missed" if q < 1 else "hit", q))
                for a, b in ((q, 0.2), (-q, -0.9), (0.3, q), (-0.7, -q), (q, q), (-q, q)):
                    x = ref.add(ref.mul(a * h / 2, t), ref.mul(b * w / 2, v))
                    ctx.step()
                    if bool(rect.test_intersect(impl.ray(ref.add(x, away), ref.mul(-side, n)))[0]) != (q < 1):
                        return ctx.fail("a rectangle %r by %r is %s at %r, %r of its half sizes" % (h, w, "missed" if q < 1 else "hit", a, b))
    ctx.trace()
    ctx.state(spec)


def rims(tier):
    """discs and rectangles of sizes from a hundredth of a millimetre to a hundred metres, rays from a hundred-billionth to a millionth of the size inside and outside of the rim"""
    for axis in range(3):
        for k, R in enumerate((0.0123, 0.1, 1 / 3, 1.0, 2.54, 12.7, 33.3, 100.1, 987.654, 12345.6789, 99999.9)):
            for q in (0.7, 1.0, 3.1):
                yield (axis, R, 2.1 * R * q, 1.7 * R / q)


def judge_slant(spec, ctx):
    """rays ever closer to parallel to the surface: the point and the distance, exact by construction"""
    s, t, v, starts, form = spec
    shape = make(s, form)
    n = ref.unit(s[2])
    for target, cosine, a, L in starts:
        # the direction's own part along the normal, as a double, decides where the plane is
        g = ref.add(ref.mul(math.cos(a), t), ref.mul(math.sin(a), v))
        d = ref.add(g, ref.mul(-cosine, n))
        u = ref.unit(d)
        p = ref.along(target, -L, u)
        top, under = ref.dot(ref.sub(s[1], p), n), ref.dot(u, n)
        for back in (1, -1):
            hit, x, normal = shape.test_intersect(impl.ray(p, ref.mul(back, d), form=form))
            ctx.step()
            ctx.trace()
            ctx.state(impl.key(bool(hit), cosine, L))
            what = "%s: ray %s -> %s: " % (s, p, ref.mul(back, d))
            if bool(hit) != (back == 1):
                return ctx.fail(what + "hit=%s" % bool(hit))
            if back == 1:
                size = L + max(map(abs, p)) + max(map(abs, s[1]))
                if ref.dist(impl.tup(x), ref.along(p, top / under, u)) > 4e-15 * size / abs(cosine):
                    return ctx.fail(what + "met at %s, not %s" % (x, ref.along(p, top / under, u)))
                if ref.dist(impl.tup(normal), n) > 1e-12:
                    return ctx.fail(what + "normal %s instead of %s" % (normal, n))


def slants(tier):
    """incidence down to 2e-8 from parallel, from both sides, on planes and on the middle of discs and rectangles"""
    for ni, n in enumerate(NORMALS):
        nn = ref.unit(n)
        for ci, c in enumerate(CENTRES):
            if tier == "quick" and (ni + ci) % 3:
                continue
            t = W.frame(nn, (0.31, 0.17, 0.93))
            v = ref.cross(nn, t)
            for s in (("plane", c, n), ("disc", c, n, 60.0), ("rect", c, n, t, 90.0, 110.0)):
                rays = []
                for k, cosine in enumerate((2e-8, 5e-8, 1e-7, 4e-7, 2e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.2)):
                    for side in (1, -1):
                        for L in (1.0, 30.0, 400.0):
                            if L * cosine > 1e-6:
                                rays.append((ref.add(c, ref.add(ref.mul(3.0 * math.cos(k), t), ref.mul(4.0 * math.sin(k + ci), v))), side * cosine, 0.4 + k + 2.2 * side, L))
                yield (s, t, v, tuple(rays), (0, 2, 3)[ni % 3])


def spaces(tier):
    return [Space("rims", lambda: rims(tier), judge_rim, note=rims.__doc__), Space("slants", lambda: slants(tier), judge_slant, note=slants.__doc__)] + [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip()) for f in (lattice, straight, edges, sizes, distances, outlines)]
