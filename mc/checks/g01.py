import math

from mc import impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "G01"
RULE = ("every shape of the alphabet x every ray of a lattice or bundle: the set of reported points, their normals and the count are "
        "compared with the exact intersections; grazing touches are decided in exact integer arithmetic")
ASSUMPTIONS = ["rays passing within 1e-6 of grazing, or starting within 1e-6 of (but not on) the surface, are abstained from unless "
               "exact arithmetic decides them"]
TOL = 1e-12
DIRS = [d for d in product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)) if d != (0, 0, 0)]


def expected(prim, p, d):
    """list of parameters ahead, is it a grazing touch?, margin"""
    span, m = ref.prim_span(p, d, prim)
    if span is None:
        return [], m
    if span[0] == -ref.INF:
        return [], m
    m = min([m] + [ref.t_margin(t) for t in span])
    return [t for t in span if t > ref.FLOOR], m


def exact_touch(prim, p, d):
    """for axis-parallel integer configurations: parameter of an exact grazing touch, or None"""
    k = [i for i in range(3) if d[i]]
    if len(k) != 1 or not all(float(x).is_integer() for x in tuple(p) + tuple(prim[1])):
        return None
    q = [p[i] - prim[1][i] for i in range(3)]
    q[k[0]] = 0
    if prim[0] == "sphere":
        R = prim[2]
    else:
        a = [i for i in range(3) if prim[2][i]]
        if len(a) != 1 or a == k:
            return None
        q[a[0]] = 0
        R = prim[3]
    if sum(x * x for x in q) != R * R:
        return None
    return (prim[1][k[0]] - p[k[0]]) * (1 if d[k[0]] > 0 else -1)


def judge(spec, ctx):
    prim, rays, form = spec
    shape = impl.prim(prim, form)
    for p, d in rays:
        ctx.step()
        u = ref.unit(d)
        touch = exact_touch(prim, p, d)
        if touch is not None:
            if touch == 0:
                continue  # starts at the point of contact
            want, graze = ([float(touch)] if touch > 0 else []), True
        else:
            want, m = expected(prim, tuple(map(float, p)), u)
            graze = False
            if m < ref.EPS:
                ctx.skip("grazing or starting too close to the surface")
                continue
        ray = impl.ray(p, d, form=form)
        hit, p1, p2, n1, n2, count = shape.test_intersect(ray)
        what = "%s, ray %s -> %s: " % (prim, p, d)
        got = [(impl.tup(x), None if n is None else impl.tup(n)) for x, n in ((p1, n1), (p2, n2)) if x is not None]
        ctx.trace()
        ctx.state(impl.key(bool(hit), count, [g[0] for g in got]))
        if bool(hit) != bool(want):
            return ctx.fail(what + "reported hit=%s, expected points at %s" % (hit, want))
        if not want and got:
            return ctx.fail(what + "a miss with points %s" % (got,))
        if len(got) != len(want):
            return ctx.fail(what + "%d points reported (%s), expected %d at distances %s" % (len(got), got, len(want), want))
        if (len(want) % 2 if not graze else 0) != count % 2:
            return ctx.fail(what + "crossing count %s, expected %d crossings%s" % (count, len(want), " (grazing)" if graze else ""))
        # rounding: relative to the coordinates, amplified where the ray is close to grazing
        R = prim[-1]
        size = max(map(abs, tuple(p) + tuple(prim[1]) + (R,))) + ref.dist(p, prim[1])
        sine = 1.0
        if prim[0] == "cyl":
            sine = ref.norm(ref.perp(u, ref.unit(prim[2]))) or 1.0
        got.sort(key=lambda g: ref.dot(ref.sub(g[0], p), u))
        for t, (x, n) in zip(want, got):
            y = ref.along(p, t, u)
            true = ref.prim_normal(y, prim)
            cosine = max(abs(ref.dot(true, u)), 1e-5)
            tol = TOL * max(size, size * size / R) / (cosine * sine)
            if ref.dist(x, y) > tol * max(1.0, size / (R * sine)) + TOL * abs(t):
                return ctx.fail(what + "point %s instead of %s" % (x, y))
            if n is None or ref.dist(n, true) > 2 * tol / R + TOL * (1 + abs(t)) / R + TOL:
                return ctx.fail(what + "normal %s instead of %s" % (n, true))


def chunks(rays, n=60):
    for i in range(0, len(rays), n):
        yield tuple(rays[i:i + n])


def lattice_spheres(tier):
    """integer spheres, every lattice start around and inside, the 26 lattice directions: includes exact grazing touches, starts on the surface and at the centre"""
    N = 6 if tier == "quick" else 9
    for R in (5, 2, 3):
        for c in ((0, 0, 0), (1, -2, 3)):
            if tier == "quick" and c[0] and R != 5:
                continue
            pts = product(range(-N, N + 1, 1 if tier == "thorough" else (R + 1) // 2 if R != 5 else 1), range(-N, N + 1), (-5, -4, -3, 0, 2, 5))
            rays = [(tuple(a + b for a, b in zip(p, c)), d) for i, p in enumerate(pts) for d in DIRS if tier == "thorough" or (i + DIRS.index(d)) % 3 == 0]
            for part in chunks(rays):
                yield (("sphere", c, R), part, 0)


def lattice_cylinders(tier):
    """integer cylinders of all axis-parallel axes, both senses"""
    for axis in ((0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)):
        for R in (4, 2):
            c = (1, 0, -2) if R == 2 else (0, 0, 0)
            pts = list(product(range(-6, 7, 2), range(-6, 7, 2), (-4, -2, 0, 1, 4)))
            rays = [(tuple(a + b for a, b in zip(p, c)), d) for i, p in enumerate(pts) for d in DIRS if tier == "thorough" or (i + DIRS.index(d)) % 4 == 0]
            for part in chunks(rays):
                yield (("cyl", c, axis, R), part, 0)


def lattice_forms(tier):
    """the same with integer arrays, diameters instead of radii, and scaled directions"""
    for prim in (("sphere", (1, -2, 3), 5), ("cyl", (1, 0, -2), (0, 0, 1), 4), ("cyl", (1, 0, -2), (0, 3, 0), 4), ("cyl", (1, 0, -2), (1, 2, -2), 3)):
        for form in (1, 2, 3):
            rays = [(p, d) for p in product((-9, -2, 1, 5), (-6, 0, 3), (-5, 2, 8)) for d in DIRS[::2] + [(2, -3, 1), (-1, 4, 2)]]
            for part in chunks(rays):
                yield (prim, part, form)


AXES = [(0, 0, 1), (0, 0, -1), (1, 2, 2), (-3, 1, 0.5), (1e-3, 0, 1), (1e-7, 0, -1), (math.sin(math.pi), 0, math.cos(math.pi)),
        (0.0, 1e-9, -1.0), (1e-16, 1e-16, -1.0), (0.6, 0, -0.8), (0.1, -1, 0.05)]


def bundles(tier):
    """general spheres and cylinders of all sizes: rays at relative impact parameters from 0 to 2, from outside, inside and past them"""
    for R in (0.01, 1.7, 60.0, 4000.0):
        for c in ((0.0, 0.0, 0.0), (13.0 * R, -7.0 * R, 3.0 * R)):
            prims = [("sphere", c, R)] + [("cyl", c, a, R) for a in AXES]
            for prim in prims:
                rays = []
                for k, v in enumerate(DIRS[::2] + [(0.3, -0.8, 0.1), (-0.2, 0.1, 0.97)]):
                    v = ref.unit(ref.add(v, (0.07, -0.05, 0.03)))
                    t = W.frame(v)
                    w = ref.cross(v, t)
                    for b in (0.0, 0.3, 0.93, 0.999, 0.99998, 0.999999, 1.000001, 1.00002, 1.001, 1.4, 2.0):
                        off = ref.add(ref.mul(b * R * math.cos(k), t), ref.mul(b * R * math.sin(k), w))
                        if prim[0] == "cyl":  # passing the axis at b R
                            off = ref.mul(b * R * (-1) ** k, ref.unit(ref.cross(prim[2], v)))
                        for s in (-9.0, -2.1, -0.4, 0.2, 2.2) if b < 1 else (-9.0, 0.2):
                            rays.append((ref.add(c, ref.add(off, ref.mul(s * R, v))), v))
                for part in chunks(rays, 120):
                    yield (prim, part, 0)


def middles(tier):
    """rays that start at or very near the centre or axis, or far out on the axis, of shapes of all sizes"""
    for R in (2e-3, 0.7, 12.34, 500.0, 1234.5678, 1.2e5):
        for c in ((0.0, 0.0, 0.0), (1.3 * R, -0.7 * R, 0.3 * R), (70.1 * R, 20.3 * R, -33.7 * R)):
            for prim in [("sphere", c, R)] + [("cyl", c, a, R) for a in AXES[::2] + [(0, 1, 0), (-1.0, 0, 0)]]:
                rays = []
                for k, v in enumerate(DIRS[::3] + [(0.3, -0.8, 0.1), (-0.2, 0.1, 0.97)]):
                    w = ref.unit(ref.add(v, (0.07, -0.05, 0.03)))
                    for q in (0.0, 1e-8, 1e-6, 7e-5, 4e-4, 2e-3, 0.011):
                        p = ref.along(c, q * R, W.frame(w) if k % 2 else w)
                        rays.append((p, w))
                        if prim[0] == "cyl" and k % 3 == 0:
                            for far in (-3.0, 40.0, 900.0):
                                rays.append((ref.along(p, far * R, ref.unit(prim[2])), w))
                for part in chunks(rays, 120):
                    yield (prim, part, 0)


def parallels(tier):
    """rays exactly and nearly parallel to a cylinder's axis, inside and outside"""
    for a in AXES + DIRS:
        for R in (0.5, 4.0, 30.0):
            c = (1.0, -2.0, 0.5)
            u = ref.unit(a)
            t = W.frame(u)
            rays = []
            for b in (0.0, 0.4, 0.9, 1.1, 3.0):
                for s in (-50.0, 0.0, 50.0):
                    for sign in (1, -1):
                        p = ref.add(c, ref.add(ref.mul(b * R, t), ref.mul(s, u)))
                        rays.append((p, ref.mul(sign, a)))
                        rays.append((p, ref.add(ref.mul(sign, u), ref.mul(0.01, ref.cross(u, t)))))
                        for slope in (-0.003, 4e-4, -6e-5, 9e-6):
                            rays.append((p, ref.add(ref.mul(sign, u), ref.mul(slope, t))))
            yield (("cyl", c, a, R), tuple(rays), 0)


def surfaces(tier):
    """rays starting on the surface, in every direction: the start itself is not reported"""
    for prim, pts in ((("sphere", (0, 0, 0), 5), [(3, 4, 0), (0, -3, 4), (-5, 0, 0), (4, 0, -3), (0, 0, 5)]),
                      (("sphere", (10, -20, 30), 13), [(10 + 5, -20 + 12, 30), (10, -20 - 13, 30), (10 + 3, -20 + 4, 30 - 12)]),
                      (("cyl", (0, 0, 0), (0, 0, 1), 5), [(3, 4, 7), (-5, 0, -2), (4, -3, 0)]),
                      (("cyl", (0, 0, 0), (0, -1, 0), 5), [(3, 7, 4), (-5, 1, 0), (4, -2, -3)])):
        for p in pts:
            yield (prim, tuple((p, d) for d in DIRS + [(0.3, 0.8, -0.1), (-0.4, 0.2, 0.7), (2, -1, 1)]), 0)
    for R in (0.37, 7.0, 900.0, 1e4):
        for c in ((0.0, 0.0, 0.0), (3.0 * R, -2.0 * R, R)):
            for v in DIRS[::3] + [(0.3, -0.8, 0.1), (-0.21, 0.15, 0.97)]:
                p = ref.along(c, R, ref.unit(v))
                yield (("sphere", c, R), tuple((p, d) for d in DIRS + [(0.3, 0.8, -0.1)] if abs(ref.dot(ref.unit(d), ref.unit(v))) > 0.05), 0)


def judge_chord(spec, ctx):
    """rays cutting off chords of stated lengths, at the condition of the problem: both ends are reported apart"""
    prim, a, t, chord, steep, form = spec
    R, c = float(prim[-1]), prim[1]
    # a: direction from centre to the middle of the chord, t: along the chord (perpendicular to a)
    h = chord * R / 2
    mid = ref.along(c, math.sqrt(R * R - h * h), a)
    if prim[0] == "cyl":
        axis = ref.unit(prim[2])
        u = ref.unit(ref.add(t, ref.mul(steep, axis)))
        h *= math.sqrt(1 + steep * steep)
    else:
        u = t
    shape = impl.prim(prim, form)
    for s in (-1.9 * R, -40.0 * R, -700.0 * R, -2.5 * h, 0.0, 0.9 * R, 3 * h):
        size = abs(s) + R + ref.norm(c)
        slack = 3e-15 * size * size / h + 1e-12 * size
        if slack > 0.02 * h:
            ctx.skip("the chord is below the resolution from that far away")
            continue
        p = ref.along(mid, s, u)
        ctx.step()
        hit, p1, p2, n1, n2, count = shape.test_intersect(impl.ray(p, u, form=form))
        want = [x for x in (-h, h) if x > s]
        got = [(impl.tup(x), impl.tup(n)) for x, n in ((p1, n1), (p2, n2)) if x is not None]
        ctx.trace()
        ctx.state(impl.key(bool(hit), count, [g[0] for g in got]))
        what = "%s, ray %s -> %s: " % (prim, p, u)
        if bool(hit) != bool(want) or len(got) != len(want) or count % 2 != len(want) % 2:
            return ctx.fail(what + "points %s, count %s for a chord with ends at %s" % (got, count, [x - s for x in want]))
        got.sort(key=lambda g: ref.dot(ref.sub(g[0], p), u))
        for x, (q, n) in zip(want, got):
            y = ref.along(mid, x, u)
            if ref.dist(q, y) > 3 * slack:
                return ctx.fail(what + "point %s instead of %s on a chord of %s" % (q, y, 2 * h))
            true = ref.prim_normal(y, prim)
            if ref.dist(n, true) > 6 * slack / R + 1e-9:
                return ctx.fail(what + "normal %s instead of %s" % (n, true))


def chords(tier):
    """chords from a tenth down to a ten-thousandth of the radius, of spheres and cylinders of all sizes, from near and far, from between and behind the ends"""
    for R in (0.7, 12.34, 500.0, 3e4):
        for c in ((0.0, 0.0, 0.0), (1.3 * R, -0.7 * R, 0.3 * R)):
            for prim in [("sphere", c, R)] + [("cyl", c, a, R) for a in AXES[::2] + [(0, 1, 0), (-1.0, 0, 0)]]:
                for k, v in enumerate(DIRS[::3] + [(0.3, -0.8, 0.1), (-0.2, 0.1, 0.97)]):
                    v = ref.add(v, (0.07, -0.05, 0.03))
                    if prim[0] == "cyl":
                        a = ref.unit(ref.perp(v, ref.unit(prim[2])))
                        t = ref.unit(ref.cross(ref.unit(prim[2]), a))
                    else:
                        a = ref.unit(v)
                        t = W.frame(a)
                    for chord in (0.3, 0.1, 0.03, 0.01, 3e-3, 1e-3, 3e-4, 1e-4):
                        for sign in (1, -1):
                            for steep in (0.0, 0.6) if prim[0] == "cyl" else (0.0,):
                                yield (prim, a, ref.mul(sign, t), chord, steep, 0)


def judge_shallow(spec, ctx):
    """from inside a cylinder, all but along its axis: the wall is met where the slope says, far away"""
    k, flip, R, b, slope = spec
    axis = [0.0, 0.0, 0.0]
    axis[k] = flip
    d = [0.0, 0.0, 0.0]
    d[k] = 1.0
    d[(k + 1) % 3] = slope
    p = [0.0, 0.0, 0.0]
    p[(k + 1) % 3] = b * R
    hit, p1, p2, n1, n2, count = impl.prim(("cyl", (0.0, 0.0, 0.0), tuple(axis), R), 0).test_intersect(impl.ray(tuple(p), tuple(d)))
    ctx.step()
    ctx.trace()
    got = [(impl.tup(x), impl.tup(n)) for x, n in ((p1, n1), (p2, n2)) if x is not None]
    ctx.state(impl.key(bool(hit), count, [g[0] for g in got]))
    if not hit or len(got) != 1 or count % 2 != 1:
        return ctx.fail("%s: reported %s, count %s from inside" % (spec, got, count))
    want = [0.0, 0.0, 0.0]
    want[(k + 1) % 3] = math.copysign(R, slope)
    want[k] = (want[(k + 1) % 3] - b * R) / slope
    if ref.dist(got[0][0], want) > 1e-5 * abs(want[k]):
        return ctx.fail("%s: met at %s instead of %s" % (spec, got[0][0], want))
    if abs(got[0][0][(k + 1) % 3] - want[(k + 1) % 3]) > 1e-5 * R:
        return ctx.fail("%s: the point %s is off the wall" % (spec, got[0][0]))


def shallows(tier):
    """slopes down to 1e-8 to the axis of a cylinder, from inside it"""
    return product((0, 1, 2), (1.0, -1.0), (0.5, 4.0, 30.0), (0.0, 0.4, -0.7), (1e-4, -2e-6, 8e-7, -3e-7, 1e-7, -1e-8))


def spaces(tier):
    return [Space("shallows", lambda: shallows(tier), judge_shallow, note=shallows.__doc__), Space("chords", lambda: chords(tier), judge_chord, note=chords.__doc__)] + \
        [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip())
            for f in (surfaces, lattice_forms, parallels, lattice_spheres, lattice_cylinders, middles, bundles)]
