"""Whole instruments, judged by their textbook formulas (no reference tracer involved)."""
import math

from mc import impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "E01"
RULE = ("products of instrument parameters (focal lengths, groove densities, wavelengths, orders, indices, angles), orientations and places x ray fans; what leaves the "
        "instrument, and what its detectors record, is compared with the closed formula of the instrument as a whole")
ASSUMPTIONS = ["ball lenses and concave mirrors are judged near their axis, with a tolerance of the square of the relative height"]
INF = math.inf
POSES = [((0.0, 0.0, 0.0), (0, 1, 0), (0, 0, 1)), ((3.0, -7.0, 12.0), (0, -1, 0), (1, 0, 0)), ((-80.0, 40.0, 25.0), (0.2, -0.9, 0.4), (0.3, 0.1, 0.9)),
         ((1000.0, -2000.0, 500.0), (-0.7, 0.3, 0.1), (0.0, 0.2, 1.0)), ((0.1, 0.2, 0.3), (1, 1, 1), (1, -1, 0))]


class Pose:
    """an axis through a place, with two directions across it"""
    def __init__(self, spec):
        self.o, a, hint = spec
        self.a = ref.unit(a)
        self.u = ref.unit(ref.perp(hint, self.a))
        self.v = ref.cross(self.a, self.u)

    def at(self, s, x=0.0, y=0.0):
        return ref.add(self.o, self.dir(s, x, y))

    def dir(self, s, x=0.0, y=0.0):
        return ref.add(ref.mul(s, self.a), ref.add(ref.mul(x, self.u), ref.mul(y, self.v)))

    def of(self, p):
        q = ref.sub(p, self.o)
        return ref.dot(q, self.a), ref.dot(q, self.u), ref.dot(q, self.v)

    def direction(self, d):
        return ref.dot(d, self.a), ref.dot(d, self.u), ref.dot(d, self.v)


def near(a, b, tol):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def run(r, distance, optics, ctx, limit=INF):
    r.run(distance, optics, max_interactions=limit)
    ctx.step(len(r.point_history) - 1)
    return impl.tup(r.position), impl.tup(r.direction)


def judge_relay(spec, ctx):
    """two lenses at the distance of the sum of their focal lengths: image points, magnification, parallel light; recorded by a detector in the image plane"""
    pose, f1, f2, flip, order = spec
    P = Pose(pose)
    scale = abs(f1) + abs(f2)
    D = max(1e4, 4.0 * scale)
    lenses = [("ideal", P.at(0.0), P.dir(-1.0 if flip & 1 else 1.0), D, f1), ("ideal", P.at(f1 + f2), P.dir(-1.0 if flip & 2 else 1.0), D, f2)]
    screen = ("detector", P.at(f1 + 2 * f2), P.dir(1.0), P.u, D, D)
    real = [impl.build(o) for o in (lenses + ([screen] if f2 > 0 else []))]
    listed = real[::-1] if order else real
    back = [-4, 0.0, 3.0] if f1 > 0 else [0.0]
    # parallel light stays parallel, with the angles scaled by -f1/f2
    for tx, ty in product((-0.11, 0.0, 0.07), (-0.05, 0.0, 0.13)):
        for x, y in product((-2.0, 0.0, 3.0), (-1.0, 2.5)):
            d = ref.unit(P.dir(1.0, tx, ty))
            r = impl.ray(ref.along(P.at(0.0, x, y), -0.7 * scale, d), d)
            q, e = run(r, 20 * scale, real[:2], ctx)
            s, ex, ey = P.direction(e)
            if s <= 0 or not near((ex / s, ey / s), (-tx * f1 / f2, -ty * f1 / f2), 1e-6 * (1 + abs(f1 / f2))):
                return ctx.fail("parallel light with slopes %s, %s leaves the pair with %s" % (tx, ty, (s, ex, ey)))
    # every point of the front focal plane goes to one point of the back focal plane, magnified by -f2/f1
    want = []
    for x, y in product((-3.0, 0.0, 1.7), (0.0, 2.2)):
        for tx, ty in product((-0.2, 0.0, 0.1), (-0.15, 0.05)):
            if f1 > 0:
                p, d = P.at(-f1, x, y), P.dir(1.0, tx, ty)
            else:  # aimed at a point of the (virtual) front focal plane behind the first lens
                d = ref.unit(P.dir(1.0, tx, ty))
                p = ref.along(P.at(-f1, x, y), -3.0 * scale, d)
            r = impl.ray(p, d, 400 + len(want))
            q, e = run(r, 20 * scale, listed, ctx)
            g = (f1 + 2 * f2, -x * f2 / f1, -y * f2 / f1)
            if f2 > 0:
                got = P.of(q)
                want.append((g, 400.0 + len(want)))
                if not r.blocked:
                    return ctx.fail("a ray from %s is not stopped by the detector" % (p,))
            else:  # it only seems to come from there
                got = P.of(ref.along(q, -ref.dot(ref.sub(q, P.at(g[0])), P.a) / ref.dot(e, P.a), e))
            if not near(got, g, 1e-6 * scale):
                return ctx.fail("a ray from the object point %s arrives at %s, not at the image %s" % ((x, y), got, g))
    if f2 > 0:
        data = [impl.tup(h) for h in real[2].hit_data]
        if len(data) != len(want) or any(not near(P.of(h[:3]), g, 1e-6 * scale) or h[3] != wl for h, (g, wl) in zip(data, want)):
            return ctx.fail("the detector has the records %s for %s" % (data[:3], want[:3]))
    ctx.trace()
    ctx.state(impl.key(spec))


def relays(tier):
    """Keplerian and Galilean pairs of many ratios, lenses facing either way, listed in both orders"""
    F = (20.0, 50.0, 333.0) if tier == "quick" else (5.0, 20.0, 50.0, 125.0, 333.0, 1000.0)
    for pose in POSES:
        for f1, f2 in product(F, F):
            for flip, order in product(range(4), (0, 1)):
                yield (pose, f1, f2, flip, order)
        for f1, f2 in product((-20.0, -35.0), (50.0, 100.0, 333.0)):
            for order in (0, 1):
                yield (pose, f1, f2, order, order)
                yield (pose, f2, f1, order, order)
        for f1, f2 in ((3000.0, 7000.0), (12000.0, 500.0), (8000.0, 40000.0), (0.5, 2.0), (-2000.0, 9000.0)):
            yield (pose, f1, f2, 1, 0)


def judge_spectrometer(spec, ctx):
    """slit, collimator, grating, camera lens, detector: one spot per wavelength and order at f tan(b - b0)"""
    pose, G, f, wls, m, a = spec
    P = Pose(pose)
    # the grating at the origin with its grooves along v; light arrives at the angle a from its normal (the axis)
    slit = 60.0
    din = P.dir(-math.cos(a), -math.sin(a), 0.0)
    up = P.dir(0.0, 0.0, 1.0)
    across = ref.cross(up, din)
    grating = ("grating", P.at(0.0), P.dir(1.0), P.dir(0.0, 0.0, 1.0), 200.0, 200.0, G)
    collimator = ("ideal", ref.mul(1.0, ref.along(P.o, -80.0, din)), din, 60.0, slit)
    source = ref.along(P.o, -80.0 - slit, din)

    def angle(wl):  # G m L = sin a + sin b, positive towards the incident light
        s = G * 1e-6 * m * wl - math.sin(abs(a))
        return math.copysign(1.0, a) * math.asin(s) if abs(s) < 1 else None
    b0 = angle(wls[len(wls) // 2])
    if b0 is None:
        ctx.skip("no such order")
        return
    # the camera looks along the middle wavelength
    axis = P.dir(math.cos(b0), math.sin(b0), 0.0)
    side = P.dir(-math.sin(b0), math.cos(b0), 0.0)
    centre = ref.along(P.o, 70.0, axis)
    # keep the camera out of the incoming light
    if ref.dot(axis, din) < -0.6:
        ctx.skip("the camera would stand in the incoming light")
        return
    camera = ("ideal", centre, axis, 90.0, f)
    screen = ("detector", ref.along(centre, f, axis), ref.mul(-1.0, axis), side, 160.0, 160.0)
    real = [impl.build(o) for o in (screen, camera, grating, collimator)]
    n = 0
    for wl in wls:
        b = angle(wl)
        for x, y in product((-0.03, 0.0, 0.05), (-0.04, 0.0, 0.02)):
            d = ref.add(din, ref.add(ref.mul(x, across), ref.mul(y, up)))
            r = impl.ray(source, d, wl, m)
            q, e = run(r, 2000.0, real, ctx)
            if b is None:
                if not r.blocked or ref.dist(q, P.o) > 40.0:
                    return ctx.fail("order %s of %s nm does not exist, but the ray ends at %s" % (m, wl, q))
                continue
            if abs(math.tan(b - b0)) * 70.0 > 35.0 or abs(math.tan(b - b0)) * f > 75.0:
                ctx.skip("the light of this wavelength misses the camera")
                continue
            t = ref.sub(q, ref.along(centre, f, axis))
            got = (ref.dot(t, axis), ref.dot(t, side), ref.dot(t, up))
            # parallel light of one wavelength: one point
            if not r.blocked or not near(got, (0.0, f * math.tan(b - b0), 0.0), 1e-5 * f):
                return ctx.fail("%s nm in order %s arrives at %s instead of %s on the detector" % (wl, m, got, f * math.tan(b - b0)))
            n += 1
            last = impl.tup(real[0].hit_data[-1]) if len(real[0].hit_data) == n else None
            if last is None or not near(last[:3], q, 1e-6 * (1 + f)) or last[3] != wl:
                return ctx.fail("%s records after %d rays, the last is %s for %s nm at %s" % (len(real[0].hit_data), n, last, wl, q))
    ctx.trace()
    ctx.state(impl.key(spec))


def spectrometers(tier):
    """groove densities x focal lengths x orders x angles of incidence x wavelength sets, in several poses"""
    for pose in POSES:
        for G, f, m, a in product((150.0, 600.0, 1200.0), (80.0, 150.0), (-2, -1, 1, 2), (-0.9, -0.6, -0.3, 0.2, 0.45, 0.75, 1.0)):
            yield (pose, G, f, (480, 500.0, 532.0, 560.0, 589.6), m, a)
            if tier == "thorough":
                yield (pose, G, f, (300.0, 310.0, 320.0), 2 * m, a)
                yield (pose, G, f, (1000, 1064.0, 1100.5), m, a)


def judge_corner(spec, ctx):
    """three mutually perpendicular mirrors send every ray that meets all of them back antiparallel, mirrored at the corner"""
    pose, kind, order, size = spec
    P = Pose(pose)
    axes = [P.a, P.u, P.v]
    mirrors = []
    for k, n in enumerate(axes):
        t, w = axes[(k + 1) % 3], axes[(k + 2) % 3]
        if kind == "flat":
            mirrors.append(("flat", P.o, n, 8 * size))
        else:
            mirrors.append(("rect", ref.add(P.o, ref.add(ref.mul(size, t), ref.mul(size, w))), ref.mul((-1) ** k, n), t, 2 * size, 2 * size))
    real = [impl.build(mirrors[i]) for i in order]
    for d in ((-1, -1, -1), (-1, -0.7, -0.4), (-0.3, -0.8, -0.9), (-1, -0.2, -0.9), (-5, -3, -4)):
        for x, y in product((-0.21, 0.0, 0.13), (-0.17, 0.05, 0.2)):
            u = ref.unit(d)
            t = W.frame(u)
            off = ref.add(ref.mul(x * size, t), ref.mul(y * size, ref.cross(u, t)))
            p = ref.add(ref.mul(-0.9 * size, u), off)  # in the frame of the corner
            if any(abs(c) < 1e-3 * size for c in (p[0] / u[0] - p[1] / u[1], p[1] / u[1] - p[2] / u[2], p[0] / u[0] - p[2] / u[2])):
                continue  # into an edge
            if min(p) <= 0.01 * size:
                continue  # not in front of all three
            if kind == "rect":  # meets the three planes inside the squares
                q, e, ok = p, u, True
                for _ in range(3):
                    s, k = min((-q[k] / e[k], k) for k in range(3) if e[k] < 0)
                    q = ref.along(q, s, e)
                    ok = ok and all(0.01 * size < q[j] < 1.95 * size for j in range(3) if j != k)
                    e = tuple(-c if j == k else c for j, c in enumerate(e))
                if not ok:
                    continue
            r = impl.ray(P.at(*p), P.dir(*u))
            q, e = run(r, 6 * size, real, ctx)
            if len(r.point_history) != 5:
                return ctx.fail("a ray from %s along %s meets %d mirrors of the corner" % (p, u, len(r.point_history) - 2))
            if not near(P.direction(e), ref.mul(-1.0, u), 1e-9):
                return ctx.fail("a ray along %s returns along %s" % (u, P.direction(e)))
            got = ref.perp(P.of(q), u)
            if not near(got, ref.mul(-1.0, off), 1e-7 * (size + ref.norm(P.o))):
                return ctx.fail("a ray offset by %s returns offset by %s" % (off, got))
            if abs(sum(ref.dist(a, b) for a, b in zip(impl.hist(r), impl.hist(r)[1:])) - 6 * size) > 1e-7 * (size + ref.norm(P.o)):
                return ctx.fail("the path is not as long as the run")
    ctx.trace()
    ctx.state(impl.key(spec))


def corners(tier):
    """discs and squares, every listing order, sizes"""
    for pose in POSES:
        for kind in ("flat", "rect"):
            for order in ((0, 1, 2), (2, 1, 0), (1, 0, 2), (1, 2, 0), (0, 2, 1), (2, 0, 1)):
                for size in (0.5, 10.0, 700.0):
                    yield (pose, kind, order, size)


def judge_wedge(spec, ctx):
    """two mirrors at an angle g: every second reflection turns the light by twice g about the common edge, and the path unfolds to a straight line"""
    pose, g, a, b = spec
    P = Pose(pose)
    n1 = P.dir(0.0, 0.0, 1.0)                           # mirror along u
    n2 = P.dir(0.0, math.sin(g), -math.cos(g))          # mirror at the angle g from u towards v
    L = 4000.0
    real = [impl.build(("rect", P.o, n1, P.a, L, L)), impl.build(("rect", P.o, n2, P.a, L, L))]
    # start between them, fly towards the edge
    start = (0.0, 50.0 * math.cos(b * g), 50.0 * math.sin(b * g))
    d = ref.unit((0.2, math.cos(a), math.sin(a)))
    r = impl.ray(P.at(*start), P.dir(*d))
    total = 300.0
    q, e = run(r, total, real, ctx)
    # unfolding: the straight line, folded back into the wedge
    end = ref.along(start, total, d)
    phi0 = b * g
    rho = math.hypot(end[1], end[2])
    turn = math.atan2(start[1] * end[2] - start[2] * end[1], start[1] * end[1] + start[2] * end[2])
    closest = abs(start[1] * d[2] - start[2] * d[1]) / math.hypot(d[1], d[2])
    if closest < 1e-3:
        ctx.skip("into the edge")
        return
    phi = phi0 + turn
    k = math.floor(phi / g)
    if min(phi - k * g, (k + 1) * g - phi) * rho < 1e-4:
        ctx.skip("ends on a mirror")
        return
    folded = phi - k * g if k % 2 == 0 else (k + 1) * g - phi
    want = (end[0], rho * math.cos(folded), rho * math.sin(folded))
    if len(r.point_history) - 2 != abs(k):
        return ctx.fail("%d reflections instead of %d" % (len(r.point_history) - 2, abs(k)))
    got = P.of(q)
    if not near(got, want, 1e-6 * (1 + ref.norm(P.o))):
        return ctx.fail("the light ends at %s instead of %s" % (got, want))
    ang = math.atan2(d[2], d[1])
    ang = ang - k * g if k % 2 == 0 else (k + 1) * g - ang
    h = math.hypot(d[1], d[2])
    if not near(P.direction(e), (d[0], h * math.cos(ang), h * math.sin(ang)), 1e-9):
        return ctx.fail("the light leaves along %s instead of %s" % (P.direction(e), (d[0], h * math.cos(ang), h * math.sin(ang))))
    ctx.trace()
    ctx.state(impl.key(abs(k), got))


def wedges(tier):
    """angles from a right angle to three degrees x starts x directions"""
    for pose in POSES:
        for g in (math.pi / 2, math.pi / 3, math.pi / 4, 0.7, 0.5, math.pi / 7, 0.3, 0.21, 0.1, 0.055):
            for i in range(12 if tier == "quick" else 60):
                for b in (0.2, 0.5, 0.83):
                    yield (pose, g, math.pi + 0.06 * (i - 5.5) if tier == "quick" else 0.1047 * i + 0.03, b)


def judge_shell(spec, ctx):
    """concentric spheres: the light stays in the plane through the centre, n r sin is conserved at each surface, and what leaves has the impact parameter it came with"""
    place, scale, kind, n, b, k, order = spec
    c = tuple(scale * x for x in place)
    R, r0 = 20.0 * scale, 11.0 * scale
    core = 5.0 * scale
    solids = {"ball": [("ball", c, 2 * R, n)],
              "solid": [("solid", ("sphere", c, R), "refract", n)],
              "shell": [("solid", ("difference", ("sphere", c, R), ("sphere", c, r0)), "refract", n)],
              "filled": [("solid", ("difference", ("sphere", c, R), ("sphere", c, r0)), "refract", n), ("ball", c, 2 * core, 1.8)],
              "onion": [("solid", ("difference", ("sphere", c, R), ("sphere", c, r0)), "refract", n), ("solid", ("difference", ("sphere", c, 9.0 * scale), ("sphere", c, core)), "refract", 1.3)],
              "mirrored": [("solid", ("difference", ("sphere", c, R), ("sphere", c, r0)), "refract", n), ("convex", c, 2 * core)]}[kind]
    real = [impl.build(o) for o in (solids[::-1] if order else solids)]
    u = ref.unit((math.cos(1.3 * k), math.sin(1.3 * k), 0.4 * k - 1.1))
    t = W.frame(u)
    impact = b * R
    p = ref.add(c, ref.add(ref.mul(-3 * R, u), ref.mul(impact, t)))
    r = impl.ray(p, u)
    q, e = run(r, 300 * R, real, ctx, 40)
    h = impl.hist(r)
    w = ref.cross(t, u)
    if any(abs(ref.dot(ref.sub(x, c), w)) > 1e-6 * R for x in h):
        return ctx.fail("the path leaves the plane through the centre: %s" % impl.short(h))
    legs = [(a, ref.unit(ref.sub(z, a))) for a, z in zip(h, h[1:]) if ref.dist(a, z) > 1e-6 * R]
    media = (1.0, n, 1.3 if kind == "onion" else 1.8)
    for a, d in legs:
        L = ref.dot(ref.cross(ref.sub(a, c), d), w)
        L0 = ref.dot(ref.cross(ref.sub(p, c), u), w)
        ratios = [abs(m * L - L0) for m in media]
        if min(ratios) > 1e-6 * R:
            return ctx.fail("n r sin(angle) changes from %s to %s (and no index explains it) on the leg from %s along %s" % (L0, L, a, d))
    if len(h) - 2 < 40:  # out again: like before
        out = abs(ref.norm(ref.cross(ref.sub(q, c), e)) - impact)
        if out > 1e-6 * R or ref.dot(ref.sub(q, c), e) < 0:
            return ctx.fail("a ray with the impact parameter %s leaves with %s" % (impact, out))
    ctx.trace()
    ctx.state(impl.key(kind, len(h), e))


def shells(tier):
    """balls, solid spheres, shells, shells around balls, mirrors and shells, of several indices, over impact parameters"""
    for scale in (1.0, 0.05, 40.0):
        for kind in ("ball", "solid", "shell", "filled", "onion", "mirrored"):
            for n in (1.1, 1.5, 2.2) if tier == "quick" else (1.01, 1.1, 1.33, 1.5, 1.7, 2.2, 3.0):
                for k in range(4):
                    for b in (0.0513, 0.15, 0.24, 0.27, 0.38, 0.44, 0.471, 0.52, 0.57, 0.6, 0.73, 0.81, 0.93, 0.985):
                        yield ((0.0, 0.0, 0.0) if k % 2 else (30.0, -20.0, 10.0), scale, kind, n, b, k, k > 1)


def judge_gallery(spec, ctx):
    """inside a mirrored sphere all legs are equally long, lie in one plane and turn by the same angle"""
    c, R, p, d, bounces = spec
    real = [impl.build(("convex", c, 2 * R))]
    u = ref.unit(d)
    start = ref.add(c, ref.mul(R, p))
    r = impl.ray(start, u)
    run(r, 2 * R * (bounces + 2), real, ctx, bounces)
    h = impl.hist(r)
    b = ref.norm(ref.cross(ref.mul(R, p), u))
    chord = 2 * math.sqrt(R * R - b * b)
    w = ref.unit(ref.cross(p, u))
    full = min(bounces, len(h) - 1)
    for i in range(1, full):
        if abs(ref.dist(h[i], h[i + 1]) - chord) > 1e-7 * (R + ref.norm(c)) and i + 1 < len(h) - (len(h) - 1 < bounces):
            return ctx.fail("leg %d has the length %s instead of %s" % (i, ref.dist(h[i], h[i + 1]), chord))
        if abs(ref.dot(ref.sub(h[i], c), w)) > 1e-7 * (R + ref.norm(c)):
            return ctx.fail("the path leaves its plane at %s" % (h[i],))
        if abs(ref.dist(h[i], c) - R) > 1e-7 * (R + ref.norm(c)):
            return ctx.fail("vertex %d is %s from the centre" % (i, ref.dist(h[i], c)))
    if len(h) - 1 < min(bounces, int(2 * R * (bounces + 1) / chord)):
        return ctx.fail("only %d legs of %d" % (len(h) - 1, bounces))
    ctx.trace()
    ctx.state(impl.key(len(h), h[-1]))


def galleries(tier):
    """chords from a diameter to a fiftieth of it, up to 200 reflections"""
    for c in ((0.0, 0.0, 0.0), (30.0, -20.0, 100.0)):
        for R in (0.4, 15.0, 800.0):
            for p in ((0.3, 0.2, 0.1), (-0.5, 0.4, 0.6), (0.0, 0.93, 0.0), (0.9, 0.3, -0.25)):
                for d in ((1.0, 0.0, 0.2), (-0.4, 0.5, 0.77), (0.05, 0.01, -1.0)):
                    for bounces in (30,) if tier == "quick" else (30, 200):
                        yield (c, R, p, d, bounces)


def judge_paraxial(spec, ctx):
    """ball lens: focal length n D / (4 (n - 1)) from its centre; concave mirror: 1/i = 1/f - 1/o, for near-axis light"""
    pose, kind, size, n, o = spec
    P = Pose(pose)
    if kind == "ball":
        f = n * size / (4 * (n - 1))
        real = [impl.build(("ball", P.at(0.0), size, n))]
        a = P.a
        limit = 2
    elif kind == "sphere":
        f = n * size / (4 * (n - 1))
        real = [impl.build(("solid", ("sphere", P.at(0.0), size / 2), "refract", n))]
        limit = 2
    else:
        f = size
        real = [impl.build(("concave", P.at(0.0), P.dir(-1.0), f, f))]
        limit = 1
    for k in range(6):
        x, y = math.cos(k), math.sin(k)
        eps = 2e-4
        if o is None:
            p, d = P.at(-4.0 * f, eps * f * x, eps * f * y), P.dir(1.0)
            want = f
        else:
            p, d = P.at(-o * f), P.dir(1.0, eps / o * x, eps / o * y)
            want = f / (1 - 1 / o)
        r = impl.ray(p, d)
        q, e = run(r, 30 * f, real, ctx, limit)
        s0, x0, y0 = P.of(q)
        es, ex, ey = P.direction(e)
        across, slope = x * x0 + y * y0, (x * ex + y * ey) / es
        # where the light crosses the axis
        s = s0 - across / slope
        sign = 1.0 if kind in ("ball", "sphere") else -1.0
        if abs(sign * s - want) > 3e-4 * abs(want) or abs(y * x0 - x * y0) > 1e-7 * f:
            return ctx.fail("near-axis light crosses the axis at %s instead of %s" % (sign * s, want))
    ctx.trace()
    ctx.state(impl.key(spec))


def paraxials(tier):
    """sizes x indices x object distances, from infinity, beyond and within the focal length"""
    for pose in POSES:
        for o in (None, 1.6, 2.0, 3.5, 8.0):
            for size in (2.0, 25.0, 600.0, 0.8173, 33.33337):
                for kind, ns in (("ball", (1.33, 1.5, 1.8, 1.9)), ("sphere", (1.33, 1.5, 1.8, 1.9)), ("concave", (1.0,))):
                    for n in ns:
                        yield (pose, kind, size, n, o)


def judge_singlet(spec, ctx):
    """lenses cut from two spheres: the lensmaker's focal length for near-axis light, sent through from either side"""
    pose, R1, R2, d, n, back, how = spec
    P = Pose(pose)
    s = -1.0 if back else 1.0
    # vertices at 0 and d; the first surface bulges towards the light
    front, rear = ("sphere", P.at(R1), R1), ("sphere", P.at(d - R2), R2)
    tree = ("intersect", front, rear) if how == 0 else ("intersect", rear, ("intersect", front, front)) if how == 1 else ("difference", ("intersect", front, rear), ("sphere", P.at(0.0, 50.0 * R1), R1))
    real = [impl.build(("solid", tree, "refract", n))]
    power = (n - 1) * (1 / R1 + 1 / R2 - (n - 1) * d / (n * R1 * R2))
    f = 1 / power
    bfd = f * (1 - (n - 1) * d / (n * (R2 if back else R1)))
    eps = 2e-4 * min(R1, R2)
    for k in range(4):
        x, y = math.cos(1.1 * k), math.sin(1.1 * k)
        r = impl.ray(P.at((d if back else 0.0) - s * 3.0 * R1, eps * x, eps * y), P.dir(s))
        q, e = run(r, 3.0 * R1 + 30 * abs(f), real, ctx, 2)
        s0, x0, y0 = P.of(q)
        es, ex, ey = P.direction(e)
        cross = s0 - (x * x0 + y * y0) * es / (x * ex + y * ey)
        want = (0.0 - bfd) if back else d + bfd
        if abs(cross - want) > 1e-4 * abs(f):
            return ctx.fail("near-axis light crosses the axis at %s instead of %s" % (cross, want))
        # the effective focal length is the height over the slope
        if abs(-eps * es / (x * ex + y * ey) * s - f) > 1e-4 * f:
            return ctx.fail("the focal length is %s instead of %s" % (-eps * es / (x * ex + y * ey) * s, f))
    ctx.trace()
    ctx.state(impl.key(spec))


def singlets(tier):
    """curvatures x thicknesses x indices x sides x ways of writing the solid"""
    for pose in POSES:
        for R1, R2, d, n in product((20.0, 50.0, 300.0), (25.0, 50.0, 120.0), (2.0, 8.0), (1.3, 1.5168, 1.9)):
            for back, how in product((0, 1), (0, 1, 2)):
                yield (pose, R1, R2, d, n, back, how)


def judge_guide(spec, ctx):
    """mirrored tubes and glass rods: the component along the axis and the moment about it are conserved (times the index across the surface), and all legs inside have the same chord"""
    pose, R, kind, n, b, slope, s, k = spec
    P = Pose(pose)
    axis = P.a if k < 2 else ref.mul(-2.0 if kind == "tube" else -1.0, P.a)
    real = [impl.build(("solid", ("cyl", P.o, axis, R), "reflect" if kind == "tube" else "refract", n))]
    ux, uy = math.cos(0.9 * k), math.sin(0.9 * k)
    h = math.hypot(1.0, slope)
    d = P.dir(slope / h, ux / h, uy / h)                     # one in the cross-section, slope along the axis
    inside = kind == "tube" or s == 0
    away = 0.3 * math.sqrt(1 - b * b) * R if inside else -2.5 * R
    p = P.at(5.0 * R, away * ux - b * R * uy, away * uy + b * R * ux)
    chord = 2 * R * math.sqrt(1 - b * b) * h
    limit = 12 if inside else 40
    total = (limit + 2) * chord if inside else 8.0 * R * h
    r = impl.ray(p, d)
    q, e = run(r, total, real, ctx, limit)
    hh = [P.of(x) for x in impl.hist(r)]
    tol = 1e-7 * (R * h + ref.norm(P.o))

    def constants(x, v):
        return v[0], x[1] * v[2] - x[2] * v[1]
    legs = [(a, z) for a, z in zip(hh, hh[1:]) if ref.dist(a, z) > 0.01 * R * math.sqrt(1 - b * b)]
    ca, cm = constants(P.of(p), P.direction(d))
    for a, z in legs:
        v = ref.unit(ref.sub(z, a))
        if not any(abs(m * v[0] - ca) < 1e-6 * n and abs(m * constants(a, v)[1] - cm) < 1e-6 * n * (R + ref.norm(P.o))
                   for m in ((1.0,) if kind == "tube" else (1.0, n, 1 / n))):
            return ctx.fail("from %s along %s: along the axis %s, moment %s; at the start %s, %s" % (a, v, v[0], constants(a, v)[1], ca, cm))
    for x in hh[1:-1]:
        if abs(math.hypot(x[1], x[2]) - R) > tol:
            return ctx.fail("a vertex %s is not on the surface" % (x,))
    if inside:
        # angle of incidence on the wall: the cross-sectional part of the cosine
        cosi = math.sqrt(1 - b * b) / h
        guided = kind == "tube" or n * math.sqrt(1 - cosi * cosi) > 1
        if kind != "tube" and abs(n * math.sqrt(1 - cosi * cosi) - 1) < 1e-6:
            return ctx.skip("critical")
        if guided:
            first = ref.dist(hh[0], hh[1])
            if len(hh) - 1 != limit or abs(first - (chord / 2 - away * h)) > tol or any(abs(ref.dist(a, z) - chord) > tol for a, z in zip(hh[1:], hh[2:])):
                return ctx.fail("legs of %s in a guide with chords of %s" % ([round(ref.dist(a, z), 9) for a, z in zip(hh, hh[1:])], chord))
        elif len(hh) != 3 or not abs(P.direction(e)[0] - n * slope / h) < 1e-9:
            return ctx.fail("light below the critical angle: %s vertices, leaves along %s" % (len(hh), P.direction(e)))
    elif b < 1:
        v = P.direction(e)
        x = P.of(q)
        if len(hh) != 4 or not near(constants(x, v), (ca, cm), 1e-6 * (1 + R + ref.norm(P.o))):
            return ctx.fail("light through the rod: %d vertices, leaves with %s instead of %s" % (len(hh), constants(x, v), (ca, cm)))
    ctx.trace()
    ctx.state(impl.key(len(hh), q))


def guides(tier):
    """radii x indices x impact parameters x slopes, from inside and from beside"""
    for pose in POSES:
        for R in (0.2, 5.0, 80.0):
            for b, slope, k in product((0.0, 0.15, 0.5, 0.9), (0.0, 0.3, 1.0, -4.0), range(4) if tier == "thorough" else (0, 3)):
                yield (pose, R, "tube", 1.5, b, slope, 0, k)
                for n in (1.2, 1.5, 2.0):
                    yield (pose, R, "rod", n, b, slope, 0, k)
                    if abs(slope) <= 1:
                        yield (pose, R, "rod", n, b, slope, 1, k)


def judge_cavity(spec, ctx):
    """two concave mirrors facing each other: near the axis the heights at successive reflections obey x'' = (2 - L / f) x' - x"""
    pose, f1, f2, L, k, order = spec
    P = Pose(pose)
    small = min(f1, f2)
    mirrors = [("concave", P.at(0.0), P.dir(1.0), small, f1), ("concave", P.at(L), P.dir(-1.0), small, f2)]
    real = [impl.build(o) for o in (mirrors[::-1] if order else mirrors)]
    eps = 2e-5 * small
    x, y, tx, ty = eps * math.cos(k), eps * math.sin(k), 0.3 * eps / small * math.sin(2 * k), -0.2 * eps / small
    r = impl.ray(P.at(0.4 * L, x, y), P.dir(1.0, tx, ty))
    n = 12
    run(r, 1e3 * (f1 + f2 + L), real, ctx, n)
    h = [P.of(v) for v in impl.hist(r)][1:]
    want = []
    for i, (c, t) in enumerate(((x, tx), (y, ty))):
        at, slope = c + 0.6 * L * t, t
        row = [at]
        for m in range(1, n):
            slope -= at / (f2 if m % 2 else f1)
            at += L * slope
            row.append(at)
        want.append(row)
    size = max(abs(v) for row in want for v in row)
    if size > 0.05 * small:
        return ctx.skip("leaves the axis")
    if len(h) != n:
        return ctx.fail("%d reflections instead of %d" % (len(h), n))
    for m in range(n):
        # (spherical aberration grows with the square of the height)
        if not near(h[m], (L if m % 2 == 0 else 0.0, want[0][m], want[1][m]), 1e-3 * size + 8 * size * size / small + 1e-9 * ref.norm(P.o)):
            return ctx.fail("reflection %d at %s instead of %s" % (m, h[m], (want[0][m], want[1][m])))
    ctx.trace()
    ctx.state(impl.key(spec))


def cavities(tier):
    """focal lengths x distances from nearly flat to concentric and beyond x starts"""
    for pose in POSES:
        for f1, f2 in product((5.0, 40.0, 600.0, 3.7719), (5.0, 52.0, 600.0)):
            for g in (0.1, 0.4, 1.0, 1.7, 1.95) if tier == "quick" else (0.02, 0.1, 0.4, 0.7, 1.0, 1.3, 1.7, 1.95, 2.1):
                for k in range(3):
                    yield (pose, f1, f2, g * (f1 + f2) / 2, k, k % 2)


def judge_picture(spec, ctx):
    """the object grid of the bundle generator, traced through a lens onto a detector: an inverted picture, record by record, with the colours of the pattern"""
    y0, size, angle, nx, nz, na, d, f, o, flip, listed = spec
    origins, dirs, waves = impl.GO.image_rays(y0, size=size, angle=angle, x_res=nx, z_res=nz, angle_res=na, pattern_d=d)
    i = 1.0 / (1.0 / f - 1.0 / o)
    lens = impl.build(("ideal", (0.0, y0 + o, 0.0), (0, -1 if flip & 1 else 1, 0), 1e4, f))
    screen = impl.build(("detector", (0.0, y0 + o + i, 0.0), (0, -1 if flip & 2 else 1, 0), (0, 0, 1) if flip & 1 else (1, 0, 0), 1e4, 1e4))
    rays = [impl.OP.Ray(p, v, wavelength=w, print_trajectory=False) for p, v, w in zip(origins, dirs, waves)]
    for r in rays:
        r.run(max_distance=50 * (o + i), optic_list=[screen, lens] if listed else [lens, screen])
    ctx.step(len(rays))
    rows = [impl.tup(row) for row in screen.hit_data]
    if len(rows) != nx * nz * na:
        return ctx.fail("%d records of %d rays" % (len(rows), nx * nz * na))
    m = i / o
    for row, p, w in zip(rows, origins, waves):
        p = impl.tup(p)
        if not near(row[:3], (-m * p[0], y0 + o + i, -m * p[2]), 1e-7 * (abs(y0) + o + i + size * (1 + m))) or row[3] != float(w):
            return ctx.fail("the point %s (%s nm) is recorded at %s" % (p, w, row))
    for row in rows:
        rho = math.hypot(row[0], row[2])
        if abs(rho - m * d / 2) > 1e-6 * (1 + m * d) and row[3] != (680.0 if rho < m * d / 2 else 450.0):
            return ctx.fail("the picture has the colour %s at %s for a pattern of %s" % (row[3], rho, m * d))
    for r, p in zip(rays, origins):
        if len(r.point_history) != 3 or not r.blocked:
            return ctx.fail("the ray from %s has %d vertices" % (p, len(r.point_history)))
    ctx.trace()
    ctx.state(impl.key(spec))


def pictures(tier):
    """planes x sizes x angles x resolutions x patterns x focal lengths x object distances x facings"""
    for y0, size, angle in ((0.0, 10.0, 0.2), (-300.0, 25.0, 0.05), (1234.5, 0.3, 0.6), (7, 4, 0)):
        for nx, nz, na in ((5, 5, 3), (1, 4, 2), (6, 1, 1), (3, 2, 5)):
            for d in (0.4 * size, 1.1 * size):
                for f, k in product((10.0, 25.0, 300.0), (1.2, 2.0, 5.0)):
                    for flip in range(4):
                        yield (y0, size, angle, nx, nz, na, d, f, k * f, flip, flip % 3 == 1)


def judge_pair(spec, ctx):
    """gratings: light that fulfils 2 sin a = G m L returns on itself; two equal parallel gratings facing each other send it on in its first direction, the same for every wavelength"""
    pose, G, m, wl, tilt, gap = spec
    P = Pose(pose)
    s = G * 1e-6 * m * wl / 2
    if abs(s) >= 1:
        return ctx.skip("no such order")
    W_ = 1e5
    a = math.asin(abs(s))
    for side in (1, -1):
        if s <= 0:
            continue
        for z in (0.0, 0.2, -0.7):                          # along the grooves
            inc = P.dir(-math.cos(a), side * math.sin(a), z)
            first = ("grating", P.at(0.0), P.dir(1.0), P.v, W_, W_, G)
            r = impl.ray(ref.along(P.o, -10.0, ref.unit(inc)), inc, wl, m)
            q, e = run(r, 20.0, [impl.build(first)], ctx)
            back = ref.unit((math.cos(a), -side * math.sin(a), z))
            if not near(P.direction(e), back, 1e-9):
                return ctx.fail("%s nm at the Littrow angle %s returns along %s instead of %s" % (wl, a, P.direction(e), back))
    # off that angle: a second grating parallel to the first
    for side in (1, -1):
        ai = math.asin(abs(s)) + tilt
        sb = 2 * s - math.sin(ai)
        if not 0.0 < ai < 1.4 or not 0.02 < sb < 0.98:
            ctx.skip("no diffraction towards the light")
            continue
        for z in (0.0, 0.1):
            inc = ref.unit(P.dir(-math.cos(ai), side * math.sin(ai), z))
            one = ("grating", P.at(0.0), P.dir(1.0), P.v, gap, gap, G)
            # the light leaves on the side it came from, and meets the second one there
            b = math.asin(sb)
            out = P.dir(math.cos(b), -side * math.sin(b), z)
            two = ("grating", ref.along(P.o, 1.5 * gap / math.cos(b), out), P.dir(-1.0), P.v, gap, gap, G)
            start = ref.along(P.o, -0.2 * gap, inc)
            if abs(math.tan(b) - math.tan(ai)) * 1.5 < 0.55:
                ctx.skip("the second grating would stand in the light")
                continue
            for order in (0, 1):
                real = [impl.build(x) for x in ((one, two), (two, one))[order]]
                r = impl.ray(start, inc, wl, m)
                q, e = run(r, 60.0 * gap, real, ctx, 2)
                if len(r.point_history) < 3 or not near(e, inc, 1e-8):
                    return ctx.fail("%s nm leaves the pair along %s, came along %s, %d vertices" % (wl, e, inc, len(r.point_history)))
    ctx.trace()
    ctx.state(impl.key(spec))


def pairs(tier):
    """groove densities x orders x wavelengths x tilts from the Littrow angle x gaps"""
    for pose in POSES:
        for G, m, wl in product((150.0, 600.0, 1200.0, 1800.0), (1, 2, 3), (250.0, 532, 800.25, 1064.0)):
            for tilt in (-0.5, -0.31, -0.2, 0.2, 0.45):
                for gap in (2.0, 300.0):
                    yield (pose, G, m, wl, tilt, gap)


def spaces(tier):
    return [Space(g.__name__, (lambda g=g: g(tier)), j, note=(g.__doc__ or "").strip() + " -- " + (j.__doc__ or "").strip(), timeout=30)
            for g, j in ((relays, judge_relay), (spectrometers, judge_spectrometer), (corners, judge_corner), (wedges, judge_wedge), (shells, judge_shell),
                         (galleries, judge_gallery), (paraxials, judge_paraxial), (singlets, judge_singlet),
                         (guides, judge_guide), (cavities, judge_cavity), (pictures, judge_picture), (pairs, judge_pair))]
