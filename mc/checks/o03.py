import math

from mc import contexts, impl, ref, worlds as W
from mc.checks.o01 import NORMALS, CENTRES
from mc.core import Space, product

PROPERTY = "O03"
RULE = ("products of focal length x orientation x place x object distance x object height x aperture points x travel direction; every "
        "ray's exit line is compared with the imaging equation, independently of the formula used for it")
FOCALS = (30.0, 7.5, 400.0, -25.0, -120.0, 20000.0, -7000.0, 0.3)


def axes(n):
    n = ref.unit(n)
    t = W.frame(n)
    return n, t, ref.cross(n, t)


def aperture(D):
    yield 0.0, 0.0
    for k in range(6):
        a = 0.3 + k * math.pi / 3
        for q in (0.12, 0.46) if k % 2 else (4e-4, 0.03, 0.33):
            yield q * D * math.cos(a), q * D * math.sin(a)


def shoot(lens, c, n, side, obj, u, v, ctx, stop=None, form=0):
    """ray from obj through the aperture point (u, v); returns (meeting point, exit direction) or None after failing"""
    _, t, w = axes(n)
    hit = ref.add(c, ref.add(ref.mul(u, t), ref.mul(v, w)))
    d = ref.unit(ref.sub(hit, obj))
    L = ref.dist(hit, obj)
    r = impl.ray(obj, d, form=form)
    r.run(L + 12.0 if stop is None else L + stop, [lens])
    ctx.step()
    h = impl.hist(r)
    if len(h) != 3 or not impl.close(h[1], hit):
        return ctx.fail("ray from %s to the lens point %s goes %s" % (obj, hit, impl.short(h)))
    out = impl.tup(r.direction)
    if not impl.finite(out) or abs(ref.norm(out) - 1) > 1e-9:
        return ctx.fail("direction %s" % (out,))
    if r.blocked:
        return ctx.fail("absorbed")
    if ref.dot(out, n) * side <= 0:
        return ctx.fail("ray from %s through %s is sent back: %s" % (obj, hit, out))
    if not impl.close(h[2], ref.along(hit, (12.0 if stop is None else stop), out), 1e-6):
        return ctx.fail("the ray does not follow its direction behind the lens")
    return hit, out


def judge(spec, ctx):
    """one object point: all its rays must go through (or come from) the image point"""
    f, n, c, side, o, height, ang, form = spec
    nn, t, w = axes(n)
    D = 30.0
    lens = impl.build(("ideal", c, n, D, f), form)
    obj = ref.add(ref.along(c, -side * o, nn), ref.add(ref.mul(height * math.cos(ang), t), ref.mul(height * math.sin(ang), w)))
    inv = 1.0 / f - 1.0 / o
    if abs(inv) < 1e-9:
        image = None
    else:
        i = 1.0 / inv
        m = -i / o
        image = ref.add(ref.along(c, side * i, nn), ref.add(ref.mul(m * height * math.cos(ang), t), ref.mul(m * height * math.sin(ang), w)))
    central = ref.unit(ref.sub(c, obj))
    for u, v in aperture(D):
        got = shoot(lens, c, nn, side, obj, u, v, ctx, form=0)
        if got is None:
            return
        hit, out = got
        if u == v == 0.0 and ref.dist(out, central) > 5e-8:
            return ctx.fail("a ray through the centre is deviated from %s to %s" % (central, out))
        if image is None:
            want = central
        else:
            want = ref.sub(image, hit)
            if i < 0:
                want = ref.mul(-1, want)
            want = ref.unit(want)
        if ref.dist(out, want) > 5e-8:
            return ctx.fail("f=%s object at %s (distance %s height %s): ray through (%.3f, %.3f) leaves along %s instead of %s (image %s)" % (
                f, obj, o, height, u, v, out, want, image))
        ctx.state(impl.key(out))
    ctx.trace()


def points(tier):
    """object distances from inside the focal length to far away, on and off the axis, both travel directions, every orientation"""
    for f in FOCALS:
        for ni, n in enumerate(NORMALS):
            for side in (1, -1):
                for k in (0.2, 0.5, 0.93, 1.0, 1.5, 2.0, 2.7, 40.0):
                    o = k * abs(f)
                    for height in (0.0, 4.0, 11.0) if tier == "quick" else (0.0, 0.01, 4.0, 11.0, 90.0):
                        if tier == "quick" and (ni + int(10 * k) + int(height)) % 3:
                            continue
                        yield (f, n, CENTRES[ni % 3], side, o, height, 0.7 + ni, (0, 2, 3)[ni % 3])


def judge_special(spec, ctx):
    """collimating and focusing lenses"""
    kind, f, n, c, side, form = spec
    nn, t, w = axes(n)
    D = 26.0
    lens = impl.build((kind, c, n, D, f), form)
    for u, v in aperture(D):
        for obj in (ref.along(c, -side * 31.0, nn), ref.add(ref.along(c, -side * 9.0, nn), ref.mul(14.0, t)),
                    ref.add(ref.along(c, -side * 90.0, nn), ref.mul(-40.0, w)), ref.add(ref.along(c, -side * 0.7, nn), ref.add(ref.mul(50.0, t), ref.mul(21.0, w))),
                    ref.add(ref.along(c, -side * 4.0, nn), ref.mul(-60.0, t)),
                    ref.add(ref.along(c, -side * 50.0, nn), ref.add(ref.mul(u, t), ref.mul(v, w)))):
            got = shoot(lens, c, nn, side, obj, u, v, ctx)
            if got is None:
                return
            hit, out = got
            if kind == "collimate":
                want = ref.mul(side, nn)
            else:
                want = ref.unit(ref.sub(ref.along(c, side * f, nn), hit))
                if f < 0:
                    want = ref.mul(-1, want)
            if ref.dist(out, want) > 1e-8:
                return ctx.fail("%s f=%s: ray from %s through (%.3f, %.3f) leaves along %s instead of %s" % (kind, f, obj, u, v, out, want))
            ctx.state(impl.key(out))
    ctx.trace()


def special(tier):
    """every orientation, place, focal length and travel direction"""
    for kind in ("collimate", "focus"):
        for f in FOCALS:
            for ni, n in enumerate(NORMALS):
                for side in (1, -1):
                    for form in (0, 2):
                        yield (kind, f, n, CENTRES[ni % 3], side, form)


def judge_parallel(spec, ctx):
    """parallel light in a given direction meets in one point of the focal plane; parallel to the axis: in the focus"""
    f, n, c, side, tilt = spec
    nn, t, w = axes(n)
    lens = impl.build(("ideal", c, n, 30.0, f))
    d = ref.unit(ref.add(ref.mul(side, nn), ref.mul(tilt, t)))
    spot = ref.add(ref.along(c, side * f, nn), ref.mul(tilt * f, t))
    for u, v in aperture(30.0):
        hit = ref.add(c, ref.add(ref.mul(u, t), ref.mul(v, w)))
        got = shoot(lens, c, nn, side, ref.along(hit, -22.0, d), u, v, ctx)
        if got is None:
            return
        hit, out = got
        want = ref.unit(ref.mul(math.copysign(1.0, f), ref.sub(spot, hit)))
        if ref.dist(out, want) > 1e-8:
            return ctx.fail("f=%s: parallel light of slope %s through (%.3f, %.3f) leaves along %s, not towards %s" % (f, tilt, u, v, out, spot))
        ctx.state(impl.key(out))
    ctx.trace()


def parallel(tier):
    """slopes from exactly axial over nearly axial to a few millionths from the lens plane"""
    for f in FOCALS + (1000.0, 3.0):
        for ni, n in enumerate(NORMALS):
            for side in (1, -1):
                for tilt in (0.0, 1e-4, -1e-3, 0.02, -0.3, 1.1, 5.0, -30.0, 80.0, 600.0, -3e4, 3e5):
                    yield (f, n, CENTRES[ni % 3], side, tilt)


def judge_train(spec, ctx):
    """trains of lenses against the reference tracer"""
    optics, rays, distance = spec
    real = [impl.build(o) for o in optics]
    for p, d in rays:
        st = ref.run(ref.State(p, d), optics, distance)
        r = impl.ray(p, d)
        r.run(distance, real)
        impl.compare(r, st, ctx, what="%s -> %s: " % (p, d))
        if ctx.fails:
            return


def trains(tier):
    """three lenses in a row of all combinations of kinds, both directions, and misses of the aperture"""
    fs = (("ideal", 30.0), ("ideal", -20.0), ("collimate", 25.0), ("focus", 18.0), ("ideal", 120.0))
    for a, b, c in product(fs, fs, fs):
        L = tuple((k, (0.2 * i, 25.0 * i, -0.1 * i), W.tilt((0, 1 - 2 * (i % 2), 0), 0.1 * i, 0.05), 26.0, f) for i, (k, f) in enumerate((a, b, c)))
        rays = [((0.3 * k, -30.0, 0.9 * k - 3), (0.02 * k, 1.0, 0.15 - 0.05 * k)) for k in range(7)] + \
            [((0.3 * k, 90.0, 0.9 * k - 3), (0.02 * k, -1.0, 0.15 - 0.05 * k)) for k in range(7)] + [((20.0, -30.0, 0.0), (-0.1, 1, 0.01))]
        yield (L, tuple(rays), 220.0)


def judge_folded(spec, ctx):
    """lenses met again and again from either side between mirrors, against the reference tracer"""
    optics, rays, distance, limit = spec
    real = [impl.build(o) for o in optics]
    for p, d in rays:
        st = ref.run(ref.State(p, d), optics, distance, limit)
        r = impl.ray(p, d)
        r.run(distance, real, max_interactions=limit)
        impl.compare(r, st, ctx, what="%s -> %s: " % (p, d))
        if ctx.fails:
            return


def folded(tier):
    """one or two lenses of all combinations of kinds between mirrors, started on every side of every element in both directions"""
    fs = (("ideal", 30.0), ("ideal", -20.0), ("collimate", 25.0), ("focus", 18.0), ("focus", -40.0))
    mirrors = (("flat", (0.0, 60.0, 0.0), W.tilt((0, -1, 0), 0.02, 0.01), 90.0), ("flat", (0.0, -50.0, 0.0), W.tilt((0, 1, 0), -0.01, 0.02), 90.0))
    rays = [((0.3 * k - 1, y, 0.9 * k - 3), (0.02 * k, s, 0.12 - 0.05 * k)) for k in range(5) for y in (-30.0, 5.0, 40.0) for s in (1.0, -1.0)]
    for a in fs:
        for s1 in (1, -1):
            A = (a[0], (0.3, -10.0, 0.2), W.tilt((0, s1, 0), 0.03, 0.05), 40.0, a[1])
            for order in ((A,) + mirrors, mirrors + (A,)):
                yield (order, tuple(rays), 700.0, 8)
            for b in fs:
                for s2 in (1, -1):
                    B = (b[0], (-0.2, 25.0, 0.1), W.tilt((0, s2, 0), -0.04, 0.02), 40.0, b[1])
                    yield (mirrors + (A, B), tuple(rays), 700.0, 6)


def spaces(tier):
    return [Space("special", lambda: special(tier), judge_special, note=special.__doc__),
            Space("parallel", lambda: parallel(tier), judge_parallel, note=parallel.__doc__),
            Space("folded", lambda: folded(tier), judge_folded, note=folded.__doc__),
            Space("trains", lambda: trains(tier), judge_train, note=trains.__doc__),
            Space("points", lambda: points(tier), judge, note=points.__doc__)] + contexts.spaces(("ideal", "diverging", "collimate", "focus"))
