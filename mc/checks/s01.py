import itertools
import math

import numpy as np

from mc import impl, ref
from mc.core import Space, product

PROPERTY = "S01"
RULE = ("every combination of size, angle, resolutions, plane and pattern diameter of the object grid; every script of random draws over "
        "a small alphabet (with zeros, tiny and huge values), the generator of random numbers being replaced by the script")
ASSUMPTIONS = ["grid positions within 1e-9 of the pattern's edge may have either wavelength",
               "numbers drawn by other means than numpy.random.normal/standard_normal/randn are not scripted; the bundle is judged all the same"]
GO, OP = impl.GO, impl.OP


def samples(extent, n):
    return [0.0] if n == 1 else [-extent + 2.0 * extent * k / (n - 1) for k in range(n)]


def judge_grid(spec, ctx):
    y, size, angle, nx, nz, na, d, default = spec
    args = (y,) if default else (y, size, angle, nx, nz, na)
    kw = {} if default else dict(pattern_d=d)
    res = GO.image_rays(*args, **kw)
    ctx.step()
    origins, dirs, waves = res
    want = [((x, float(y), z), (0.0, math.cos(a), math.sin(a)))
            for x in samples(size / 2, nx) for z in samples(size / 2, nz) for a in samples(angle, na)]
    if not len(origins) == len(dirs) == len(waves) == len(want):
        return ctx.fail("%s: %d origins, %d directions, %d wavelengths for %d rays" % (spec, len(origins), len(dirs), len(waves), len(want)))
    at = 1e-10 * (1 + abs(size) + abs(y))
    unit = lambda v, q=1e-11: tuple(round(c / q) for c in v)
    pool = {}
    for o, v in want:
        pool.setdefault((unit(o, at), unit(v)), []).append((o, v))
    keys = [(dx, dy) for dx in itertools.product((0, -1, 1), repeat=3) for dy in itertools.product((0, -1, 1), repeat=3)]
    for o, v, w in zip(origins, dirs, waves):
        o, v = impl.tup(o), impl.tup(v)
        ko, kv = unit(o, at), unit(v)
        for dx, dy in keys:
            k = (tuple(map(sum, zip(ko, dx))), tuple(map(sum, zip(kv, dy))))
            if pool.get(k):
                eo, ev = pool[k].pop()
                break
        else:
            return ctx.fail("%s: a ray from %s towards %s is not part of the bundle, or there twice" % (spec, o, v))
        if ref.dist(o, eo) > 1e-9 * (1 + abs(size) + abs(y)) or ref.dist(v, ev) > 1e-10:
            return ctx.fail("%s: a ray from %s towards %s instead of %s, %s" % (spec, o, v, eo, ev))
        r = math.hypot(eo[0], eo[2])
        if abs(r - d / 2) > 1e-9 and float(w) != (680.0 if r < d / 2 else 450.0):
            return ctx.fail("%s: wavelength %s at %s" % (spec, w, eo))
    ctx.trace()
    ctx.state(nx, nz, na, impl.key(tuple(map(float, waves))))
    # the arrays are the caller's own: changing one changes no other ray and no later bundle
    if len(want) > 1:
        keep = [impl.tup(x) for x in origins[1:]] + [impl.tup(x) for x in dirs[1:]]
        for first in (origins[0], dirs[0]):
            if isinstance(first, np.ndarray) and first.flags.writeable:
                first *= 0
        if [impl.tup(x) for x in origins[1:]] + [impl.tup(x) for x in dirs[1:]] != keep:
            return ctx.fail("%s: rays of the bundle share their arrays" % (spec,))


def judge_reject(spec, ctx):
    ctx.step()
    ctx.trace()
    nx, nz, na = spec
    ctx.state(spec)
    try:
        GO.image_rays(3.0, 10, 0.2, nx, nz, na)
    except Exception:
        return
    ctx.fail("resolutions %s are accepted" % (spec,))


class Script:
    """stands in for numpy's random number functions"""
    def __init__(self, values):
        self.values = iter(values)
        self.k = 0

    def one(self):
        v = next(self.values, None)
        if v is None:  # afterwards: a never repeating sequence
            self.k += 1
            v = math.sin(1.7 * self.k) + 0.31 * math.cos(0.37 * self.k * self.k)
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return loc + scale * self.one()
        n = int(np.prod(size))
        return loc + scale * np.array([self.one() for _ in range(n)]).reshape(size)

    def standard_normal(self, size=None, *a, **k):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape or None)


def judge_marker(spec, ctx):
    script, N, R, center, before = spec
    saved = np.random.normal, np.random.standard_normal, np.random.randn
    s = Script(script)
    np.random.normal, np.random.standard_normal, np.random.randn = s.normal, s.standard_normal, s.randn
    c = np.array(center)
    rays = [object() for _ in range(before)]
    keep = list(rays)
    try:
        out = OP.add_faerie_fire_rays(rays, R, c, N=N) if N is not None else OP.add_faerie_fire_rays(rays, R, c)
    finally:
        np.random.normal, np.random.standard_normal, np.random.randn = saved
    N = 1000 if N is None else N
    ctx.step(N)
    if out is not None and out is not rays and list(out) != list(rays):
        return ctx.fail("draws %s: returns another list than the one given" % (script,))
    if rays[:before] != keep or len(rays) != before + N:
        return ctx.fail("draws %s: %d rays added to %d instead of %d" % (script, len(rays) - before, before, N))
    if list(c) != list(center):
        return ctx.fail("the centre was changed")
    fc = tuple(map(float, center))
    starts = []
    for ray in rays[before:]:
        p, v = impl.tup(ray.position), impl.tup(ray.direction)
        if not abs(ref.dist(p, fc) - R) <= 1e-9 * (R + ref.norm(fc)):
            return ctx.fail("draws %s: a marker starts at %s, %s from the centre of a sphere of radius %s" % (script, p, ref.dist(p, fc), R))
        if R == 0 and not abs(ref.norm(v) - 1) <= 1e-9:
            return ctx.fail("draws %s: a marker on a sphere without extent has the direction %s" % (script, v))
        if R != 0 and not ref.dist(v, ref.unit(ref.sub(fc, p))) <= 1e-9 * (1 + ref.norm(fc) / R):
            return ctx.fail("draws %s: a marker at %s flies towards %s, not to the centre %s" % (script, p, v, fc))
        if ray.blocked or len(ray.point_history) != 1:
            return ctx.fail("draws %s: a marker has already flown" % (script,))
        starts.append(p)
    ctx.trace()
    ctx.state(impl.key(tuple(starts[:3])))
    if R and not script and len(set(starts)) != N:
        return ctx.fail("the draws are all different but some markers coincide")
    # they are marker rays: the first surface ends them, undeflected
    for ray in [rays[before + i] for i in sorted({0, 1, N // 3, N // 2, 999, 1000, 1023, 1024, N - 2, N - 1}) if 0 <= i < N and R]:
        v = impl.tup(ray.direction)
        n = np.array(ref.unit(ref.add(v, (0.1, 0.2, -0.05))))
        ray.run(1.5 * R, [OP.Mirror(c + np.array(v) * 0.25 * R, normal=n, D=R)])
        ctx.step()
        if not ray.blocked or ref.dist(impl.tup(ray.direction), v) > 1e-9 or ref.dist(impl.tup(ray.position), ref.along(fc, 0.25 * R, v)) > 1e-6 * (R + ref.norm(fc)):
            return ctx.fail("an added ray does not behave as a marker: it ends at %s, direction %s" % (ray.position, ray.direction))


def grids(tier):
    """sizes x angles x resolutions x planes x pattern diameters, and the defaults"""
    yield (3.0, 10, 0.2, 11, 11, 3, 5, True)
    yield (-41, 10, 0.2, 11, 11, 3, 5, True)
    res = list(product((1, 2, 3, 6), (1, 2, 5), (1, 2, 3, 4)))
    if tier == "thorough":
        res = list(product((1, 2, 3, 4, 7, 11), (1, 2, 3, 5, 8), (1, 2, 3, 4, 7)))
    for size, angle, y, d in product((10, -4.0, 1e-6, 1e5), (1.6, 2.0, 3.14159, 4.0, -0.3, 1e-3, 1e-7, 7.0), (0, 12), (5, 0, 1e-7, 3e5)):
        for nx, nz, na in ((1, 1, 2), (2, 1, 3), (1, 2, 4), (3, 3, 5), (2, 2, 1)):
            yield (y, size, angle, nx, nz, na, d, False)
    yield (-2.0, 8, 0.1, 151, 151, 1, 5, False)
    yield (2.0, 8, 0.1, 3, 2, 4500, 5, False)
    if tier == "thorough":
        yield (-2.0, 8, 0.1, 260, 270, 2, 5, False)
    for n in (12, 33, 64, 101, 257):
        yield (2.0, 10, 0.2, n, 2, 1, 5, False)
        yield (2.0, 10, 0.2, 1, n, 2, 5, False)
        yield (2.0, 10, 0.2, 2, 1, n, 5, False)
    for size, angle, y, d in product((10, 1.5, 0), (0.2, 1.2, 0.0), (0, -33.3), (5, 0.9, 40.0)):
        for nx, nz, na in res:
            yield (y, size, angle, nx, nz, na, d, False)


def rejects(tier):
    """every combination with at least one resolution below one"""
    for r in product((-3, -1, 0, 1, 2), (-3, -1, 0, 1, 2), (-3, -1, 0, 1, 2)):
        if min(r) < 1:
            yield r


def markers(tier):
    """all scripts of six draws over {0, 1, -2, 1e-9} (nine over {0, 1}) for one to three rays, spheres of several sizes"""
    for N in (999, 1001, 1024, 2500, 4100) + ((10001, 70000) if tier == "thorough" else ()):
        yield ((), N, 10.0, (1.0, 2.0, 3.0), N % 3)
    for N in (0, 1, 2, 5, 40, None):
        for R, c in ((10.0, (0.0, 0.0, 0.0)), (0.3, (5.0, -2.0, 80.0)), (7, (1, 2, 3)), (0, (1, -2, 3)), (0.0, (0.5, -2.0, 3.0)), (1e6, (0, 0, 0)), (1e-6, (0.1, 0.2, 0.3))):
            for before in (0, 3):
                yield ((), N, R, c, before)
    for script in product(*[(0.0, 1.0, -2.0, 1e-9)] * 6):
        yield (script, 2, 6.0, (1.0, 2.0, -3.0), 0)
    for script in product(*[(0.0, 1.0)] * (9 if tier == "quick" else 12)):
        yield (script, 3, 4.0, (0.0, 5.0, 1.0), 1)
    big = (0.0, 1e-300, 1e-7, 3.0, 1e100) if tier == "quick" else (0.0, -0.0, 1e-300, 1e-7, 1e-5, 3.0, -1e100, 38.0)
    for script in product(big, big, big):
        yield (script + (0.0, 0.0, 0.0), 2, 2.5, (0.0, -5.0, 1.0), 0)


def spaces(tier):
    return [Space("grids", lambda: grids(tier), judge_grid, note=grids.__doc__),
            Space("rejects", lambda: rejects(tier), judge_reject, note=rejects.__doc__),
            Space("markers", lambda: markers(tier), judge_marker, timeout=10, note=markers.__doc__)]
