import itertools
import math

from mc import impl, ref, worlds as W
from mc.checks.r01 import SPEC8, RAYS8, scale_optic
from mc.core import Space, product

PROPERTY = "O06"
RULE = ("every scene is traced as it is and moved / rotated / mirrored / scaled; the paths must be the moved, rotated, mirrored or scaled "
        "ones; the transformations are the 48 symmetries of the cube, general rotations, translations and scales")


def cube():
    out = []
    for perm in itertools.permutations(range(3)):
        for signs in product((1, -1), (1, -1), (1, -1)):
            out.append(tuple(tuple(signs[i] if perm[i] == j else 0 for j in range(3)) for i in range(3)))
    return out


def rot(axis, angle):
    a = ref.unit(axis)
    c, s = math.cos(angle), math.sin(angle)
    cols = []
    for e in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
        cols.append(ref.add(ref.add(ref.mul(c, e), ref.mul(s, ref.cross(a, e))), ref.mul((1 - c) * ref.dot(a, e), a)))
    return tuple(tuple(cols[j][i] for j in range(3)) for i in range(3))


CUBE = cube()
GENERAL = [rot(a, t) for a in ((1, 2, 3), (-1, 0.3, 0.2), (0.1, 1, -0.1), (0, 0, 1)) for t in (0.4, 1.9, 3.1)]
GENERAL += [tuple(ref.mul(-1, row) for row in GENERAL[k]) for k in (0, 4)]


def lin(M, v):
    return tuple(ref.dot(r, v) for r in M)


def mp(M, s, o, p):
    return ref.add(ref.mul(s, lin(M, p)), o)


def move_tree(t, M, s, o):
    if t[0] in impl.OPS:
        return (t[0], move_tree(t[1], M, s, o), move_tree(t[2], M, s, o))
    if t[0] == "sphere":
        return ("sphere", mp(M, s, o, t[1]), t[2] * s)
    return ("cyl", mp(M, s, o, t[1]), lin(M, t[2]), t[3] * s)


def move(x, M, s, o):
    k = x[0]
    if k == "solid":
        return (k, move_tree(x[1], M, s, o)) + x[2:]
    p = mp(M, s, o, x[1])
    if k == "flat":
        return (k, p, lin(M, x[2]), x[3] * s)
    if k in ("rect", "detector"):
        return (k, p, lin(M, x[2]), lin(M, x[3]), x[4] * s, x[5] * s)
    if k == "grating":
        return (k, p, lin(M, x[2]), lin(M, x[3]), x[4] * s, x[5] * s, x[6])
    if k == "dmd":
        return (k, p, lin(M, x[2]), lin(M, x[3]), x[4] * s, x[5] * s, lin(M, x[6]))
    if k in ("concave", "ideal", "collimate", "focus"):
        return (k, p, lin(M, x[2]), x[3] * s, x[4] * s)
    if k == "convex":
        return (k, p, x[2] * s)
    if k == "ball":
        return (k, p, x[2] * s, x[3])
    return (k, p, lin(M, x[2]))


ID = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def judge(spec, ctx):
    """the implementation's fixed clearances (1e-9, and 1e-8 to look up the index) grow relative to a shrinking scene"""
    smallest = min(s for _, s, _ in spec[3])
    keep = ref.EPS
    try:
        if smallest < 1e-4:
            ref.EPS = max(keep, 5e-8 / smallest)
        judge_(spec, ctx)
    finally:
        ref.EPS = keep


def judge_(spec, ctx):
    optics, rays, distance, transforms = spec
    base = [impl.build(x) for x in optics]
    ref_paths = []
    for p, d, wl, m in rays:
        st = ref.run(ref.State(p, d, wl, m), optics, distance)
        r = impl.ray(p, d, wl, m)
        r.run(distance, base)
        ref_paths.append((st, r))
    for M, s, o in transforms:
        moved = [impl.build(move(x, M, s, o)) for x in optics]
        size = s * 100 + ref.norm(o)
        for (p, d, wl, m), (st, r) in zip(rays, ref_paths):
            q = impl.ray(mp(M, s, o, p), lin(M, d), wl, m)
            q.run(distance * s, moved)
            a, b = impl.hist(r), impl.hist(q)
            ctx.step(len(b) - 1)
            n = len(a)
            if st.trust is not None:
                ctx.skip("compared only up to a decision that hinges on a margin")
                n = min(st.trust, n)
                if len(b) < n:
                    return ctx.fail("path %s becomes %s" % (impl.short(a), impl.short(b)))
            elif len(b) != n:
                return ctx.fail("transform %s scale %s shift %s: path %s becomes %s" % (M, s, o, impl.short(a), impl.short(b)))
            for x, y in zip(a[:n], b[:n]):
                if ref.dist(mp(M, s, o, x), y) > 1e-7 * size:
                    return ctx.fail("transform %s scale %s shift %s: %s should become %s but is %s (%s)" % (M, s, o, x, mp(M, s, o, x), y, st.labels))
            if st.trust is None:
                ctx.trace()
                ctx.state(impl.key(b))
                if bool(r.blocked) != bool(q.blocked):
                    return ctx.fail("absorbed=%s becomes %s" % (r.blocked, q.blocked))
                if ref.dist(lin(M, impl.tup(r.direction)), impl.tup(q.direction)) > 1e-6:
                    return ctx.fail("transform %s scale %s shift %s: direction %s becomes %s" % (M, s, o, r.direction, q.direction))


ZERO = (0.0, 0.0, 0.0)
SYMS = [(M, 1.0, ZERO) for M in CUBE[1:]]
GEN = [(M, 1.0, ZERO) for M in GENERAL]
SHIFTS = [(ID, 1.0, o) for o in ((100.0, 0.0, 0.0), (0.0, -250.0, 0.0), (0.0, 0.0, 31.0), (-700.0, 400.0, -900.0), (0.001, 0.002, -0.003))]
SCALES = [(ID, s, ZERO) for s in (1e-4, 1e-3, 0.05, 0.5, 2.0, 10.0, 33.3, 150.0, 1e3)]
EXTREME = [(M, s, ZERO) for s in (1e-5, 3e-6, 1e-6, 4e3, 1e4, 3e4) for M in (ID, GENERAL[0])]
MIXED = [(M, s, o) for M in (CUBE[5], CUBE[22], GENERAL[0], GENERAL[-1]) for s in (0.1, 1.0, 20.0) for o in ((50.0, -20.0, 10.0), (-3.0, 1.0, 200.0))]
RAYS = W.FORWARD + W.BACKWARD[:1] + W.MIDDLE[:2] + W.INSIDE[:1] + W.SIDE[:1]


def singles(tier):
    """every kind under all transformations"""
    for name in W.NAMES:
        for f in range(3):
            for group in (SYMS[:16], SYMS[16:32], SYMS[32:], GEN, SHIFTS + SCALES, MIXED):
                yield ((W.optic(name, 0, f),), tuple(RAYS), 130.0, tuple(group))


def pairs(tier):
    """every pair of kinds under a rotating selection of the transformations (thorough: all of them)"""
    everything = SYMS + GEN + SHIFTS + SCALES + MIXED
    for i, (a, b) in enumerate(product(W.NAMES, W.NAMES)):
        group = everything if tier == "thorough" else everything[i % 11::11]
        yield ((W.optic(a, 0, 0), W.optic(b, 1, 1)), tuple(RAYS[:5]), 200.0, tuple(group))


def crowd(tier):
    """the scene of eight optics under every transformation"""
    for group in (SYMS[:12], SYMS[12:24], SYMS[24:36], SYMS[36:], GEN, SHIFTS, SCALES, MIXED):
        for k in range(0, len(RAYS8)):
            yield (tuple(SPEC8), (RAYS8[k],), 300.0, tuple(group))


def rims(tier):
    """every flat aperture, met within 2e-5 of its edges and corners, under all transformations"""
    c, n = (0.0, 30.0, 0.0), (0.1, -1.0, 0.2)
    nn = ref.unit(n)
    t = W.frame(nn, (0.31, 0.17, 0.93))
    v = ref.cross(nn, t)
    h, w = 9.0, 14.0
    made = [("rect", c, n, t, h, w), ("detector", c, n, t, h, w), ("grating", c, n, t, h, w, 300.0), ("dmd", c, n, t, h, w, W.tilt(n, 0.2)),
            ("flat", c, n, h), ("ideal", c, n, h, 25.0), ("concave", c, n, h, 40.0), ("focus", c, n, h, 25.0)]
    e = 2e-5
    for x in made:
        spots = []
        if x[0] in ("rect", "detector", "grating", "dmd"):
            for q in (1 - e, 1 + e):
                spots += [(s * q * h / 2, k * w / 2) for s in (1, -1) for k in (-1 + e, -0.7, 0.0, 0.4, 1 - e)]
                spots += [(k * h / 2, s * q * w / 2) for s in (1, -1) for k in (-1 + e, -0.7, 0.0, 0.4, 1 - e)]
        else:
            for q in (1 - e, 1 + e):
                spots += [(q * h / 2 * math.cos(0.3 + k * 0.785), q * h / 2 * math.sin(0.3 + k * 0.785)) for k in range(8)]
        rays = []
        for a, b in spots:
            target = ref.add(c, ref.add(ref.mul(a, t), ref.mul(b, v)))
            start = (0.3, 2.0, -0.2)
            rays.append((start, ref.sub(target, start), 532, 1))
        for group in (SYMS[:12], SYMS[12:24], SYMS[24:36], SYMS[36:], GEN, SHIFTS + SCALES, MIXED):
            for k in range(0, len(rays), 10):
                yield ((x,), tuple(rays[k:k + 10]), 61.0, tuple(group if tier == "thorough" else group[::2]))


def extremes(tier):
    """every kind, alone and in the crowd, in scenes shrunk to micrometres and blown up to kilometres"""
    for name in W.NAMES:
        for f in range(3):
            for group in EXTREME:
                yield ((W.optic(name, 0, f),), tuple(RAYS), 130.0, (group,))
    for group in EXTREME:
        for ray in RAYS8:
            yield (tuple(SPEC8), (ray,), 300.0, (group,))


def spaces(tier):
    return [Space(f.__name__, (lambda f=f: f(tier)), judge, note=(f.__doc__ or "").strip()) for f in (singles, rims, crowd, extremes, pairs)]
