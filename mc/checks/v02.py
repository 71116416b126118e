import math

import numpy as np

from mc import impl, ref
from mc.checks.v01 import FORMS, ODD, SIGNS
from mc.core import Space, product

PROPERTY = "V02"
RULE = ("every matrix helper on every argument of lattices, fans of nearly equal and nearly opposite directions, magnitudes and container "
        "types: orthogonality, determinant, action on a spanning set and on points, composition, repeatability and unaltered arguments")
GO = impl.GO
TOL = 1e-9


def rows(M, n):
    M = np.asarray(M)
    assert M.shape == (n, n), "shape %s" % (M.shape,)
    return [[float(x) for x in r] for r in M]


def apply(M, v):
    return tuple(sum(r[j] * v[j] for j in range(len(v))) for r in M)


def transpose(M):
    return [list(c) for c in zip(*M)]


def det3(M):
    return ref.dot(tuple(M[0]), ref.cross(tuple(M[1]), tuple(M[2])))


def judge_kept(spec, ctx):
    """matrices stay what they were while others are made"""
    made = []
    for name, args in spec[0]:
        M = getattr(GO, name)(*(np.array(a) if isinstance(a, (tuple, list)) else a for a in args))
        made.append((name, args, M, rows(M, len(M))))
        ctx.step()
        for n, a, old, was in made:
            if rows(old, len(was)) != was:
                return ctx.fail("%s%r turned from %s into %s when %s%r was called" % (n, a, was, rows(old, len(was)), name, args))
        ctx.state(impl.key(tuple(map(tuple, made[-1][3]))))
    ctx.trace()


def kept(tier):
    """all sequences of three (thorough: four) of eighteen calls"""
    calls = [("translation_matrix4", (v,)) for v in ((1.0, 2.0, 3.0), (0.0, 0.0, 0.0), (-4.0, 0.5, 0.0))]
    calls += [("scaling_matrix4", (v,)) for v in ((1.0, 2.0, 3.0), (1.0, 1.0, 1.0), (-4.0, 0.5, 2.0))]
    for f in ("rotation_matrix", "rotation_matrix2", "rotation_matrix4"):
        calls += [(f, (a, b)) for a, b in (((0.0, 0.0, 1.0), (0.0, 0.6, 0.8)), ((1.0, 0.0, 0.0), (1.0, 0.0, 0.0)), ((0.0, 1.0, 0.0), (0.0, -1.0, 0.0)))]
    calls += [("rotation_matrix_axis_angle", (a, th)) for a, th in (((0.0, 0.0, 1.0), 0.3), ((0.6, 0.0, 0.8), 0.0), ((1.0, 0.0, 0.0), -2.0))]
    for s in product(*[calls] * (3 if tier == "quick" else 4)):
        yield (s,)


def scribble(raw):
    """a caller may do what it likes with a result"""
    if isinstance(raw, np.ndarray) and raw.flags.writeable:
        raw[...] = 7.0


def bad_rotation(M):
    if not all(math.isfinite(x) for r in M for x in r):
        return "not finite"
    for i in range(3):
        for j in range(3):
            if abs(sum(M[i][k] * M[j][k] for k in range(3)) - (i == j)) > TOL:
                return "not orthogonal"
    if abs(det3(M) - 1.0) > TOL:
        return "determinant %r" % det3(M)


def far(a, b, tol=TOL):
    return not all(abs(x - y) <= tol for x, y in zip(a, b))


def turned(v, axis, theta):
    """Rodrigues by components"""
    along = ref.mul(ref.dot(v, axis), axis)
    p = ref.sub(v, along)
    return ref.add(along, ref.add(ref.mul(math.cos(theta), p), ref.mul(math.sin(theta), ref.cross(axis, p))))


BASIS = ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.3, -2.0, 0.7))


def judge_axis(spec, ctx):
    axis, s, form, thetas = spec
    u = ref.unit(tuple(map(float, axis)))
    arg = FORMS[form](tuple(s * x for x in axis))
    keep = list(arg)
    for th in thetas:
        raw = GO.rotation_matrix_axis_angle(arg, th)
        M = rows(raw, 3)
        ctx.step()
        ctx.state(impl.key(tuple(map(tuple, M))))
        if bad_rotation(M):
            return ctx.fail("rotation about %r by %r is no rotation: %s" % (arg, th, bad_rotation(M)))
        for v in BASIS + (u,):
            if far(apply(M, v), turned(v, u, th)):
                return ctx.fail("rotation about %r by %r takes %s to %s, expected %s" % (arg, th, v, apply(M, v), turned(v, u, th)))
        scribble(raw)
        for ph in thetas[::3]:
            A, B = rows(GO.rotation_matrix_axis_angle(arg, ph), 3), rows(GO.rotation_matrix_axis_angle(arg, th + ph), 3)
            ctx.step(2)
            for v in BASIS[:3]:
                if far(apply(M, apply(A, v)), apply(B, v)):
                    return ctx.fail("rotations about %r by %r and %r do not add" % (arg, th, ph))
        ctx.trace()
    if list(arg) != keep:
        ctx.fail("rotation_matrix_axis_angle changed its axis")


def judge_align(spec, ctx):
    a, others, sa, sb, form = spec
    for b in others:
        va, vb = FORMS[form](tuple(sa * x for x in a)), FORMS[(form + (sa != sb)) % 4](tuple(sb * x for x in b))
        if sa == sb and list(va) == list(vb):
            vb = va
        ka, kb = list(va), list(vb)
        ua, ub = ref.unit(tuple(map(float, a))), ref.unit(tuple(map(float, b)))
        first = None
        for name, f, n in (("rotation_matrix2", GO.rotation_matrix2, 3), ("rotation_matrix", GO.rotation_matrix, 3),
                           ("rotation_matrix4", GO.rotation_matrix4, 4), ("rotation_matrix2", GO.rotation_matrix2, 3)):
            raw = f(va, vb)
            M = rows(raw, n)
            ctx.step()
            if list(va) != ka or list(vb) != kb:
                return ctx.fail("%s changed its arguments %s %s into %r %r" % (name, ka, kb, va, vb))
            scribble(raw)
            if n == 4:
                if M[3] != [0.0, 0.0, 0.0, 1.0] or [r[3] for r in M[:3]] != [0.0, 0.0, 0.0]:
                    return ctx.fail("rotation_matrix4(%r, %r) mixes the homogeneous coordinate: %s" % (va, vb, M))
                M = [r[:3] for r in M[:3]]
            bad = bad_rotation(M)
            if bad:
                return ctx.fail("%s(%r, %r) is no rotation: %s" % (name, va, vb, bad))
            got = apply(transpose(M) if name == "rotation_matrix" else M, ua)
            if far(got, ub):
                return ctx.fail("%s(%r, %r) carries the first direction to %s, not to %s" % (name, va, vb, got, ub))
            if name == "rotation_matrix2":
                if first is not None and far(sum(first, []), sum(M, [])):
                    return ctx.fail("rotation_matrix2(%r, %r) gives another rotation the second time" % (va, vb))
                first = M
        ctx.trace()
        ctx.state(impl.key(tuple(map(tuple, first))))


def judge_homogeneous(spec, ctx):
    v, pts, form = spec
    arg = FORMS[form](v)
    keep = list(arg)
    S, T = rows(GO.scaling_matrix4(arg), 4), rows(GO.translation_matrix4(arg), 4)
    ctx.step(2)
    if list(arg) != keep:
        return ctx.fail("scaling or translation changed its argument")
    for p in pts:
        for w in (1.0, 0.0):
            h = tuple(map(float, p)) + (w,)
            scaled, moved = apply(S, h), apply(T, h)
            if not all(abs(scaled[i] - v[i] * p[i]) <= 1e-15 * abs(v[i] * p[i]) for i in range(3)) or scaled[3] != w:
                return ctx.fail("scaling by %r takes %s to %s" % (arg, h, scaled))
            if not all(abs(moved[i] - (p[i] + w * v[i])) <= 1e-15 * (abs(p[i]) + abs(v[i])) for i in range(3)) or moved[3] != w:
                return ctx.fail("translation by %r takes %s to %s" % (arg, h, moved))
            ctx.state(scaled, moved)
    ctx.trace()


NEARLY = (1 + 4e-6, 1 - 4e-6, 1 + 3e-8, 1 - 3e-8, 1 + 2e-4, 1 - 2e-4, 1 + 9e-3, 1 - 9e-3, 1.04, 0.96)  # lengths that are all but one


def axes(tier):
    """lattice axes of every length and container type x a fan of angles over several turns, singly and composed"""
    step = 30 if tier == "quick" else 7.5
    thetas = tuple(math.radians(k * step) for k in range(int(-360 / step), int(360 / step) + 1)) + (1e-9, -1e-4, 7.0, -31.0, 2, 1000.5, -2e4, math.pi / 2 - 1e-6)
    for a in SIGNS + ODD:
        for s, form in ((1, 0), (1, 2), (1, 3), (1e-80, 1), (0.02, 1), (3e90, 1)) if tier == "thorough" else ((1, 0), (1, 2), (0.02, 1)):
            yield (a, s, form, thetas)
        for s, form in ((1e-120, 3), (1e-5, 2), (4e3, 1), (1e120, 3), (20, 0)):
            yield (a, s, form, thetas[::7] + thetas[-8:])
        u = ref.unit(tuple(map(float, a)))
        for s in NEARLY:
            yield (u, s, 1, thetas[::9] + thetas[-8:])


WIDE = ((1e-120, 40, 2), (5e3, 1e120, 3), (1e-4, 2e6, 0), (3, 1, 0), (1, 1, 3))


def pairs(tier):
    """all ordered pairs of lattice directions (with equal and opposite ones) x magnitudes x container types"""
    vs = SIGNS + ODD
    if tier == "thorough":
        vs = [v for v in product(range(-2, 3), range(-2, 3), range(-2, 3)) if any(v)] + ODD
    for a in vs:
        for sa, sb, form in ((1, 1, 0), (1, 1, 3), (2.5, 0.1, 1), (1, 1, 2), (2, 3, 0), (1e120, 1e-120, 1)) + WIDE if tier == "thorough" else ((1, 1, 0), (2.5, 0.1, 1)):
            yield (a, tuple(vs), sa, sb, form)
    if tier != "thorough":
        for k, a in enumerate(vs):
            u = ref.unit(tuple(map(float, a)))
            for j, s in enumerate(NEARLY):
                yield (u, tuple(map(ref.unit, vs[(k + j) % 4::4])) + (u, ref.mul(-1.0, u)), s, (1.0, 2 - s)[j % 2], 1)
            for sa, sb, form in WIDE:
                yield (a, tuple(vs[k % 3::3]) + (a, ref.mul(-1.0, a)), sa, sb, form)


def fine_pairs(tier):
    """directions at angles of 1e-14 to 0.5 from equal, opposite, square and 120 degrees apart"""
    for a in SIGNS + ODD:
        u = ref.unit(tuple(map(float, a)))
        for hint in ((0.3, -0.2, 0.9), (-0.5, 0.7, 0.1)):
            t = ref.unit(ref.cross(u, hint))
            out = []
            for base in (0.0, math.pi / 2, 2 * math.pi / 3, math.pi):
                for e in (0.0, 1e-14, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5):
                    th = base - e
                    c, s = math.cos(th), math.sin(th)
                    if base == math.pi:
                        c, s = -math.cos(e), math.sin(e)
                    out.append(ref.add(ref.mul(c, u), ref.mul(s, t)))
            for sa, sb in ((1.0, 1.0), (40.0, 1e-3)) + (((1e-90, 1e90),) if tier == "thorough" else ()):
                yield (u, tuple(out), sa, sb, 1)


def homogeneous(tier):
    """scaling and translation by lattice vectors and by vectors of many magnitudes, applied to lattice points and directions"""
    grid = (-3, -1, 0, 0.25, 1, 7) if tier == "quick" else (-3, -1, -1e-3, 0, 0.25, 1, 2, 7, 1e6)
    pts = tuple(product((-2, 0, 5), (-1, 0.5, 0), (3, 0, -4)))
    for v in list(product(grid, grid, grid)) + list(product((1e-13, -3e-20, 0.1, 1e15), (2e-9, 1 / 3, -1e9), (0.0, 7e-14, 1e-300, 123456.789012345))) + [
            (1.0 + 1e-9, 0, 0), (0, -1.0 + 1e-8, 1e-5), (1 - 3e-8, 1e-4, 0), (0.6, 0.8 + 1e-8, 0), (1e101, 3.0, -2e120), (-5e130, 1e-140, 0.0)]:
        for form in (1, 2, 3):
            yield (v, pts, form)


def spaces(tier):
    all_ = [("axes", axes, judge_axis), ("pairs", pairs, judge_align), ("fine_pairs", fine_pairs, judge_align),
            ("homogeneous", homogeneous, judge_homogeneous), ("kept", kept, judge_kept)]
    return [Space(n, (lambda g=g: g(tier)), j, note=g.__doc__) for n, g, j in all_]
