import math

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from mpl_toolkits.mplot3d import proj3d  # noqa: E402

from mc import impl, ref, worlds as W  # noqa: E402
from mc.checks.v01 import ODD, SIGNS  # noqa: E402
from mc.core import Space, product  # noqa: E402

PROPERTY = "D01"
RULE = ("every drawable optic x orientation x position x size is drawn on the Agg back end and rendered from four viewpoints; the projected "
        "paths are carried back onto the reference surface and compared with its aperture; every ordered pair of drawings in one axes; "
        "every combination of axis limits for the equal axes")
ASSUMPTIONS = ["matplotlib's own orthographic projection matrix is trusted", "spheres are judged by their outlines from four viewpoints to 3 %"]
VIEWS = ((30, -60), (15, 25), (-50, 130), (70, 200))


def optic(name, p, n, turn, size):
    """(real optic, reference aperture)"""
    OP = impl.OP
    pos, nn = np.array(p), np.array(n)
    un = ref.unit(tuple(map(float, n)))
    t0 = W.frame(un)
    t = ref.add(ref.mul(math.cos(turn), t0), ref.mul(math.sin(turn), ref.cross(un, t0)))
    h, w = size, 0.6 * size
    disc, rect, ball = ("disc", p, un, size / 2), ("rect", p, un, t, h, w), ("ball", p, size / 2)
    tt = np.array(t)
    if name == "flat":
        return OP.Mirror(pos, normal=nn, D=size), disc
    if name == "concave":
        return OP.Mirror(pos, shape="circular_concave_spherical", normal=nn, D=size, f=3 * size), disc
    if name == "ideal":
        return OP.Lens(pos, normal=nn, D=size, f=2 * size, type="ideal"), disc
    if name == "rect":
        return OP.Mirror(pos, shape="rectangular_flat", normal=nn, tangent=tt, h=h, w=w), rect
    if name == "dmd":
        return OP.Mirror(pos, shape="rectangular_flat", normal=nn, tangent=tt, h=h, w=w, type="dmd", dmd_normal=np.array(ref.add(un, ref.mul(0.2, t)))), rect
    if name == "grating":
        return OP.Grating(pos, nn, tt, h=h, w=w, G=600, order=1), rect
    if name == "detector":
        return OP.Detector(pos, nn, tt, h=h, w=w), rect
    if name == "convex":
        return OP.Mirror(pos, shape="circular_convex_spherical", D=size), ball
    return OP.Lens(pos, shape="spherical", D=size), ball


NAMES = ("flat", "concave", "ideal", "rect", "dmd", "grating", "detector", "convex", "ball")


def freeze(x, depth=0):
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), tuple(x.flat))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return tuple((k, freeze(x[k], depth + 1)) for k in sorted(x))
    if hasattr(x, "__dict__") and depth < 6 and not isinstance(x, type):
        return (type(x).__name__, freeze(impl.data_of(x, ("hit_data",)), depth + 1))
    return repr(x) if isinstance(x, float) else x


def canvas(p, reach):
    plt.close("all")
    fig = plt.figure(figsize=(2, 2), dpi=50)
    ax = fig.add_subplot(projection="3d", proj_type="ortho")
    ax.set_axis_off()
    ax.set_xlim3d(p[0] - reach, p[0] + reach)
    ax.set_ylim3d(p[1] - reach, p[1] + reach)
    ax.set_zlim3d(p[2] - reach, p[2] + reach)
    return fig, ax


def bernstein(ctrl, t):
    n = len(ctrl) - 1
    w = [math.comb(n, i) * t ** i * (1.0 - t) ** (n - i) for i in range(n + 1)]
    return (sum(a * c[0] for a, c in zip(w, ctrl)), sum(a * c[1] for a, c in zip(w, ctrl)))


def polylines(artist):
    """what the artist puts on the page, in the projection's own coordinates"""
    paths = []
    if hasattr(artist, "get_paths"):
        paths = [(q, None) for q in artist.get_paths()]
    elif hasattr(artist, "get_path") and hasattr(artist, "get_patch_transform"):
        paths = [(artist.get_path(), artist.get_patch_transform())]
    elif hasattr(artist, "get_xydata"):
        return [[tuple(map(float, v)) for v in artist.get_xydata()]]
    out = []
    for q, tr in paths:
        if tr is not None:
            q = q.transformed(tr)
        pts = []
        if q.codes is None or not any(c in (q.CURVE3, q.CURVE4) for c in q.codes):
            keep = [True] * len(q.vertices) if q.codes is None else [c != q.CLOSEPOLY for c in q.codes]
            pts = [tuple(map(float, v)) for v, k in zip(q.vertices, keep) if k]
        else:
            last = None
            for v, code in q.iter_segments(curves=True, simplify=False):
                if code == q.CLOSEPOLY:
                    continue
                v = [tuple(map(float, v[i:i + 2])) for i in range(0, len(v), 2)]
                if len(v) == 1:
                    pts.append(v[0])
                else:
                    pts += [bernstein([last] + v, k / 4.0) for k in range(1, 5)]
                last = v[-1]
        out.append(pts)
    return out


class View:
    """the affine map from space to the page"""
    def __init__(self, ax):
        M = ax.get_proj()

        def at(v):
            x, y, _ = proj3d.proj_transform(v[0], v[1], v[2], M)
            return (float(x), float(y))
        self.o = at((0, 0, 0))
        self.c = [tuple(a - b for a, b in zip(at(e), self.o)) for e in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]

    def direct(self, v):
        return tuple(sum(self.c[k][i] * v[k] for k in range(3)) for i in (0, 1))

    def page(self, v):
        d = self.direct(v)
        return (self.o[0] + d[0], self.o[1] + d[1])

    def in_plane(self, q, p, e1, e2):
        """coordinates along e1, e2 of the point of the plane through p that is seen at q (None: seen too nearly edge-on)"""
        a, b, (x, y) = self.direct(e1), self.direct(e2), self.page(p)
        det = a[0] * b[1] - a[1] * b[0]
        if abs(det) < 0.15 * math.hypot(*a) * math.hypot(*b) or abs(det) < 0.02 * max(map(abs, sum(self.c, ()))) ** 2:
            return None
        dx, dy = q[0] - x, q[1] - y
        return ((dx * b[1] - dy * b[0]) / det, (a[0] * dy - a[1] * dx) / det)


def wrong(shape, lines, view):
    """why the polylines are not the aperture of `shape`; None when right, False when the view says nothing"""
    lines = [[q for q in l if math.isfinite(q[0]) and math.isfinite(q[1])] for l in lines]  # collections pad their faces with NaN
    pts = [q for l in lines for q in l]
    if not pts:
        return "nothing is drawn"
    if shape[0] == "ball":
        _, c, R = shape
        cx, cy = view.page(c)
        for k in range(16):
            u = (math.cos(k * math.pi / 8), math.sin(k * math.pi / 8))
            # the support of the projected sphere in page direction u
            want = R * math.sqrt(sum((u[0] * a + u[1] * b) ** 2 for a, b in view.c))
            got = max((x - cx) * u[0] + (y - cy) * u[1] for x, y in pts)
            if not 0.97 * want <= got <= want * (1 + 1e-6) + 1e-12:
                return "the sphere reaches %.4g of its radius in page direction %d" % (got / want, k)
        return None
    p, n = shape[1], shape[2]
    e1 = W.frame(n) if shape[0] == "disc" else shape[3]
    e2 = ref.cross(n, e1)
    flat = [view.in_plane(q, p, e1, e2) for q in pts]
    if flat[0] is None:
        return False
    if shape[0] == "disc":
        R = shape[3]
        sectors = [0.0] * 12
        for a, b in flat:
            r = math.hypot(a, b) / R
            if r > 1.001:
                return "the outline lies at %.4f of the radius" % r
            sectors[int((math.atan2(b, a) / (2 * math.pi) + 1.0) * 12) % 12] = max(sectors[int((math.atan2(b, a) / (2 * math.pi) + 1.0) * 12) % 12], r)
        if min(sectors) < 0.995:
            return "the outline only reaches %s of the radius" % [round(s, 3) for s in sectors]
        return None
    h, w = shape[4], shape[5]
    for a, b in flat:
        if abs(a) > h / 2 + 1e-3 * h or abs(b) > w / 2 + 1e-3 * w:
            return "the outline reaches %.4f h along the tangent and %.4f w across" % (a / h, b / w)
    for s1, s2 in product((1, -1), (1, -1)):
        if min(math.hypot((a - s1 * h / 2) / h, (b - s2 * w / 2) / w) for a, b in flat) > 1e-3:
            return "the outline misses the corner %+d h/2, %+d w/2" % (s1, s2)
    # an outline goes round: consecutive corners are joined by edges
    if len(lines) == 1 and len(lines[0]) >= 4:
        for (a0, b0), (a1, b1) in zip(flat, flat[1:]):
            if abs((a0 + a1) / 2) < 0.4 * h and abs((b0 + b1) / 2) < 0.4 * w and math.hypot((a1 - a0) / h, (b1 - b0) / w) > 0.1:
                return "the outline cuts across the middle"
    return None


def judge_draw(spec, ctx):
    optics, elsewhere = spec
    made = [optic(*o) for o in optics]
    fig, ax = canvas(optics[0][1], 1.5 * max(o[4] for o in optics))
    parts = []
    frozen = [freeze(impl.data_of(o, ("hit_data",))) for o, _ in made]
    for o, shape in made:
        before = list(ax.get_children())
        o.draw(ax) if not elsewhere else o.draw(ax, view="xyz")
        ctx.step()
        new = [a for a in ax.get_children() if not any(a is b for b in before)]
        if not new:
            return ctx.fail("%s draws nothing" % o)
        parts.append((o, shape, new))
    if [freeze(impl.data_of(o, ("hit_data",))) for o, _ in made] != frozen:
        return ctx.fail("drawing changed an optic: %s" % [o[0] for o in optics])
    seen = [0] * len(parts)
    for elev, azim in VIEWS:
        ax.view_init(elev=elev, azim=azim)
        fig.canvas.draw()
        view = View(ax)
        for k, (o, shape, new) in enumerate(parts):
            lines = [l for a in new for l in polylines(a)]
            bad = wrong(shape, lines, view)
            if bad:
                return ctx.fail("%s %s seen from %s: %s" % (optics[k], "(drawn %d of %d)" % (k + 1, len(parts)), (elev, azim), bad))
            seen[k] += bad is None
    ctx.state(spec)
    if min(seen) < 2:
        ctx.skip("edge-on in too many views")
    else:
        ctx.trace()
    if [freeze(impl.data_of(o, ("hit_data",))) for o, _ in made] != frozen:
        ctx.fail("rendering changed an optic: %s" % [o[0] for o in optics])


def judge_flat_view(spec, ctx):
    p, n, view = spec
    plt.close("all")
    fig, ax = plt.subplots(figsize=(1, 1), dpi=40)
    o = impl.OP.Mirror(np.array(p), normal=np.array(n), D=9.0)
    frozen = freeze(impl.data_of(o, ("hit_data",)))
    before = list(ax.lines)
    o.draw(ax, view=view)
    fig.canvas.draw()
    ctx.step()
    ctx.trace()
    pts = [tuple(map(float, v)) for l in ax.lines if not any(l is b for b in before) for v in l.get_xydata()]
    pts += [tuple(map(float, v)) for c in ax.collections for v in c.get_offsets()]
    want = (float(p[0]), float(p[1])) if view in ("xy", "tangential") else (float(p[0]), float(p[2]))
    ctx.state(view, tuple(pts))
    if not pts or any(math.hypot(x - want[0], y - want[1]) > 1e-9 * (1 + abs(x) + abs(y)) for x, y in pts):
        return ctx.fail("mirror at %s in the %s view is marked at %s, expected %s" % (p, view, pts, want))
    if freeze(impl.data_of(o, ("hit_data",))) != frozen:
        ctx.fail("drawing changed the mirror")


def judge_equal(spec, ctx):
    import general
    limits, = spec
    plt.close("all")
    fig = plt.figure(figsize=(1, 1), dpi=40)
    ax = fig.add_subplot(projection="3d")
    ax.set_xlim3d(limits[0])
    ax.set_ylim3d(limits[1])
    ax.set_zlim3d(limits[2])
    was = [tuple(map(float, f())) for f in (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d)]
    general.set_axes_equal(ax)
    now = [tuple(map(float, f())) for f in (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d)]
    ctx.step()
    ctx.trace()
    span = max(abs(b - a) for a, b in was)
    ctx.state(tuple(round(x, 6) for l in now for x in l))
    for k in range(3):
        if abs(sum(now[k]) - sum(was[k])) > 1e-9 * (1 + abs(sum(was[k])) + span):
            return ctx.fail("limits %s: the centre of axis %d moves from %s to %s" % (was, k, was[k], now[k]))
        if abs(abs(now[k][1] - now[k][0]) - span) > 1e-9 * (1 + span):
            return ctx.fail("limits %s: axis %d spans %s, not %s" % (was, k, now[k], span))


def singles(tier):
    """every drawable kind x lattice and odd normals (with nearly axis-parallel ones) x turns of the tangent x positions and sizes"""
    normals = SIGNS + ODD + [(1e-9, 0.0, 1.0), (0.0, 1e-6, -1.0), (1e-4, -1e-4, -1.0), (0.007, 0.011, 1.0), (-0.012, 0.005, -1.0), (0.05, 1.0, -0.03), (-1.0, 0.03, 0.02),
                               (0.03, 1.0, -0.015), (0.02, -1.0, 0.035), (0.004, 1.0, 0.006), (1.0, 0.02, -0.03), (1.0, 0.005, 0.003), (-0.03, 0.025, 1.0), (0.02, -0.03, -1.0)]
    places = [((0.0, 0.0, 0.0), 10.0), ((30, -200, 7), 25)] + ([((-1e4, 50.0, 0.3), 3.7)] if tier == "thorough" else [])
    turns = (0.0, 0.9, 2.2) if tier == "quick" else tuple(k * 0.35 for k in range(9))
    for name in NAMES:
        for p, size in places:
            for n in normals if name not in ("convex", "ball") else normals[:2]:
                for turn in turns if name in ("rect", "dmd", "grating", "detector") else turns[:1]:
                    yield (((name, p, n, turn, size),), False)


def sizes(tier):
    """every drawable kind in sizes from a tenth of a millimetre to ten metres"""
    for name in NAMES:
        for k, size in enumerate((0.1, 1.0, 5.5, 50.8, 63.0, 100.0, 250.0, 999.0, 1e4)):
            for n in ((0, 0, 1), (0.3, -1.0, 0.2)) if tier == "thorough" else (((0, 0, 1), (0.3, -1.0, 0.2))[k % 2],):
                yield (((name, (1.0, -2.0, 30.0), n, 0.4, size),), False)


def pairs(tier):
    """every ordered pair of kinds, and every kind drawn twice, in one axes and with the other name of the view"""
    for a, b in product(NAMES, NAMES):
        yield (((a, (1.0, 2.0, 3.0), (0.3, -1.0, 0.2), 0.4, 10.0), (b, (4.0, 9.0, 1.0), (1, 2, -2), 1.3, 8.0)), True)
        if tier == "thorough":
            yield (((a, (1.0, 2.0, 3.0), (0, 0, -1), 0.4, 10.0), (b, (1.0, 2.0, 3.0), (0, 0, 1), 2.3, 10.0), (a, (-4.0, 9.0, 1.0), (1, 2, -2), 1.3, 8.0)), False)


def judge_again(spec, ctx):
    """the same optic drawn several times, in one axes and in others, before and after the figures are rendered or closed: every drawing is whole"""
    o, plan, light = spec
    made, shape = optic(*o)
    n = 1 + max(plan)
    c = impl.arr(o[1])
    for k in range(light):  # light meets it first, from either side
        r = impl.ray(c + impl.arr((0.01 * k, 0.3, 50.0 * (-1) ** k)), (0.0, 0.003 * (k % 5), -(-1.0) ** k), 500 + k, 0)
        r.run(80.0, [made])
    figs = [plt.figure(figsize=(2, 2), dpi=50) for _ in range(n)]
    axes = []
    try:
        for f in figs:
            ax = f.add_subplot(projection="3d", proj_type="ortho")
            ax.set_axis_off()
            for lim, c in zip((ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d), o[1]):
                lim(c - 1.5 * o[4], c + 1.5 * o[4])
            axes.append(ax)
        for k, which in enumerate(plan):
            ax = axes[which]
            before = list(ax.get_children())
            made.draw(ax)
            new = [a for a in ax.get_children() if not any(a is b for b in before)]
            ctx.step()
            right = 0
            for elev, azim in VIEWS:
                ax.view_init(elev=elev, azim=azim)
                figs[which].canvas.draw()
                bad = wrong(shape, [l for a in new for l in polylines(a)], View(ax)) if new else "nothing is drawn"
                if bad:
                    return ctx.fail("%s, drawing %d of the axes %s, seen from %s: %s" % (o, k + 1, plan, (elev, azim), bad))
                right += bad is None
            ctx.state(o, plan, k, right)
        ctx.trace()
    finally:
        for f in figs:
            plt.close(f)


def again(tier):
    """every kind x every plan of two or three drawings over two axes (thorough: up to four over three)"""
    for i, name in enumerate(NAMES):
        for n in (2, 3) + ((4,) if tier == "thorough" else ()):
            for plan in product(*[range(2 if n < 4 else 3)] * n):
                if plan[0] == 0:
                    yield ((name, (1.0, 2.0, 3.0), ((0.3, -1.0, 0.2), (1, 2, -2), (0, 0, 1))[(i + n) % 3], 0.4, 10.0), plan, 0)
        for light in (1, 2, 10, 33, 100, 1000):
            yield ((name, (1.0, 2.0, 3.0), (0.3, -1.0, 0.2), 0.4, 10.0), (0,), light)


def patches(tier):
    """discs turned and displaced by the patch helpers: every lattice and odd normal and the named axes x displacements along z and in space, two in one axes"""
    for n in SIGNS + ODD + ["x", "y", "z"]:
        for z in (0, 3.5, -20.0):
            for delta in (None, (1.0, -2.0, 4.5)):
                yield (((n, 5.0, z, delta), ((0.3, -1.0, 0.2), 3.0, 2 - z, (0.5, 0, 1))),)


def judge_patches(spec, ctx):
    from matplotlib.patches import Circle
    from general_optics import pathpatch_2d_to_3d, pathpatch_translate
    fig, ax = canvas((0.0, 0.0, 0.0), 30.0)
    parts = []
    for n, R, z, delta in spec[0]:
        p = Circle((0, 0), R)
        ax.add_patch(p)
        if z == 0 and n == "z":
            pathpatch_2d_to_3d(p)
        else:
            pathpatch_2d_to_3d(p, z=z, normal=n if isinstance(n, str) else np.array(n))
        if delta is not None:
            pathpatch_translate(p, delta)
        c = ref.add((0.0, 0.0, float(z)), tuple(map(float, delta or (0, 0, 0))))
        parts.append((p, ("disc", c, {"x": (1.0, 0.0, 0.0), "y": (0.0, 1.0, 0.0), "z": (0.0, 0.0, 1.0)}[n] if isinstance(n, str) else ref.unit(tuple(map(float, n))), R)))
        ctx.step()
    for elev, azim in VIEWS:
        ax.view_init(elev=elev, azim=azim)
        fig.canvas.draw()
        view = View(ax)
        for p, shape in parts:
            bad = wrong(shape, polylines(p), view)
            ctx.trace()
            if bad:
                return ctx.fail("a disc turned to %s and displaced to %s: %s (seen from %s)" % (shape[2], shape[1], bad, (elev, azim)))
    ctx.state(spec)


def crowds(tier):
    """many optics of one kind, and of all kinds in turn, in one axes"""
    many = 60 if tier == "quick" else 160
    for name in NAMES + ("all",):
        yield (tuple((NAMES[k % len(NAMES)] if name == "all" else name, (7.0 * math.cos(1.1 * k), 5.0 * math.sin(2.3 * k), 0.2 * k), (SIGNS + ODD)[k % 32], 0.3 * k, 10.0) for k in range(many)), False)


def flat_views(tier):
    """disc mirrors in all four two-dimensional views"""
    for p in product((0.0, 3.0, -250.5), (0, 7.25), (-1.0, 12)):
        for n in SIGNS if tier == "thorough" else SIGNS[:4]:
            for view in ("xy", "tangential", "xz", "sagittal"):
                yield (p, n, view)


def equals(tier):
    """all combinations of axis limits out of six (ten) ranges, with reversed ones"""
    ranges = ((0.0, 1.0), (-3.0, 5.0), (100.0, 101.5), (-2000.0, -500.0), (4.0, -4.0), (1e-3, 2e-3))
    if tier == "thorough":
        ranges += ((1e6, 1e6 + 1), (-0.5, 0.5), (7.0, 2.0), (-1e5, 1e5))
    for l in product(ranges, ranges, ranges):
        yield (l,)


def spaces(tier):
    all_ = [("sizes", sizes, judge_draw), ("singles", singles, judge_draw), ("pairs", pairs, judge_draw), ("crowds", crowds, judge_draw), ("again", again, judge_again), ("patches", patches, judge_patches), ("flat_views", flat_views, judge_flat_view), ("equal_axes", equals, judge_equal)]
    return [Space(n, (lambda g=g: g(tier)), j, note=g.__doc__) for n, g, j in all_]
