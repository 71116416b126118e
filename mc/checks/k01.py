import ast
import math
import os

import numpy as np

from mc import impl, ref, worlds as W
from mc.core import Space, product, repo_dir

PROPERTY = "K01"
RULE = ("the decision table of every constructor: every combination of given, missing, consistent and conflicting parameters is tried "
        "and either fails or yields the derived dimensions; every unknown name is tried wherever a name is taken")
ASSUMPTIONS = ["radius and diameter conflict when they disagree by at least a millionth (absolute and relative); directions are "
               "perpendicular below 1e-12 and not perpendicular above 1e-6"]
SH, OP, GO = impl.SH, impl.OP, impl.GO
FAILED = object()


def attempt(make):
    try:
        return make()
    except Exception:
        return FAILED


ROUND = {
    "circle": lambda c, n, R, D: SH.Circle(c, n, R=R, D=D),
    "sphere": lambda c, n, R, D: SH.Sphere(c, R=R, D=D),
    "infinite cylinder": lambda c, n, R, D: SH.InfiniteCylinder(c, n, R=R, D=D),
    "cylinder": lambda c, n, R, D: SH.Cylinder(c, R=R, D=D, h=3.0),
}


def judge_round(spec, ctx):
    name, c, n, R, D = spec
    got = attempt(lambda: ROUND[name](np.array(c, float), np.array(n, float), R, D))
    ctx.step()
    ctx.trace()
    if R is None and D is None:
        want = FAILED
    elif R is None:
        want = D / 2
    elif D is None or abs(D - 2 * R) <= 1e-12 * max(abs(D), abs(R)):
        want = R
    elif abs(D - 2 * R) >= 1e-6 * max(1.0, abs(D), abs(R)):
        want = FAILED
    else:
        return ctx.skip("neither equal nor clearly conflicting")
    ctx.state(name, want is FAILED, R is None, D is None)
    if (got is FAILED) != (want is FAILED):
        return ctx.fail("%s with R=%r D=%r %s" % (name, R, D, "is refused" if got is FAILED else "is accepted as R=%r D=%r" % (got.R, got.D)))
    if want is not FAILED:
        tol = 1e-7 * max(1e-3, abs(want))
        if got.R is None or got.D is None or not abs(got.R - want) <= tol or not abs(got.D - 2 * want) <= tol:
            return ctx.fail("%s with R=%r D=%r ends up with R=%r D=%r" % (name, R, D, got.R, got.D))


NUMBERS = {"int": int, "float": float, "int64": np.int64, "int32": np.int32, "int8": np.int8, "uint8": np.uint8, "uint16": np.uint16, "float64": np.float64, "float32": np.float32, "0-d": np.array}


def judge_typed(spec, ctx):
    """the size counts, not the type of number it is given in"""
    name, what, value, kind, other = spec
    size = NUMBERS[kind](value)
    double = value * 2 if what == "R" else value / 2
    if other is not None:
        double = NUMBERS[other](double)
        if double != (value * 2 if what == "R" else value / 2):
            return ctx.skip("not a number of that type")
    R, D = (size, None if other is None else double)[::1 if what == "R" else -1]
    got = attempt(lambda: ROUND[name](np.array((1.0, 2.0, 3.0)), np.array((0.0, 1.0, 0.0)), R, D))
    ctx.step()
    ctx.trace()
    ctx.state(spec)
    want = value if what == "R" else value / 2
    if got is FAILED or not abs(float(got.R) - want) <= 1e-6 * want or not abs(float(got.D) - 2 * want) <= 1e-6 * want:
        return ctx.fail("%s with R=%r D=%r %s" % (name, R, D, "is refused" if got is FAILED else "ends up with R=%r D=%r" % (got.R, got.D)))


def judge_round_optic(spec, ctx):
    name, D = spec
    p, n = np.array([1.0, 2.0, 3.0]), np.array([0.0, -1.0, 0.0])
    make = {
        "flat": lambda: OP.Mirror(p, shape="circular_flat", normal=n, D=D),
        "concave": lambda: OP.Mirror(p, shape="circular_concave_spherical", normal=n, D=D, f=20.0),
        "convex": lambda: OP.Mirror(p, shape="circular_convex_spherical", D=D),
        "ideal": lambda: OP.Lens(p, normal=n, D=D, f=20.0, type="ideal"),
        "ball": lambda: OP.Lens(p, shape="spherical", D=D),
    }[name]
    got = attempt(make)
    ctx.step()
    ctx.trace()
    ctx.state(name, D is None, got is FAILED)
    if (got is FAILED) != (D is None):
        return ctx.fail("%s with D=%r %s" % (name, D, "is refused" if got is FAILED else "is accepted"))
    if D is not None:
        for s in got.surfaces:
            if not abs(s.D - 2 * s.R) <= 1e-9 * abs(s.D):
                return ctx.fail("%s with D=%r has a surface with R=%r D=%r" % (name, D, s.R, s.D))
        # the size it acts with
        for q in (0.5, 0.99, 1.01, 1.5):
            x = ref.add((1.0, 2.0, 3.0), (q * D / 2, 30.0 + D, 0.0))
            hit = bool(got.test_intersect(impl.ray(x, (0.0, -1.0, 0.0)))[0])
            if hit != (q < 1) and not (name == "concave" and D > 79):
                return ctx.fail("%s of D=%r %s at %s of its radius" % (name, D, "is hit" if hit else "is missed", q))


RECT = {
    "rectangle": lambda c, n, t, h, w: SH.Rectangle(c, n, t, h=h, w=w),
    "mirror": lambda c, n, t, h, w: OP.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w),
    "grating": lambda c, n, t, h, w: OP.Grating(c, n, t, h=h, w=w, G=600, order=1),
    "detector": lambda c, n, t, h, w: OP.Detector(c, n, t, h=h, w=w),
}


def judge_rect(spec, ctx):
    name, c, n, t, h, w = spec
    args = [np.array(c), np.array(n), np.array(t)]
    got = attempt(lambda: RECT[name](*args, h, w))
    ctx.step()
    ctx.trace()
    un, ut = ref.unit(tuple(map(float, n))), ref.unit(tuple(map(float, t)))
    skew = abs(ref.dot(un, ut))
    if 1e-12 < skew < 1e-6:
        return ctx.skip("nearly perpendicular")
    bad = h is None or w is None or h < 0 or w < 0 or skew > 1e-6
    ctx.state(name, h, w, skew > 1e-6)
    if (got is FAILED) != bad:
        return ctx.fail("%s with normal %s tangent %s h=%r w=%r %s" % (name, n, t, h, w, "is refused" if got is FAILED else "is accepted"))
    if bad:
        return
    rect = got if name == "rectangle" else got.surfaces[0]
    u2 = ref.cross(un, ut)
    want = [ref.add(c, ref.add(ref.mul(a * h / 2, ut), ref.mul(b * w / 2, u2))) for a in (1, -1) for b in (1, -1)]
    corners = [impl.tup(x) for x in rect.bounds]
    tol = 1e-9 * (1.0 + h + w)
    if len(corners) != 4:
        return ctx.fail("%s has %d corners" % (name, len(corners)))
    for x in want:
        k = min(corners, key=lambda y: ref.dist(x, y))
        if ref.dist(x, k) > tol:
            return ctx.fail("%s at %s normal %s tangent %s h=%r w=%r has corners %s, expected %s" % (name, c, n, t, h, w, rect.bounds.tolist(), want))
        corners.remove(k)
    for k, v in enumerate((c, n, t)):
        if list(args[k]) != list(v):
            return ctx.fail("%s changed its arguments" % name)


BAD_NAMES = ("", "nonsense", "Circular_Flat", "rectangular", "flat", "circular_flat ", None, 7, "spherical_plano", "reflectrefract", "refract ",
             "Reflect", "square", "circle", "circular", "rectangle", "sphere", "spherical_concave", "circular_concave", "cylindrical", "parabolic", "absorb", "transmit", "snell", "snells_law_", "thinlens", "specular", "Grating", "specular_flat_", "ideal")


def judge_names(spec, ctx):
    where, name = spec
    p, n, t = np.array([0.0, 0.0, 0.0]), np.array([0.0, -1.0, 0.0]), np.array([0.0, 0.0, 1.0])
    full = dict(D=10.0, w=10.0, h=10.0, f=20.0, tangent=t)
    ctx.step()
    ctx.trace()
    ray = impl.ray((0.3, -20.0, 0.2), (0.0, 1.0, 0.0))
    ray.order = 1

    def solid():
        s = OP.Compound(impl.tree(("sphere", (0, 0, 0), 5)), surface_behavior=name)
        ray.run(50.0, [s])
        return s

    grating = OP.Grating(p, n, t, h=10.0, w=10.0, G=600, order=1)
    lens = OP.Lens(p, normal=n, D=10.0, f=20.0, type="ideal")
    make = {
        "mirror shape": lambda: OP.Mirror(p, shape=name, normal=n, **full),
        "lens shape": lambda: OP.Lens(p, shape=name, normal=n, **full),
        "grating shape": lambda: OP.Grating(p, n, t, shape=name, w=10.0, h=10.0, G=600, order=1),
        "detector shape": lambda: OP.Detector(p, n, t, shape=name, w=10.0, h=10.0),
        "solid behaviour": solid,
        "reflection kind": lambda: ray.reflect(reflect_type=name, normal=n, optic=grating, intersection_pt=np.array([0.3, 0.0, 0.2])),
        "refraction kind": lambda: ray.refract(refract_type=name, normal=n, optic=lens, intersection_pt=np.array([0.3, 0.0, 0.2]), eta1=1.0, eta2=1.5),
    }[where]
    got = attempt(make)
    ctx.state(where, name, got is FAILED)
    if got is FAILED and where.endswith("kind"):
        # neither does an absorbed ray, a marker or one that carries nothing get away with it
        ray.blocked, held = True, impl.tup(ray.direction)
        got = attempt(make)
        ray.blocked, ray.type = False, "faerie_fire"
        got = attempt(make) if got is FAILED else got
        ray.type = "light"
    if got is not FAILED:
        ctx.fail("%s %r is accepted" % (where, name))
    elif impl.tup(ray.direction) != (0.0, 1.0, 0.0) and where.endswith("kind"):
        ctx.fail("%s %r fails but turns the ray" % (where, name))


KNOWN = {
    "mirror shape": ("circular_flat", "rectangular_flat", "circular_concave_spherical", "circular_convex_spherical"),
    "lens shape": ("spherical_biconvex", "spherical"), "grating shape": ("rectangular_flat",), "detector shape": ("rectangular_flat",),
    "solid behaviour": ("reflect", "refract"), "reflection kind": ("specular_flat", "grating"),
    "refraction kind": ("thin_lens", "ideal_collimate", "ideal_focus", "snells_law"),
}


def rounds(tier):
    """every round shape x centre x radius/diameter each missing, zero, integer, float, consistent or conflicting"""
    vals = [None, 0, 0.0, 1, 2, 3.0, 6, 0.5, 1.0, 1e-3, 2e-3, 2.001e-3, 0.1, 0.2, 0.2 + 1e-5, 0.3, 0.6, 1 / 3, 2 / 3, 25.0, 50.0, 50.0002, 49.99,
            12.5, 100, 5e5, 1e6, 1e6 + 5, 2e6]
    if tier == "thorough":
        vals += [7e-3, 1.4e-2, 1.40001e-2, 9, 18, 18.0001, 1e9, 2e9, 2.0001e9, 3.3, 6.6, 6.7, -1.0, -2.0]
    for name in ROUND:
        for c, n in (((0, 0, 0), (0, 1, 0)), ((3, -4, 5.5), (1, 2, -2))):
            for R, D in product(vals, vals):
                yield (name, c, n, R, D)


def typed(tier):
    """odd and even whole sizes in every type of number, alone and with the other dimension in every type"""
    for name in ROUND:
        for what, value in product("RD", (1, 2, 3, 5, 7, 10, 25, 51, 63, 99)):
            for kind, other in product(NUMBERS, (None,) + tuple(NUMBERS)):
                if {kind, other} & {"int8", "uint8"} and value > 60:
                    continue
                yield (name, what, value, kind, other)


def round_optics(tier):
    """round optics with and without their diameter, and the aperture they act with"""
    for name in ("flat", "concave", "convex", "ideal", "ball"):
        for D in (None, 1, 2.0, 5, 7.5, 12.7, 25, 25.4, 40, 61.0, 78.0) + ((0.1, 0.33, 33, 3.0, 50.8, 70) if tier == "thorough" else ()):
            yield (name, D)


def rects(tier):
    """every rectangular thing x missing, zero, negative sizes x perpendicular, skewed, unnormalised directions x centres"""
    sizes = (None, 0, 3, 2.5, 40.0, -1, -0.001, -0.6, -1e-7, -1e-12)
    dirs = [((0, 1, 0), (1, 0, 0)), ((0, 1, 0), (0, 0, 1)), ((0, 3, 0), (0, 0, -0.01)), ((1, 2, 3), (3, 0, -1)), ((1000, 2000, 3000), (0, 3000, -2000)),
            ((1e-6, 0.0, 2e-6), (2e-5, 0.0, -1e-5)), ((0.6, 0.8, 0.0), (-0.8, 0.6, 0.0)), ((0, -1, 0), (5, 0, 5)),
            ((0, 1, 0), (0, 1, 0)), ((0, 1, 0), (0, -1, 0)), ((0, 1, 0), (1, 1, 0)), ((0, 1, 0), (1, 1e-5, 0)), ((1e-6, 0.0, 0.0), (1e-6, 1e-6, 0.0)),
            ((0, 1e-3, 0), (1e-3, 1e-5, 0.0)), ((0, 1, 0), (1, -0.01, 0)), ((1, 2, 3), (3, 1, -1))]
    for name in RECT:
        for n, t in dirs:
            for c in ((0, 0, 0), (2, -30, 7)) + (((0.1, 1e4, -0.7),) if tier == "thorough" else ()):
                for h, w in product(sizes, sizes):
                    yield (name, c, n, t, h, w)


def spelled():
    """every short text the sources spell out: whatever name the code compares with is among them"""
    out = set()
    for f in ("optics3d.py", "general_optics.py", "Shapes/shapes.py"):
        try:
            tree = ast.parse(open(os.path.join(repo_dir(), f)).read())
        except (OSError, SyntaxError):
            continue
        out |= {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40 and "\n" not in n.value}
    return out - set(BAD_NAMES)


def names(tier):
    """every unknown or misplaced name wherever a kind, shape or behaviour is chosen by name"""
    known = {x for v in KNOWN.values() for x in v}
    near = {f(x) for x in known for f in (str.upper, str.title, str.capitalize, lambda x: " " + x, lambda x: x + "s", lambda x: x.replace("_", " "),
                                          lambda x: x.replace("_", "-"), lambda x: x.replace("_", ""), lambda x: x[:-1], lambda x: x.split("_")[0], lambda x: x.split("_")[-1])}
    everything = BAD_NAMES + tuple(sorted((known | spelled() | near) - set(BAD_NAMES)))
    for where in KNOWN:
        for name in everything:
            if name not in KNOWN[where]:
                yield (where, name)


def spaces(tier):
    all_ = [("rounds", rounds, judge_round), ("typed", typed, judge_typed), ("round_optics", round_optics, judge_round_optic), ("rects", rects, judge_rect), ("names", names, judge_names)]
    return [Space(n, (lambda g=g: g(tier)), j, note=g.__doc__) for n, g, j in all_]
