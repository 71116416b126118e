import decimal
import math
import re

import numpy as np

from mc import impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "T01"
RULE = ("every mantissa near a rounding or carry boundary x every decimal exponent x sign x precision, compared in exact decimal "
        "arithmetic; every kind of ray and optic printed at every position and direction of an alphabet")
ASSUMPTIONS = ["exact ties, and values within 4e-16 of themselves of one, may go either way up to 15 digits"]
D = decimal.Decimal
CTX = decimal.Context(prec=800, Emax=10 ** 6, Emin=-10 ** 6)
FORM = re.compile(r"^(-?)(\d+)(?:\.(\d*))?(?:e([+-]?\d+))?$")
from general import to_precision  # noqa: E402


def complaint(text, x, p):
    """why `text` is not x correctly rounded to p significant digits"""
    m = FORM.match(text) if isinstance(text, str) else None
    if not m:
        return "is not a decimal number"
    val = CTX.create_decimal(text)
    if x == 0:
        return None if val == 0 and "e" not in text else "is not zero"
    digits = (m.group(2) + (m.group(3) or "")).lstrip("0")
    if len(digits) != p:
        return "has %d significant digits" % len(digits)
    exact = CTX.create_decimal(float(x))
    exponent = exact.adjusted()
    unit = CTX.scaleb(D(1), exponent - p + 1)
    err = abs(CTX.subtract(val, exact))
    if err > CTX.multiply(unit, D("0.5")) + (abs(exact) * D("4e-16") if p <= 15 else 0):
        return "is off by %s units of the last digit" % (float(err / unit))
    shown = val.adjusted()
    plain = -2 <= shown < p
    if plain and m.group(4) is not None:
        return "is in exponent form"
    if not plain:
        if m.group(4) is None:
            return "is not in exponent form"
        if len(m.group(2)) != 1 or m.group(2) == "0":
            return "is not in normal exponent form"
    return None


def judge_number(spec, ctx):
    mantissa, exponents, p, kind = spec
    for e in exponents:
        for sign in ("", "-"):
            x = float("%s%se%d" % (sign, mantissa, e))
            if kind == 1:
                if not x.is_integer() or abs(x) >= 2 ** 53:
                    continue
                x = int(x)
            elif kind == 2:
                x = np.float64(x)
            text = to_precision(x, p)
            ctx.step()
            ctx.trace()
            ctx.state(text)
            bad = complaint(text, x, p)
            if bad:
                return ctx.fail("%r to %d digits is %r, which %s" % (x, p, text, bad))


def judge_extreme(spec, ctx):
    x, p = spec
    for v in (x, -x, np.float64(x)):
        text = to_precision(v, p)
        ctx.step()
        ctx.trace()
        ctx.state(text)
        bad = complaint(text, v, p)
        if bad:
            return ctx.fail("%r to %d digits is %r, which %s" % (v, p, text, bad))


def judge_not_finite(spec, ctx):
    """what is not a finite number is not printed as one"""
    x, p = spec
    for v in (x, np.float64(x), np.float32(x)):
        ctx.step()
        ctx.trace()
        try:
            text = to_precision(v, p)
        except Exception:
            continue
        ctx.state(text)
        if not isinstance(text, str) or any(c.isdigit() for c in text) or (not math.isnan(x) and text.startswith("-") != (x < 0)):
            return ctx.fail("%r to %d digits is %r" % (v, p, text))


def not_finite(tier):
    """infinities and no number to one to twenty digits"""
    for x in (math.inf, -math.inf, math.nan):
        for p in range(1, 21):
            yield (x, p)


def extremes(tier):
    """the ends of the range of floats, subnormals, and up to twenty digits"""
    xs = [5e-324, 1e-323, 1.5e-322, 9.88e-324, 1e-310, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 9.99999e307, 9.5e307,
          1e308, 1.5e308, 1e300, 1e-300, 1e23, 1e22, 8.5e15, 9007199254740993.0, 0.1, 0.3, 1 / 3, 2 / 3, 123456.789, 0.000123456789, 99999.999999999,
          9.999999999999999e22, 4503599627370496.5, 5e-5, 0.015, 1e-5, 0.01, 0.009999999999999999, 2.0 ** -1074 * 3, 2.0 ** 1023, 2.0 ** -1022]
    xs += [math.ldexp(1.0 + k / 7.0, e) for e in range(-1073, 1024, 29 if tier == "quick" else 3) for k in (0, 1, 5)]
    for x in xs:
        for p in range(1, 21):
            yield (x, p)


def neighbours(spec, ctx):
    """floats adjacent to powers of ten and to ties"""
    base, p = spec
    x0 = float(base)
    for direction in (0.0, math.inf):
        x = x0
        for _ in range(6):
            for v in (x, -x):
                text = to_precision(v, p)
                ctx.step()
                ctx.trace()
                ctx.state(text)
                bad = complaint(text, v, p)
                if bad:
                    return ctx.fail("%r to %d digits is %r, which %s" % (v, p, text, bad))
            x = math.nextafter(x, direction)


def mantissas(p):
    out = ["1", "2", "3", "5", "7", "9", "1.5", "2.5", "9.5", "3.14159265358979", "2.71828182845905", "1.41421356237310", "9.87654321987654",
           "1.23456789123456", "6.02214076", "4.9999999999", "8.00000000001"]
    for lead in ("1", "4", "9", "12", "99", "98"):
        for tail in ("0" * 9, "9" * 9, "49999999", "50000001", "5000000", "4", "6"):
            for k in range(0, p + 1):
                s = lead + ("0" if lead[0] == "1" else "9") * k
                s = s[:p] + tail
                out.append(s[0] + "." + s[1:])
    return sorted(set(out), key=lambda s: (len(s), s))


def numbers(tier):
    """mantissas at rounding and carry boundaries x all exponents in -12..12 and outliers to -289..299 x precisions 1..9"""
    near, wide = tuple(range(-9, 13)), tuple(range(-289, -9, 37)) + tuple(range(13, 300, 41))
    if tier == "thorough":
        near, wide = tuple(range(-15, 20)), tuple(range(-289, -15, 11)) + tuple(range(20, 300, 11))
    for p in (5, 1, 2, 3, 4, 6, 7, 8, 9) if tier == "thorough" else (5, 1, 2, 3, 7):
        for m in mantissas(p):
            for kind in (0, 1, 2):
                yield (m, near, p, kind)
            yield (m, wide, p, 0)
        for kind in (0, 1, 2):
            yield ("0", (0,), p, kind)


def adjacent(tier):
    """the six floats on either side of powers of ten, switching points and ties"""
    for p in (5, 1, 2, 3, 4, 6, 8):
        for e in range(-30, 31, 1):
            for b in ("1", "9.9995", "9.99995", "1.00005", "4.5", "1.0"):
                yield ("%se%d" % (b, e), p)


NUM = re.compile(r"-?\d[\d.]*(?:e[+-]?\d+)?")


def check_repr(ctx, obj, vectors, what):
    text = repr(obj)
    ctx.step()
    ctx.trace()
    ctx.state(text)
    if not isinstance(text, str) or not text:
        return ctx.fail("%s prints as %r" % (what, text))
    if str(obj) != text and not str(obj):
        return ctx.fail("%s has no printed form" % what)
    if vectors is None:
        return
    numbers_ = NUM.findall(text)
    flat = [float(x) for v in vectors for x in v]
    if len(numbers_) != len(flat):
        return ctx.fail("%s prints as %r: expected %d numbers" % (what, text, len(flat)))
    for t, x in zip(numbers_, flat):
        bad = complaint(t, x, 5)
        if bad:
            return ctx.fail("%s prints as %r: %r should be %r to five digits but %s" % (what, text, t, x, bad))


def judge_repr(spec, ctx):
    name, p, n = spec
    OP, SH = impl.OP, impl.SH
    pos, un = np.array(p), ref.unit(tuple(map(float, n)))
    t = W.frame(un)
    make = {
        "ray": lambda: OP.Ray(pos, np.array(n)),
        "marker": lambda: OP.Ray(pos, np.array(n), type="faerie_fire"),
        "flat": lambda: OP.Mirror(pos, normal=np.array(n), D=9.0),
        "rect": lambda: OP.Mirror(pos, shape="rectangular_flat", normal=np.array(n), tangent=np.array(t), h=3.0, w=4.0),
        "dmd": lambda: OP.Mirror(pos, shape="rectangular_flat", normal=np.array(n), tangent=np.array(t), h=3.0, w=4.0, type="dmd", dmd_normal=np.array(t)),
        "concave": lambda: OP.Mirror(pos, shape="circular_concave_spherical", normal=np.array(n), D=9.0, f=20.0),
        "convex": lambda: OP.Mirror(pos, shape="circular_convex_spherical", normal=np.array(n), D=9.0),
        "convex, no normal": lambda: OP.Mirror(pos, shape="circular_convex_spherical", D=9.0),
        "ideal": lambda: OP.Lens(pos, normal=np.array(n), D=9.0, f=20.0, type="ideal"),
        "ball": lambda: OP.Lens(pos, shape="spherical", D=9.0),
        "ball with normal": lambda: OP.Lens(pos, shape="spherical", normal=np.array(n), D=9.0),
        "grating": lambda: OP.Grating(pos, np.array(n), np.array(t), h=3.0, w=4.0, G=600, order=1),
        "detector": lambda: OP.Detector(pos, np.array(n), np.array(t), h=3.0, w=4.0),
        "optic": lambda: OP.Optic(pos, np.array(n), None),
        "annotation": lambda: OP.Annotation(pos, np.array(n), None),
        "filter": lambda: OP.Filter(pos, np.array(n), None),
        "window": lambda: OP.Window(pos, np.array(n), None),
        "block": lambda: OP.Block(pos, np.array(n), SH.Circle(pos, np.array(n), D=9.0)),
        "solid": lambda: OP.Compound(impl.tree(("sphere", p, 4.0))),
        "clear solid": lambda: OP.Compound(impl.tree(("union", ("sphere", p, 4.0), ("cyl", p, un, 1.0))), surface_behavior="refract", index=1),
        "glass": lambda: OP.Compound(impl.tree(("difference", ("sphere", p, 4.0), ("sphere", p, 1.0))), surface_behavior="refract", index=1.33),
    }[name]
    obj = make()
    vectors = (p, obj.direction if name in ("ray", "marker") else un)
    if name in ("convex, no normal", "ball"):
        vectors = (p,)
    if name in ("solid", "clear solid", "glass"):
        vectors = None
    check_repr(ctx, obj, vectors, name)
    if name in ("ray", "marker") and not ctx.fails:
        obj.fly(2.5)
        check_repr(ctx, obj, (obj.position, obj.direction), "a ray under way")
        obj.position, obj.direction = np.array(n, float), ref.unit((1.0, -2.0, 0.25))  # placed and aimed by hand
        obj.direction = np.array(obj.direction)
        check_repr(ctx, obj, (obj.position, obj.direction), "a ray placed and aimed by hand")
        for shown in (repr([obj]), "%s" % obj, "{}".format(obj)):
            ctx.step()
            if repr(obj) not in shown:
                return ctx.fail("a ray in other text prints as %r" % shown)


NAMES = ("ray", "marker", "flat", "rect", "dmd", "concave", "convex", "convex, no normal", "ideal", "ball", "ball with normal", "grating", "detector",
         "optic", "annotation", "filter", "window", "block", "solid", "clear solid", "glass")


def reprs(tier):
    """every kind x positions of very different magnitudes x directions"""
    places = [(0, 0, 0), (0.0, 100.0, -25.4), (1.23456789, -0.00987654321, 123456.789), (-9.99995, 0.0099999, 99999.5), (1e-12, -3e20, 7),
              (0.3, -0.3, 1 / 3)]
    dirs = [(0, 1, 0), (0.0, -1.0, 0.0), (1, 0, 0), (-1.0, 0.0, 0.0), (0, 0, 1), (0.0, 0.0, -3.0), (0, 1, 1), (-1, 0, 1), (1.0, -1.0, 0.0), (1, 2, 3), (1.0, 1e-3, -1e-7), (-1.0, 1e-9, 0.0), (1.23456e-10, -1.0, 7.65432e-14), (1.0, 3.4567891e-11, 2.2222e-9), (0.577350269, 0.577350269, 0.577350269), (-5.0, 0.1, 1e4)]
    if tier == "thorough":
        places += [tuple(s * 10.0 ** e for s in (1.99995, -4.44445, 9.99995)) for e in range(-12, 13)]
    for name in NAMES:
        for p, n in product(places, dirs):
            yield (name, p, n)


def spaces(tier):
    return [Space("numbers", lambda: numbers(tier), judge_number, note=numbers.__doc__),
            Space("adjacent", lambda: adjacent(tier), neighbours, note=adjacent.__doc__),
            Space("extremes", lambda: extremes(tier), judge_extreme, note=extremes.__doc__),
            Space("not_finite", lambda: not_finite(tier), judge_not_finite, note=not_finite.__doc__),
            Space("reprs", lambda: reprs(tier), judge_repr, note=reprs.__doc__)]
