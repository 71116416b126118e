import math

import numpy as np

from mc.core import Space, product

PROPERTY = "T02"
RULE = ("every wavelength of a fine grid over and around the visible range, with its close neighbours, in every number type and for several "
        "gammas: range, clamping, continuity and hue order; every pair of a grid of energies and wavelengths for the conversions")
ASSUMPTIONS = ["continuity is judged at steps of 1e-7 to 0.25 nm against bounds that a power of at least 0.5 of a 20 nm ramp meets"]
from general import energy_eV_to_wavelength_nm, wavelength_nm_to_energy_eV, wavelength_to_rgb  # noqa: E402

EDGES = (380.0, 440.0, 490.0, 510.0, 580.0, 645.0, 750.0)


def colour(w, gamma, kind=0):
    arg = {0: w, 1: np.float64(w), 2: int(w) if float(w).is_integer() else w}[kind]
    c = wavelength_to_rgb(arg) if gamma is None else wavelength_to_rgb(arg, gamma=gamma)
    return tuple(float(x) for x in c)


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 for x, y in zip(a, b))


def hue(c):
    r, g, b = c
    hi, lo = max(c), min(c)
    if hi - lo < 1e-12:
        return None
    k = 60.0 / (hi - lo)
    if hi == b:
        return 240.0 + k * (r - g)
    if hi == g:
        return 120.0 + k * (b - r)
    return (k * (g - b)) % 360.0


def judge_colour(spec, ctx):
    w0, step, count, gamma = spec
    g = 0.8 if gamma is None else gamma
    last, before = None, None
    for k in range(count):
        w = w0 + k * step
        c = colour(w, gamma)
        ctx.step()
        ctx.trace()
        ctx.state(tuple(round(x, 9) for x in c))
        if len(c) != 3 or not all(0.0 <= x <= 1.0 for x in c):
            return ctx.fail("%r nm (gamma %s) has the colour %s" % (w, gamma, c))
        for kind in (1, 2):
            if not same(colour(w, gamma, kind), c):
                return ctx.fail("%r nm has different colours in different number types" % w)
        ctx.step(2)
        if w <= 380.0 and not same(c, colour(380.0, gamma)) or w >= 750.0 and not same(c, colour(750.0, gamma)):
            return ctx.fail("%r nm is not clamped to the end of the visible range: %s" % (w, c))
        for e in (1e-7, 1e-3, 0.25):
            bound = 2.5 * (e / 20.0) ** min(g, 1.0) + 4.0 * e / 20.0
            for v in (w - e, w + e):
                d = max(abs(x - y) for x, y in zip(c, colour(v, gamma)))
                ctx.step()
                if d > bound:
                    return ctx.fail("colour jumps by %.4g between %r and %r nm (gamma %s)" % (d, w, v, gamma))
        if before is not None and 0 < step <= 0.25 and max(abs(x - y) for x, y in zip(c, before)) > 2.5 * (step / 20.0) ** min(g, 1.0) + 4.0 * step / 20.0:
            return ctx.fail("colour jumps from %s to %s between %r and %r nm (gamma %s)" % (before, c, w - step, w, gamma))
        before = c
        h = hue(c)
        if 380.0 <= w <= 750.0:
            if h is None:
                return ctx.fail("%r nm has no hue: %s" % (w, c))
            if last is not None and step > 0 and h > last + 1e-6:
                return ctx.fail("hue runs backwards at %r nm: %s after %s" % (w, h, last))
            last = h


def judge_gamma(spec, ctx):
    """between the ends every component of a colour is a power law of gamma: that of gamma 1 to the power of gamma, and 0.8 when it is not given"""
    w, gamma = spec
    base, c = colour(w, 1.0), colour(w, gamma)
    g = 0.8 if gamma is None else gamma
    ctx.step(2)
    ctx.trace()
    ctx.state(tuple(round(x, 9) for x in c))
    if not all(abs(x - b ** g) <= 1e-9 for b, x in zip(base, c)):
        ctx.fail("%r nm with gamma %r has the colour %s, expected %s" % (w, gamma, c, tuple(b ** g for b in base)))


def gammas(tier):
    """the visible range in 5 nm steps (1 nm thorough) x gammas from a hundredth to a hundred, whole and broken"""
    step = 5.0 if tier == "quick" else 1.0
    for k in range(int(370.0 / step) + 1):
        for gamma in (None, 0.01, 0.1, 0.25, 0.5, 0.8, 1, 1.5, 1.8, 2, 2.2, 2.5, 3, 3.0, 4.5, 10, 25.0, 100):
            yield (380.0 + step * k, gamma)
    for e in EDGES:  # next to the edges of the bands, where a small gamma magnifies what is near nothing
        for away in (1e-9, 3.3e-8, 4.7e-7, 1e-6, 2.9e-5, 1e-3, 0.07):
            for s in (1, -1):
                for gamma in (None, 0.05, 0.1, 0.25, 0.5, 0.8, 1, 2.2):
                    yield (e + s * away, gamma)


LANDMARKS = ((385, 265, 310), (410, 250, 305), (440, 238, 245), (465, 195, 240), (490, 170, 190), (500, 125, 179), (510, 115, 125), (545, 65, 119),
             (580, 55, 65), (610, 15, 50), (645, 0, 5), (700, 0, 3), (750, 0, 3))


def judge_landmark(spec, ctx):
    w, lo, hi, gamma = spec
    h = hue(colour(float(w), gamma))
    ctx.step()
    ctx.trace()
    ctx.state(w, round(h, 6) if h is not None else None)
    if h is None or not lo <= h <= hi:
        ctx.fail("%r nm (gamma %s) has hue %s, expected %s to %s degrees" % (w, gamma, h, lo, hi))


def judge_limits(spec, ctx):
    lo, hi, w = spec
    c = tuple(wavelength_to_rgb(w, floor_wave=lo, ceiling_wave=hi))
    inside = min(max(w, lo), hi)
    want = tuple(wavelength_to_rgb(inside) if 380 <= inside <= 750 else wavelength_to_rgb(inside, floor_wave=lo, ceiling_wave=hi))
    ctx.step(2)
    if len(c) != 3 or not all(0.0 <= x <= 1.0 for x in c):
        return ctx.fail("%r nm limited to %r..%r has the colour %s" % (w, lo, hi, c))
    ctx.trace()
    ctx.state(lo, hi, c)
    if not same(c, want):
        ctx.fail("%r nm limited to %r..%r has the colour %s, expected %s" % (w, lo, hi, c, want))


def judge_energy(spec, ctx):
    x, others = spec
    e, w = float(wavelength_nm_to_energy_eV(x)), float(energy_eV_to_wavelength_nm(x))
    ctx.step(2)
    ctx.trace()
    ctx.state("%.9e" % e, "%.9e" % w)
    for v in (e * x, w * x):
        if not abs(v - 1239.842) <= 1.0:
            return ctx.fail("%r nm <-> eV gives a product of %r, expected h c = 1239.84" % (x, v))
    a, b = float(energy_eV_to_wavelength_nm(e)), float(wavelength_nm_to_energy_eV(w))
    ctx.step(2)
    if abs(a - x) > 1e-9 * x or abs(b - x) > 1e-9 * x:
        return ctx.fail("%r comes back as %r and %r" % (x, a, b))
    for y in others:
        for f in (wavelength_nm_to_energy_eV, energy_eV_to_wavelength_nm):
            ctx.step()
            if abs(float(f(y)) * y - float(f(x)) * x) > 1e-9 * abs(float(f(x)) * x):
                return ctx.fail("%s is not inversely proportional at %r and %r" % (f.__name__, x, y))
    arr = np.array([x] + list(others), float)
    keep = arr.copy()
    for f in (wavelength_nm_to_energy_eV, energy_eV_to_wavelength_nm):
        out = f(arr)
        if not np.allclose(out, [float(f(v)) for v in keep], rtol=1e-12) or not np.array_equal(arr, keep):
            return ctx.fail("%s of an array differs from its elements or changes it" % f.__name__)


def grid(tier):
    """the visible range in 0.5 nm steps (0.05 thorough), far outside it, and 1e-6 and 1e-7 nm steps around every band edge, several gammas"""
    step = 0.5 if tier == "quick" else 0.05
    for gamma in (None, 0.5, 1.0, 2.2):
        n = int(round(20.0 / step))
        for w0 in range(360, 780, 20):
            yield (float(w0), step, n + 1, gamma)
        for e in EDGES:
            yield (e - 1e-5, 1e-6, 21, gamma)
            yield (e - 2e-5, 1e-7, 401, gamma)
            yield (e - 1.0, 0.1, 21, gamma)
        yield (0.0, 19.0, 20, gamma)
        yield (750.0, 250.0, 40, gamma)
        for far in (-1e9, -500.0, 1e-3, 1e5, 1e12):
            yield (far, 1.0, 2, gamma)


def landmarks(tier):
    """named hues at thirteen wavelengths"""
    for w, lo, hi in LANDMARKS:
        for gamma in (None, 0.5, 1.0):
            yield (w, lo, hi, gamma)


def limits(tier):
    """narrower limits within the visible range, and wider ones beyond it"""
    for lo, hi in ((380, 750), (400, 700), (450.0, 600.0), (500, 510), (441, 644), (300, 800), (380, 1000), (200.0, 750), (379.9, 750.1), (600, 2500.0), (1, 500)):
        for w in (0, 0.5, 150, 250.5, 299, 379.95, 750.05, 790, 801, 900, 999, 1500.5, 1e4, 1e9, 300, 379.9, 380, 395.0, 400, 430, 470, 499.5, 505, 550, 600.5, 650, 700, 720.0, 750, 751, 2000):
            yield (lo, hi, w)


def energies(tier):
    """conversions over twelve decades"""
    xs = [m * 10.0 ** e for e in range(-6, 7) for m in (1.0, 1.7, 4.2, 6.63)] + [532, 1239, 2, 1]
    for x in xs:
        yield (x, tuple(xs))


def spaces(tier):
    return [Space("grid", lambda: grid(tier), judge_colour, note=grid.__doc__),
            Space("landmarks", lambda: landmarks(tier), judge_landmark, note=landmarks.__doc__),
            Space("gammas", lambda: gammas(tier), judge_gamma, note=gammas.__doc__),
            Space("limits", lambda: limits(tier), judge_limits, note=limits.__doc__),
            Space("energies", lambda: energies(tier), judge_energy, note=energies.__doc__)]
