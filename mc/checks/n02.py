import functools
import math

import numpy as np

from mc.core import Space, product

PROPERTY = "N02"
RULE = ("every argument of a grid (with close neighbours of every switching point) x order x form, compared with an independent quadrature "
        "of the defining integral; every pair of a grid of temperatures, masses, densities and volumes")
ASSUMPTIONS = ["orders of -1/2 and more; the numerical integral is judged to 1e-9 absolute plus 1e-7 relative up to an argument of 20, to the next "
               "term of the asymptotic series beyond, and to exp(eta) itself below -20; the closed form to 1e-4 relative (beyond 400: 2e-9)"]
from general import FD_int_approx, FD_int_num, get_nQ, sackurTetrode  # noqa: E402


@functools.lru_cache(maxsize=None)
def integral(eta, j):
    """int_0^inf x^j / (1 + exp(x - eta)) dx with x = u^2 (u^4 for odd quarters), composite Gauss-Legendre in plain Python"""
    nodes = ((0.1488743389816312, 0.2955242247147529), (0.4333953941292472, 0.2692667193099963), (0.6794095682990244, 0.2190863625159820),
             (0.8650633666889845, 0.1494513491505806), (0.9739065285171717, 0.0666713443086881))
    p = 2 if float(2 * j).is_integer() else 4
    top = (max(eta, 0.0) + 48.0) ** (1.0 / p)
    n = 60
    h = top / n / 2.0
    total = 0.0
    for k in range(n):
        mid = (2 * k + 1) * h
        for x, w in nodes:
            for u in (mid - h * x, mid + h * x):
                total += w * h * p * u ** (p * j + p - 1) / (1.0 + math.exp(min(u ** p - eta, 700.0)))
    return total


def expected(eta, j):
    """value of the integral and the tolerated error"""
    if eta < -30.0:
        v = math.exp(eta) * math.gamma(j + 1)
        return v, 1e-9 * v
    if eta <= 20.0:
        v = integral(eta, j)
        return v, 1e-9 + 1e-7 * v if eta >= -20.0 else 1e-6 * v
    lead = eta ** (j + 1) / (j + 1)
    return lead * (1.0 + math.pi ** 2 / 6 * j * (j + 1) / eta ** 2), lead * (2e-4 + abs(math.pi ** 2 / 6 * j * (j + 1) / eta ** 2) * 1.3)


def judge_num(spec, ctx):
    etas, j, kind = spec
    last = None
    for eta in etas:
        arg = {0: eta, 1: np.float64(eta), 2: int(eta) if float(eta).is_integer() else eta, 3: eta}[kind]
        want, tol = expected(float(eta), float(j))
        roman = float(FD_int_num(arg, j)[0])
        script = float(FD_int_num(arg, j, fType="script")[0])
        if kind == 3:
            for extra in (dict(tol=1e-12), dict(Nmax=1000), dict(tol=1e-13, Nmax=2000), dict(Nmax=900, fType="roman")):
                again = float(FD_int_num(arg, j, **extra)[0])
                ctx.step()
                if not abs(again - want) <= tol + 1e-7 * want:
                    return ctx.fail("F_%s(%r) with %s = %r, expected %r" % (j, eta, extra, again, want))
        ctx.step(2)
        ctx.trace()
        ctx.state("%.9e" % roman, j)
        g = math.gamma(j + 1)
        if not abs(roman - want) <= tol:
            return ctx.fail("F_%s(%r) = %r, expected %r" % (j, eta, roman, want))
        if not abs(script * g - roman) <= 1e-12 * abs(roman):
            return ctx.fail("F_%s(%r) is %r, and %r times gamma in the other form" % (j, eta, roman, script))
        if not abs(script * g - want) <= tol:
            return ctx.fail("script F_%s(%r) = %r, expected %r" % (j, eta, script, want / g))
        if last is not None and eta - last[0] > 0.2 and not (j > 4 and last[0] <= 20.0 < eta) and not roman > last[1]:
            return ctx.fail("F_%s falls from %r at %r to %r at %r" % (j, last[1], last[0], roman, eta))
        last = (eta, roman)


def judge_approx(spec, ctx):
    (etas,) = spec
    for eta in etas:
        y = float(FD_int_approx(eta, 1 / 2)[0])
        if float(eta).is_integer() and float(FD_int_approx(int(eta), 0.5)[0]) != y:
            return ctx.fail("closed form at the integer %r is not that at %r" % (int(eta), float(eta)))
        ctx.step()
        ctx.trace()
        ctx.state("%.9e" % y)
        if eta > 400:
            want, tol = 2 / 3 * eta ** 1.5 * (1 + math.pi ** 2 / 8 / eta ** 2), 2e-9
        else:
            want, tol = expected(float(eta), 0.5)[0] if eta < -30 else integral(float(eta), 0.5), 1e-4
        if not abs(y - want) <= tol * want:
            return ctx.fail("closed form at %r is %r, expected %r" % (eta, y, want))
        if -20 <= eta <= 20:
            num = float(FD_int_num(eta, 1 / 2)[0])
            ctx.step()
            if not abs(y - num) <= 1e-4 * want + 1e-9:
                return ctx.fail("closed form at %r is %r, numerically %r" % (eta, y, num))
        e = 1e-9 * max(1.0, abs(eta))
        for v in (eta - e, eta + e):
            z = float(FD_int_approx(v, 1 / 2)[0])
            ctx.step()
            if not abs(z - y) <= 1e-5 * y:
                return ctx.fail("closed form jumps between %r and %r: %r, %r" % (eta, v, y, z))


def judge_declined(spec, ctx):
    """the closed form holds for the order of one half: any other order is refused or gives no number, never the wrong one"""
    eta, j = spec
    ctx.step()
    ctx.trace()
    try:
        y = float(FD_int_approx(eta, j)[0])
    except Exception:
        y = math.nan
    ctx.state(eta, j, math.isnan(y))
    if math.isnan(y):
        return
    want, tol = (expected(float(eta), float(j))[0] if eta < -30 or eta > 20 else integral(float(eta), float(j))), 1e-3
    if not abs(y - want) <= tol * want:
        ctx.fail("closed form at %r for the order %r is %r, expected %r or no number" % (eta, j, y, want))


HBAR_ERG_S, ERG_PER_EV, K_ERG, M_E = 1.0545718e-27, 1.6021766e-12, 1.38064852e-16, 9.10938e-28


def judge_gas(spec, ctx):
    T, m = spec
    nq = float(get_nQ(T, m))
    ctx.step()
    ctx.trace()
    ctx.state("%.9e" % nq)
    want = (m * ERG_PER_EV * T / (2 * math.pi * HBAR_ERG_S ** 2)) ** 1.5
    if not abs(nq - want) <= 1e-5 * want:
        return ctx.fail("quantum concentration at %r eV, %r g is %r, expected %r" % (T, m, nq, want))
    if m == M_E and not abs(float(get_nQ(T)) - nq) <= 1e-5 * nq:
        return ctx.fail("the default mass is not the electron's")
    for k in (1e-3, 0.5, 2.0, 9.0, 1e4):
        ctx.step(3)
        a, b = float(get_nQ(k * T, m)), float(get_nQ(T, k * m))
        if abs(a - k ** 1.5 * nq) > 1e-9 * a or abs(b - k ** 1.5 * nq) > 1e-9 * b:
            return ctx.fail("quantum concentration at %r eV, %r g does not scale by %r^1.5" % (T, m, k))
    for n in (1e-3, 1e10, 3e16, 2.7e19, 4e22):
        for V in (1e-3, 1, 1.0, 7, 22400.0):
            S = float(sackurTetrode(n, m, V, T))
            ctx.step()
            ctx.state("%.9e" % S)
            w = n * V * K_ERG * (2.5 + math.log(want / n))
            if not abs(S - w) <= 1e-5 * (abs(w) + n * V * K_ERG):
                return ctx.fail("entropy of n=%r m=%r V=%r T=%r is %r, expected %r" % (n, m, V, T, S, w))
            for k in (2.0, 0.1, 1e6):
                ctx.step()
                if abs(float(sackurTetrode(n, m, k * V, T)) - k * S) > 1e-9 * abs(k * S):
                    return ctx.fail("entropy of n=%r m=%r T=%r is not extensive at V=%r" % (n, m, T, V))


ORDERS = (-0.5, 0.5, 1.5, 0, 1, 2, 2.5, 3)


def nums(tier):
    """arguments -30..60 in steps of 0.5 (0.1) and neighbours of the switching points x eight orders, both forms, three number types"""
    step = 0.5 if tier == "quick" else 0.1
    grid = [round(-30 + k * step, 6) for k in range(int(90 / step) + 1)] + [100.0, 1000.0, 1e5]
    for j in ORDERS + (-0.25, 0.25, 0.3, 4, 5.5, 7):
        for k in range(0, len(grid) - 1, 4):
            yield (tuple(grid[k:k + 5]), j, 0)
        for e in (-20.0, 20.0):
            yield ((e - 1e-6, e, e + 1e-6), j, 0)
        yield ((-700, -300.5, -120.0, -60), j, 2)
        yield ((-21.0, -19.0, -3.5, 0, 2.25, 9, 19.9, 22, 150.0), j, 3)
        for kind in (1, 2):
            yield ((-25, -10, -1, 0, 1, 5, 15, 20, 21, 30), j, kind)


def approxs(tier):
    """arguments -30..40 in steps of 0.1 (0.02), decades to 1e7 and neighbours of every switching point"""
    step = 0.1 if tier == "quick" else 0.02
    grid = [round(-30 + k * step, 6) for k in range(int(70 / step) + 1)]
    grid += [-50.0, -101.0, -300.0, -650.0] + [m * 10.0 ** e for e in range(1, 8) for m in (1, 2, 5, 9.99)]
    for b in (-2.0, 0.0, 3.0, 10.0, 1e5):
        grid += [b - 1e-6, b - 1e-3, b, b + 1e-6, b + 1e-3]
    for k in range(0, len(grid), 10):
        yield (tuple(grid[k:k + 10]),)


def declined(tier):
    """other orders x arguments on every piece"""
    for j, eta in product((-0.5, 0, 0.25, 0.49, 0.51, 1, 1.0, 1.5, 2, 2.5, 3.5), (-40, -5.0, -2, -1, 0, 0.0, 1.7, 3, 7.5, 10, 50.0, 1e3)):
        yield (eta, j)


def gases(tier):
    """temperatures x masses x densities x volumes x factors"""
    for T, m in product((0.025, 1.0, 3.7, 250.0, 1, 1e-9, 1e-4, 1e6), (M_E, 1.67e-24, 6.6e-23, 1e-30, 1e-26, 1e-21, 1e-18, 1e-12, 1e-3)):
        yield (T, m)


def spaces(tier):
    all_ = [("numerical", nums, judge_num), ("closed_form", approxs, judge_approx), ("other_orders", declined, judge_declined), ("gas", gases, judge_gas)]
    return [Space(n, (lambda g=g: g(tier)), j, note=g.__doc__) for n, g, j in all_]
