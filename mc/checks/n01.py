import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc.core import Space, product

PROPERTY = "N01"
RULE = ("every window, order, derivative and rate up to a bound on a basis of signals (every unit impulse and every monomial, which "
        "determines a linear filter), compared with exact rational least squares; all short arrays over small alphabets for the lookups; "
        "all shapes, formats, paddings and print settings of a table for the text helpers")
ASSUMPTIONS = ["away from the ends: samples whose whole window lies within the signal"]
import general as G  # noqa: E402


def ls_weights(window, order, deriv):
    """exact weights of the deriv-th derivative at the centre of the least-squares polynomial through the window"""
    half = window // 2
    ks = range(-half, half + 1)
    n = order + 1
    A = [[Fr(sum(k ** (i + j) for k in ks)) for j in range(n)] + [Fr(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    inv = [row[n:] for row in A]
    return [math.factorial(deriv) * sum(inv[deriv][i] * Fr(k) ** i for i in range(n)) for k in ks]


def judge_savgol(spec, ctx):
    window, order, deriv, rate, N = spec
    half = window // 2
    w = [float(x) for x in ls_weights(window, order, deriv)]
    signals = [("impulse at %d" % k, [float(i == k) for i in range(N)]) for k in range(N)]
    signals += [("t^%d" % m, [((i - N / 2) / N) ** m for i in range(N)]) for m in range(order + 1)]
    signals += [("mixture", [math.sin(1.3 * i) - 0.2 * i + (5.0 if i == N // 3 else 0.0) for i in range(N)])]
    signals += [("integers", [(7 * i * i + 3 * i) % 11 for i in range(N)]), ("bytes", [(5 * i * i + i) % 200 for i in range(N)])]
    for name, y in signals:
        arg = np.array(y, dtype=np.uint8) if name == "bytes" else np.array(y)
        got = G.savitzky_golay(arg, window, order, deriv=deriv, rate=rate) if (deriv, rate) != (0, 1) else G.savitzky_golay(arg, window, order)
        ctx.step()
        ctx.trace()
        if len(got) != N:
            return ctx.fail("window %d order %d: %d samples in, %d out" % (window, order, N, len(got)))
        if list(arg) != y:
            return ctx.fail("the signal was changed")
        for i in range(half, N - half):
            want = rate ** deriv * sum(w[k + half] * y[i + k] for k in range(-half, half + 1))
            size = rate ** deriv * max(map(abs, w)) * max(1.0, max(map(abs, y)))
            if not abs(float(got[i]) - want) <= 1e-7 * (size + abs(want)):
                return ctx.fail("window %d order %d derivative %d rate %s of %s: sample %d is %r, expected %r" % (
                    window, order, deriv, rate, name, i, float(got[i]), want))
        if not all(math.isfinite(x) for x in got):
            return ctx.fail("not finite")
        ctx.state(window, order, deriv, rate, name)


def judge_bad_window(spec, ctx):
    window, order = spec
    ctx.step()
    ctx.trace()
    ctx.state(spec)
    try:
        G.savitzky_golay(np.arange(30.0), window, order)
    except Exception:
        return
    ctx.fail("window %r with order %r is accepted" % (window, order))


def judge_average(spec, ctx):
    N, x = spec[:2]
    arg = np.array(x, dtype=spec[2] if len(spec) > 2 else None)
    got = G.movingAverageFast(arg, N)
    ctx.step()
    ctx.trace()
    ctx.state(N, tuple(np.round(got, 9)))
    if len(got) != len(x) or list(arg) != list(x):
        return ctx.fail("%d values averaged over %d give %d, or the input was changed" % (len(x), N, len(got)))

    def fits(back):
        return all(abs(float(got[i]) - sum(x[i - back:i - back + N]) / N) <= 1e-9 * (1 + max(map(abs, x)))
                   for i in range(back, len(x) - (N - 1 - back)))
    if not (fits((N - 1) // 2) or fits(N // 2)):
        ctx.fail("moving average of %s over %d is %s" % (x, N, got))


def judge_nearest(spec, ctx):
    arrays, v, kind = spec
    for a in arrays:
        arg = np.array(a, dtype=kind)
        idx, val = G.find_nearest(arg, v)
        ctx.step()
        ctx.trace()
        best = min(abs(x - v) for x in a)
        ctx.state(a, int(idx))
        if not (0 <= int(idx) < len(a)) or a[int(idx)] != val or abs(a[int(idx)] - v) != best or list(arg) != list(a):
            return ctx.fail("nearest to %r in %s: index %r value %r" % (v, a, idx, val))


def judge_log(spec, ctx):
    xs, ys, law, kind = spec
    f = G.log_interp1d(np.array(xs), np.array(ys)) if kind == "array" else G.log_interp1d(*((list, tuple)[kind == "tuple"](v) for v in (xs, ys)))
    ctx.step()
    ctx.trace()
    near = lambda a, b: abs(float(a) - b) <= 1e-9 * abs(b)
    for x, y in zip(xs, ys):
        ctx.step()
        if not near(f(x), y):
            return ctx.fail("through %s, %s: at the knot %r it is %r" % (xs, ys, x, float(f(x))))
    out = f(np.array(xs))
    if len(out) != len(xs) or not all(near(a, b) for a, b in zip(out, ys)):
        return ctx.fail("through %s, %s: an array of knots gives %s" % (xs, ys, out))
    for (x0, y0), (x1, y1) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        for q in (0.1, 0.5, 0.85):
            x, y = x0 ** (1 - q) * x1 ** q, y0 ** (1 - q) * y1 ** q
            ctx.step()
            ctx.state("%.6e %.6e" % (x, y))
            if not near(f(x), y):
                return ctx.fail("through %s, %s: at %r it is %r, expected %r" % (xs, ys, x, float(f(x)), y))
    if law is not None:
        c, k = law
        for x in (xs[0] * 1.01, xs[-1] * 0.99, math.sqrt(xs[0] * xs[-1]), xs[0] / 3, xs[-1] * 2.5, xs[-1] * 1e3):
            ctx.step()
            if not near(f(x), c * x ** k):
                return ctx.fail("the power law %s x^%s is not reproduced at %r: %r" % (c, k, x, float(f(x))))


def judge_table(spec, ctx):
    values, left, right, indent, fmt = spec
    arg = np.array(values) if right < 4 else list(values)
    text = G.prism10widetextarray(arg, left, right, indent, fmt)
    ctx.step()
    ctx.trace()
    ctx.state(text)
    want = [format(v, fmt).strip() for v in arg]
    if text.split() != want:
        return ctx.fail("%s with %s prints as %r" % (values, spec[1:], text))
    rows = [[" " * (left - (v < 0)) + format(v, fmt) + " " * right for v in arg[i:i + 10]] for i in range(0, len(arg), 10)]
    if text.rstrip() != "\n".join(" " * indent + ("".join(row).rstrip() if len(row) == 10 else "".join(row)) for row in rows).rstrip():
        return ctx.fail("%s with %s prints as %r: not padded as asked" % (values, spec[1:], text))
    if any(len(line.split()) > 10 for line in text.split("\n")):
        return ctx.fail("%s prints more than ten numbers in a line" % (values,))
    if list(arg) != list(values):
        return ctx.fail("the array was changed")


SETTINGS = ({}, dict(threshold=3, edgeitems=1), dict(precision=2, suppress=True, linewidth=30), dict(threshold=5, sign="+", floatmode="fixed"),
            dict(formatter={"float": lambda x: "X"}))


def judge_spaced(spec, ctx):
    shape, left, fmt, right, width, setting = spec
    n = int(np.prod(shape))
    values = [(-1) ** k * (0.37 * k + 1e-3 * k * k) for k in range(n)] if fmt != "int" else [(-1) ** k * (3 * k + k * k) for k in range(n)]
    arg = np.array(values).reshape(shape)
    saved = np.get_printoptions()
    try:
        np.set_printoptions(**SETTINGS[setting])
        before = np.get_printoptions()
        text = G.nparray2spacedstring(arg, left, ".3f" if fmt == "int" else fmt, right, width)
        after = np.get_printoptions()
    finally:
        np.set_printoptions(**saved)
    ctx.step()
    ctx.trace()
    ctx.state(shape, left, fmt, right, width, setting)
    fmt = ".3f" if fmt == "int" else fmt
    if text.split() != [format(v, fmt).strip() for v in values] and not (arg.dtype.kind == "i" and text.split() == list(map(str, values))):
        return ctx.fail("array of shape %s with %s prints as %r" % (shape, spec[1:], text[:200]))
    if before != after:
        return ctx.fail("the global print settings were changed: %s" % {k: (before[k], after[k]) for k in before if before[k] != after.get(k)})
    if list(arg.flat) != values:
        return ctx.fail("the array was changed")


def savgols(tier):
    """odd windows 3..11 (21), orders up to window - 2 (at most 5), derivatives up to the order, rates, signal lengths; long windows and high orders"""
    top = 11 if tier == "quick" else 21
    for window in range(3, top + 1, 2):
        for order in range(0, min(window - 2, 5 if tier == "quick" else 6) + 1):
            for deriv in range(0, min(order, 3) + 1):
                for rate in (1, 0.5, 20.0):
                    for N in (window, window + 1, 2 * window + 3):
                        yield (window, order, deriv, rate, N)
    for window, order in ((51, 5), (31, 9), (13, 9), (13, 11), (51, 8), (51, 12), (101, 4), (101, 10), (201, 8), (501, 4), (501, 8), (441, 2), (301, 3)) + (((201, 4), (101, 6), (75, 7), (21, 12), (1001, 3), (2001, 1), (255, 5), (51, 16), (301, 7), (1001, 7), (401, 10), (33, 20)) if tier == "thorough" else ()):
        for deriv, rate in ((0, 1), (1, 20.0), (2, 0.5), (3, 1)):
            if deriv <= order:
                yield (window, order, deriv, rate, window + 12)


def bad_windows(tier):
    """even windows, windows shorter than order + 2, names instead of numbers"""
    for w in range(0, 16):
        for o in range(0, 16):
            if w % 2 == 0 or w < o + 2:
                yield (w, o)
    for w, o in (("seven", 2), (7, "two"), ("", 1)):
        yield (w, o)


def averages(tier):
    """windows 1..8 (12) on impulses, ramps and mixtures of length up to 14"""
    for N in (9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129) + ((256, 257, 1000) if tier == "thorough" else ()):
        for L in (N, N + 1, 2 * N + 3):
            yield (N, tuple(math.sin(2.1 * i) * 10 ** (i % 4) for i in range(L)))
            yield (N, tuple(float(i == L // 2) for i in range(L)))
            yield (N, tuple(range(L)))
    for N in range(1, 9 if tier == "quick" else 13):
        for L in sorted({N, N + 1, 2 * N + 1, 14}):
            if L < N:
                continue
            for k in range(L):
                yield (N, tuple(float(i == k) for i in range(L)))
            yield (N, tuple(3.0 - 0.5 * i for i in range(L)))
            yield (N, tuple(math.sin(2.1 * i) * 10 ** (i % 4) for i in range(L)))
            yield (N, tuple(range(L)))
            yield (N, tuple((250, 255, 3, 200)[i % 4] for i in range(L)), "uint8")
            yield (N, tuple((100, 127, -128, 90)[i % 4] for i in range(L)), "int8")
            yield (N, tuple((0.5, 30.25, -7.0)[i % 3] for i in range(L)), "float32")
            yield (N, tuple(bool(i % 3) for i in range(L)), "bool")


def nearests(tier):
    """all arrays of length 1..4 (5) over five values x targets on, between and outside them"""
    vals = (-2.0, -0.5, 0.0, 1.0, 7.5)
    for n in range(1, 5 if tier == "quick" else 6):
        arrays = list(itertools.product(vals, repeat=n))
        for k in range(0, len(arrays), 100):
            for v in (-1e9, -2.0, -1.25, -0.4, 0.0, 0.3, 0.5, 1.0, 4.0, 4.25, 7.4, 100.0):
                yield (tuple(arrays[k:k + 100]), v, None)
    for v in (-3, 0, 2, 3, 9):
        yield (tuple(itertools.product((-2, 0, 3, 5), repeat=3)), v, None)
        yield (tuple(itertools.product((-2.0, 0.25, 3.5, 5.0), repeat=3)), v, "float32")
    for v in (0, 3, 90, 100, 120, 127, 17.5):  # small and unsigned integers
        yield (tuple(itertools.product((0, 1, 9, 100, 127), repeat=3)), v, "uint8")
        yield (tuple(itertools.product((-128, -100, 0, 9, 127), repeat=3)), v, "int8")
        yield (tuple(itertools.product((-30000, 0, 99, 32767), repeat=3)), 300 * v, "int16")
        yield (tuple(itertools.product((0, 7, 65535), repeat=3)), v, "uint64")
    for base, kind in ((1763600000000000000, "int64"), (-1763600000000000000, "int64"), (2 ** 53, "int64"), (2 ** 63, "uint64"), (2 ** 62, "uint64"), (2 ** 31, "uint32")):  # counts of nanoseconds
        for steps in itertools.permutations((0, 1, 3, 64, 200, 257)):
            a = tuple(base + s for s in steps)
            for v in (0, 1, 2, 60, 130, 230, 300):
                yield ((a,), base + v, kind)
    for n in (5, 8, 9, 12, 17, 33, 40, 64, 129):  # long, in order but for one element
        up = tuple(1.5 * i - 7 for i in range(n))
        for seq in (up, up[::-1]):
            for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
                for j in sorted({0, 2, n // 2, n - 1}):
                    moved = list(seq)
                    moved.insert(j, moved.pop(i))
                    for v in (-100.0, -3.1, 0.2, seq[i], seq[i] + 0.3, seq[j] - 0.4, 1e3):
                        yield ((tuple(moved),), v, None)
            for k in (1, 2, 3):
                yield ((seq[k:] + seq[:k], seq[::2] + seq[1::2], seq + (seq[0],) * k, (seq[n // 2],) * k + seq), seq[k] + 0.2, None)
    for a, v in (((1e7, 3e8, 5e9), 3.1e8), ((-4e12, 2e6, 1e6 + 0.5, 1e6), 1e6 + 0.3), ((1e300, -1e300, 1e299), 2e299), ((1e-12, 3e-12, 9e-13), 2.5e-12)):
        for p in itertools.permutations(a):
            yield ((p,), v, None)
    for n in (50, 1000):
        yield ((tuple(0.37 * i for i in range(n)), tuple(0.37 * (n - i) for i in range(n)), tuple(math.sin(9.1 * i) for i in range(n))), 0.7, None)


def logs(tier):
    """two to five knots over many decades: power laws and broken power laws"""
    for xs in ((1.0, 10.0), (0.01, 5.0, 1e4), (1e-9, 1e-3, 1.0, 20.0, 1e12), (1e-60, 1e-41, 1e-30), (2e30, 1e55), (300.0, 301.0, 305.0), (1, 2, 4, 8, 16)):
        for c, k in itertools.product((1.0, 3e-7, 5e8), (0.0, 1.0, -2.0, 0.5, 3.0)):
            for kind in ("array", "list", "tuple"):
                yield (xs, tuple(c * float(x) ** k for x in xs), (c, k), kind)
        for ys in itertools.product((1e-3, 1.0, 47.0), repeat=len(xs)):
            yield (xs, ys, None, "array")
            if len(xs) < 5:
                yield (xs, ys, None, "list")
    for n in (6, 9, 17, 60, 400):
        xs = tuple(10.0 ** (-3 + 9.0 * i / n) for i in range(n))
        for kind in ("array", "list"):
            yield (xs, tuple(3e-4 * x ** -1.5 for x in xs), (3e-4, -1.5), kind)
            yield (xs, tuple(10.0 ** (3 * math.sin(2.3 * i)) for i in range(n)), None, kind)


def tables(tier):
    """lengths 0..1200 x paddings x formats, mixed signs"""
    for n in (0, 1, 2, 9, 10, 11, 19, 20, 21, 30, 31, 99, 100, 101, 110, 111, 250, 1200):
        for left, right, indent in ((2, 0, 0), (1, 1, 0), (0, 1, 3), (3, 2, 5), (2, 1, 1)):
            for fmt in (".3f", ".4e", "g", "8.2f", "+.1f"):
                yield (tuple((-1) ** (k // 2) * (1.5 * k + 0.25) for k in range(n)), left, right, indent, fmt)
    for n in (9999, 10011, 20005, 65547, 100011):
        for left, right, indent in ((2, 0, 0), (1, 1, 3)):
            yield (tuple((-1) ** (k // 2) * (1.5 * k + 0.25) for k in range(n)), left, right, indent, ".3f")
    for n in (1, 4, 10, 21, 40):
        for left, right, indent in ((2, 0, 0), (7, 1, 0), (12, 0, 2), (1, 6, 9)):
            for fmt in ("d", "5d", "+d", ".2f", "e"):
                for step in (-3, -1000, 7, 123456):
                    yield (tuple(step * (k + 1) for k in range(n)), left, right, indent, fmt)
                yield (tuple((-1) ** k * 37 ** (k % 5) for k in range(n)), left, right, indent, fmt)


def spaced(tier):
    """one- and two-dimensional arrays of up to 2500 elements (one of 100003) x paddings x formats x widths x print settings already in force"""
    yield ((100003,), "", ".3f", " ", 75, 0)
    for shape in ((1,), (2,), (7,), (40,), (1001,), (2500,), (2, 3), (5, 4), (40, 40)):
        for left, right in ((" ", ""), ("", " "), ("  ", " "), ("", "     "), ("      ", "")):
            for fmt in (".3f", ".2e", "10.4f", "int"):
                for width in (8, 20, 75, 1000):
                    for s in range(len(SETTINGS)):
                        if shape[0] * (shape[1] if len(shape) > 1 else 1) > 500 and (width <= 20 or fmt == ".2e") and tier == "quick":
                            continue
                        yield (shape, left, fmt, right, width, s)


def spaces(tier):
    all_ = [("savgol", savgols, judge_savgol), ("bad_windows", bad_windows, judge_bad_window), ("averages", averages, judge_average),
            ("nearest", nearests, judge_nearest), ("log", logs, judge_log), ("tables", tables, judge_table), ("spaced", spaced, judge_spaced)]
    return [Space(n, (lambda g=g: g(tier)), j, note=g.__doc__) for n, g, j in all_]
