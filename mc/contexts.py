"""What an optic does to a ray must not depend on its context: the same meetings in systematically varied circumstances.

Each space takes a list of optic kinds (names of worlds.KINDS) and varies one circumstance at a time through its whole
alphabet: wavelength and order of the ray, company in the list, place in the list, repeated listing, number of earlier
interactions, runs, rays and free flights, distances travelled, lengths of direction vectors, sizes and parameters.
Every execution is compared with the reference tracer.
"""
import math

from mc import impl, ref, worlds as W
from mc.core import Space, product

INF = math.inf
MAIN = [W.FORWARD[0], W.FORWARD[1], W.BACKWARD[0]]


def judge(spec, ctx):
    """spec: (optics, listing, launches, form); listing: numbers of the optics as they are listed (repeats allowed);
    launches: (position, direction, wavelength, order, marker, show, runs); runs: (distance, limit) or ("fly", distance)"""
    optics, listing, launches, form = spec
    real = [impl.build(o, form) for o in optics]
    L = [real[i] for i in listing]
    uniq = list(dict.fromkeys(listing))
    model = [optics[i] for i in uniq]
    recs, whole = [], True
    for p, d, wl, m, marker, show, runs in launches:
        st = ref.State(p, d, wl, m, marker)
        r = impl.ray(p, d, wl, m, marker, form=form, show=show)
        for run in runs:
            if run[0] == "edit":  # one optic is given other parameters
                impl.edit(real[run[1]], optics[run[1]], run[2])
                optics = optics[:run[1]] + (run[2],) + optics[run[1] + 1:]
                model = [optics[i] for i in uniq]
            elif run[0] == "tint":  # the light gets another colour and order
                r.wavelength, r.order = run[1:]
                st.wavelength, st.order = run[1:]
            elif run[0] in ("put", "turn"):
                if run[0] == "put":
                    st.p = tuple(map(float, run[1]))
                    r.position = impl.arr(run[1])
                st.d = ref.unit(tuple(map(float, run[-1])))
                r.direction = impl.arr(st.d)
            elif run[0] == "fly":
                if not st.blocked:
                    st.p = ref.along(st.p, run[1], st.d)
                    st.history.append(st.p)
                    r.fly(run[1])
            else:
                ref.run(st, model, run[0], run[1])
                r.run(run[0], L, run[1]) if run[1] != INF else r.run(run[0], L)
        if not impl.compare(r, st, ctx, what="ray %s -> %s %s nm order %s: " % (p, d, wl, m)) and ctx.fails:
            return
        whole = whole and st.trust is None
        recs += [(uniq[i], x) for i, x in st.records]
    if whole:
        impl.check_records(optics, real, recs, ctx)


def once(ray, distance=200.0, limit=INF, **kw):
    p, d, wl, m = ray
    return (p, d, kw.get("wl", wl), kw.get("m", m), kw.get("marker", False), kw.get("show", False), ((distance, limit),))


WAVES = (0.1, 13.5, 99.0, 157, 254.3, 380, 400.0, 532.28, 632.8, 700, 780, 999.9, 1000, 1064.4, 1550, 2000.5, 10600.0, 1e6)
ORDERS = (-9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9)


def colours(names):
    """every wavelength and order"""
    for name in names:
        o = (W.optic(name, 0, 0), W.optic("flat", 1, 0))
        for wl in WAVES:
            yield (o, (0, 1), tuple(once(MAIN[0], wl=wl, m=m) for m in ORDERS), 0)
            yield (o, (0, 1), tuple(once(r, wl=wl, m=m) for r in MAIN for m in (0, 1)), 0)
        for m in ORDERS:
            yield (o, (0, 1), tuple(once(r, wl=wl, m=m) for r in MAIN for wl in (532, 1064.4)), 0)


FAR = [W.KINDS[n]((30.0 * i - 95, 150.0 + 13 * i, 230.0 + 41.0 * j), (0.1, -1, 0.2))
       for j in range(60) for i, n in enumerate(W.NAMES)]


def company(names):
    """other optics out of the way, none to a thousand, of one kind or of all, listed before, after and on both sides, and passive ones"""
    for name in names:
        o = W.optic(name, 0, 0)
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 21, 32, 33):
            for before in sorted({0, n // 2, n}):
                optics = tuple(FAR[:before]) + (o,) + tuple(FAR[before:n])
                yield (optics, tuple(range(n + 1)), tuple(once(r, 165.0) for r in MAIN), 0)
        for n in (65, 130, 215, 300, 530, 1070):
            yield (tuple(FAR[:n]) + (o,), tuple(range(n + 1)), (once(MAIN[0], 165.0),), 0)
        for other in W.NAMES:
            b = W.KINDS[other]((60.0, 20.0, 45.0), (0.1, -1, 0.2))
            for optics in ((o, b), (b, o), (b, o, W.KINDS[other]((-60.0, 20.0, 45.0), (0.1, -1, 0.2)))):
                yield (optics, tuple(range(len(optics))), tuple(once(r, 165.0) for r in MAIN), 0)
        for k in (1, 3, 8):
            passive = tuple((W.PASSIVE[i % 3], (0.1 * i, 2.0 + i, 0.0), (0, 1, 0)) for i in range(k))
            yield (passive + (o,), tuple(range(k + 1)), tuple(once(r, 165.0) for r in MAIN), 0)
            yield ((o,) + passive, tuple(range(k + 1)), tuple(once(r, 165.0) for r in MAIN), 0)


def listings(names):
    """the same optic listed two to five times, next to itself and apart"""
    for name in names:
        o = (W.optic(name, 0, 0), W.optic("convex", 1, 0), W.optic("flat", 2, 0))
        for listing in ((0, 0), (0, 0, 0, 0, 0), (0, 1, 0), (0, 1, 2, 0, 1, 2), (2, 0, 0, 1), (1, 2, 1, 0)):
            yield (o, listing, tuple(once(r, 250.0) for r in MAIN + W.MIDDLE[:1]), 0)


def depths(names):
    """the optic is the first to the hundred and thirty-first surface the ray meets, after a zigzag between two mirrors or a row of empty shells"""
    for name in names:
        n = ref.unit((0.1, -1.0, 0.2))
        for k in list(range(1, 14)) + [17, 25, 32, 40, 58, 63, 66, 100, 130]:
            y, last = 40.0 * k, 40.0 * k - 12.0  # a zigzag between mirrors 24 apart, 40 forwards from one bounce to the next; the ray then comes to the middle of the target
            zig = (("rect", (0.0, last / 2, 12.0), (0, 0, -1), (1, 0, 0), 30.0, last + 2.0), ("rect", (0.0, last / 2, -12.0), (0, 0, 1), (1, 0, 0), 30.0, last + 2.0))
            target = W.KINDS[name]((0.0, y, 0.0), n)
            ways = ((0, INF), (1, INF), (0, k), (0, k + 1), (0, k + 2), (1, k + 1)) if k < 14 else ((0, INF), (1, k + 1))
            yield (zig + (target,), (0, 1, 2), tuple(((0.3, 0.0, 0.4 + 0.05 * e), (0.01 / k, 1.0, 0.6 if k % 2 else -0.6), 532, e, False, False, ((y * math.hypot(1, 0.6) + 60.0, limit),))
                                                     for e, limit in ways), 0)
        for k in (1, 2, 3, 5, 8, 12):
            shells = tuple(("solid", ("sphere", (0.0, -100.0 + 7.0 * i, 0.0), 3.0), "refract", 1.0) if i % 2 else ("ball", (0.0, -100.0 + 7.0 * i, 0.0), 6.0, 1.0)
                           for i in range(k))
            target = W.KINDS[name]((0.0, 15.0, 0.0), n)
            yield (shells + (target,), tuple(range(k + 1)), tuple(((0.3, -110.0, 0.2), (0.001, 1.0, 0.003), 532, m, False, False, ((150.0, INF),)) for m in (0, 1)), 0)


def pasts(names):
    """rays with a past (instalments, free flights, printing, earlier runs) on optics with a past (one to sixty rays before)"""
    for name in names:
        o = (W.optic(name, 0, 0), W.optic("flat", 1, 0))
        for n in (1, 2, 3, 5, 8, 13, 24):
            for p, d, wl, m in MAIN:
                yield (o, (0, 1), ((p, d, wl, m, False, bool(n % 2), tuple((3.1, INF) for _ in range(n)) + ((200.0, INF),)),
                                   (p, d, wl, 1, False, False, tuple(("fly", 0.8) for _ in range(n)) + ((200.0, INF),)),
                                   (p, d, wl, 1, False, False, tuple((200.0, 1) for _ in range(n)) + ((50.0, INF), ("fly", 2.0), (40.0, INF))),
                                   (p, d, wl, m, True, False, tuple((3.1, INF) for _ in range(n)) + ((200.0, INF), (200.0, INF))),
                                   (p, d, wl, m, True, False, tuple(("fly", 0.8) for _ in range(n)) + ((200.0, 1), ("fly", 3.0), (50.0, INF)))), 0)
        for n in (1, 4, 11, 20, 60):
            launches = []
            for i in range(n):
                p, d, wl, m = W.ALL_RAYS[i % len(W.ALL_RAYS)]
                launches.append((ref.add(p, (0.03 * i, 0.0, 0.011 * i)), d, wl + i, m, i % 7 == 3, i % 5 == 2, ((180.0, INF),)))
            yield (o, (0, 1), tuple(launches) + tuple(once(r) for r in MAIN), 0)


def distances(names):
    """light from a thousandth of a millimetre to a hundred metres away; runs from just beyond the surface to a hundred kilometres; direction vectors of any length"""
    for name in names:
        o = W.optic(name, 0, 0)
        for p, d, wl, m in W.FORWARD[:2]:
            u = ref.unit(d)
            h, margin = ref.hit(o, p, u)
            if h is None:
                continue
            x = ref.along(p, h[0], u)
            for away in (1e-3, 0.1, 1.0, 7.7, 50.0, 99.9, 100.1, 333.0, 1e3, 2e3, 1e4, 1e5):
                yield ((o,), (0,), tuple((ref.along(x, -away, u), u, wl, k, False, False, ((away + 30.0, INF),)) for k in (m, 0, 1)), 0)
            for more in (1e-3, 0.5, 30.0, 1e3, 1e4, 1e6, 1e8):
                yield ((o,), (0,), tuple((p, d, wl, k, False, False, ((h[0] + more, INF),)) for k in (m, 0, 1)), 0)
            for length in (1e-8, 1e-3, 0.5, 1.5, 1e3, 1e9):
                yield ((o,), (0,), tuple((p, ref.mul(length, d), wl, k, False, False, ((150.0, INF),)) for k in (m, 0, 1)), 0)


INDICES = (0.2, 0.5, 0.75, 0.9, 0.99, 0.9999, 1.0, 1.00001, 1.0003, 1.01, 1.1, 1.2, 1.31, 1.33, 1.4, 1.46, 1.5, 1.517, 1.55, 1.6, 1.7, 1.75, 1.8, 1.85, 1.9, 1.95, 2.0,
           2.01, 2.2, 2.417, 2.6, 3.0, 3.42, 4.0, 5.0, 10.0)
FOCI = (0.4, 2.0, 9.9, 10.0, 25.0, 50.0, 99.0, 100.0, 101.0, 250.0, 500.0, 1000.0, 1234.5, 5e3, 2e4, 1e6)
GROOVES = (0.1, 1.0, 10.0, 50.0, 100, 150.5, 300, 600, 1000, 1200, 1800.0, 2400, 3600.0, 5000.0, 20000.0)
SIZES = (0.01, 0.5, 1.0, 5.0, 9.0, 12.7, 25.4, 50.8, 75.0, 100.0, 101.0, 150.0, 200.0, 333.3, 1000.0, 5000.0, 1e5)


def parameters(names):
    """every index, focal length, groove density, diameter, height and width of long lists, one at a time"""
    for name in names:
        o = W.optic(name, 0, 0)
        rays = tuple(once(r, 150.0, 8) for r in MAIN) + tuple(once(r, 150.0, 8, m=1, wl=61.3) for r in MAIN[:2])
        k = o[0]
        out = []
        if k == "ball":
            out += [o[:3] + (i,) for i in INDICES] + [o[:2] + (s, 1.52) for s in SIZES]
        if k == "solid":
            out += [o[:3] + (i,) for i in INDICES]
        if k in ("ideal", "collimate", "focus"):
            out += [o[:4] + (s * f,) for f in FOCI for s in (1, -1)] + [o[:3] + (s, o[4]) for s in SIZES]
        if k == "concave":
            out += [o[:4] + (f,) for f in FOCI if 2 * f > o[3]] + [o[:3] + (s, 0.8 * s) for s in SIZES]
        if k == "convex":
            out += [o[:2] + (s,) for s in SIZES]
        if k == "flat":
            out += [o[:3] + (s,) for s in SIZES]
        if k == "grating":
            out += [o[:6] + (g,) for g in GROOVES]
        if k in ("rect", "dmd", "grating", "detector"):
            out += [o[:4] + hw + o[6:] for s in SIZES for hw in ((s, o[5]), (o[4], s), (s, s), (s, 3.0 * s), (10.0 * s, s))]
        for x in out:
            yield ((x, W.optic("flat", 1, 0)), (0, 1), rays, 0)


def turns(names):
    """every orientation of a fan of normals over the whole sphere, met from both sides"""
    for name in names:
        for i in range(60):
            z = 1 - (2 * i + 1) / 60.0
            a = 2.399963 * i
            n = (math.sqrt(1 - z * z) * math.cos(a), math.sqrt(1 - z * z) * math.sin(a), z)
            c = (1.0 + 0.1 * i, -2.0, 3.0 - 0.2 * i)
            o = W.KINDS[name](c, n)
            t = W.frame(n)
            rays = []
            for k, side in ((0, 1), (1, -1), (2, 1)):
                d = ref.unit(ref.add(ref.mul(-side, n), ref.add(ref.mul(0.3 * math.cos(i + k), t), ref.mul(0.3 * math.sin(i + k), ref.cross(n, t)))))
                x = ref.add(c, ref.mul(1.1 + k, t))
                rays.append((ref.along(x, -31.0, d), d, 532, k - 1, False, False, ((70.0, INF),)))
            yield ((o,), (0,), tuple(rays), 0)


def inclines(names):
    """met in the middle at angles from thirty billionths of a radian off the normal to near grazing, from both sides, in several azimuths and orientations"""
    for name in names:
        for v, n in enumerate(((0.1, -1.0, 0.2), (0.0, 0.0, 1.0), (-0.6, 0.5, 0.7))):
            n = ref.unit(n)
            c = (1.0 - 3.0 * v, -2.0, 3.0 + v)
            o = W.KINDS[name](c, n)
            t = W.frame(n)
            s = ref.cross(n, t)
            for cos, sin in [(math.cos(a), math.sin(a)) for a in (3e-8, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.07)] + \
                    [(x, math.sqrt(1 - x * x)) for x in (0.97, 0.7, 0.5, 0.3, 0.2, 0.1, 0.07, 0.03, 0.01, 0.004, 0.0011)]:
                rays = []
                for side in (1, -1):
                    for k in range(4):
                        a = 0.4 + math.pi * k / 2
                        d = ref.unit(ref.add(ref.mul(-side * cos, n), ref.mul(sin, ref.add(ref.mul(math.cos(a), t), ref.mul(math.sin(a), s)))))
                        x = ref.add(c, ref.mul(0.3 * k - 0.4, t))
                        for m in (0, 1, -1) if name == "grating" else (0,):
                            rays.append((ref.along(x, -31.0, d), d, 532, m, False, False, ((70.0, INF),)))
                yield ((o,), (0,), tuple(rays), 0)


def superfluous(names):
    """optional parameters without a meaning for the kind of optic, given all the same"""
    for name in names:
        o = W.optic(name, 0, 0)
        for v in range(12):
            for form in (0, 1, 2):
                yield ((o, W.optic("flat", 1, 0)), (0, 1), tuple(once(r, 120.0) for r in MAIN + W.INSIDE[:1]) + tuple(once(r, 120.0, m=1) for r in MAIN[:1]), (form, v))
        if o[0] in ("convex", "ball"):  # whole spheres: a facing has no meaning for them, wherever they are met
            c = o[1]
            for n in ((0, 1, 0), (0, 0, -1), (1, 0, 0), (0.3, -0.5, 0.8)):
                rays = []
                for k, v in enumerate(((0, 1, 0), (0, -1, 0), (1, 0, 0), (-1, 0, 0), (0, 0, 1), (0, 0, -1), (0.3, -0.5, 0.8), (-0.3, 0.5, -0.8), (0.7, 0.7, 0.1))):
                    v = ref.unit(v)
                    for q in (0.0, 0.4, 3.0):
                        rays.append((ref.add(ref.along(c, -60.0, v), ref.mul(q, W.frame(v))), v))
                    rays.append((ref.along(c, 1.0, W.frame(v)), v))
                yield ((o,), (0,), tuple(once(r + (532, 0), 90.0) for r in rays), (0, {"normal": n}))
                yield ((o,), (0,), tuple(once(r + (532, 0), 90.0) for r in rays), (0, {"normal": ref.mul(2.0, n), "f": 30.0, "w": 4.0, "h": 4.0}))


def placed(names):
    """rays put somewhere else, or turned, by the caller between two runs, with and without an optic on the way before"""
    for name in names:
        o = (W.optic(name, 0, 0), W.optic("flat", 1, 0))
        for p, d, wl, m in MAIN:
            q = ref.add(p, (0.7, -3.0, -0.4))
            e = ref.add(d, (0.01, 0.0, -0.02))
            for first in (("run", 200.0), ("run", 200.0, 1), ("fly", 7.0), ("run", 3.0)):
                first = (first[1], first[2] if len(first) > 2 else INF) if first[0] == "run" else first
                for again in ((("put", q, d), (200.0, INF)), (("put", p, e), (200.0, INF)), (("put", q, e), ("fly", 1.0), (200.0, 1), (50.0, INF)),
                              (("put", p, d), (200.0, INF), ("put", q, d), (200.0, INF)), (("turn", ref.mul(-1, d)), (90.0, INF))):
                    yield (o, (0, 1), ((p, d, wl, m, False, False, (first,) + again), (p, d, wl, 1, False, True, again)), 0)


def tints(names):
    """light whose wavelength and order the caller changes between two runs, before and after meeting something"""
    for name in names:
        o = (W.optic(name, 0, 0), W.optic("flat", 1, 0))
        for p, d, wl, m in MAIN:
            for wl2, m2 in ((405.0, m), (wl, 1), (1064.4, -2), (61.3, 2), (633, 0)):
                for first in ((3.0, INF), (200.0, 0), (200.0, 1), ("fly", 2.0)):
                    yield (o, (0, 1), ((p, d, wl, m, False, False, (first, ("tint", wl2, m2), (200.0, INF))),
                                       (p, d, wl, 1, False, True, (first, ("tint", wl2, m2), ("put", p, d), (200.0, 1), ("tint", wl, m), (200.0, INF)))), 0)


def edits(names):
    """optics whose parameters (index, behaviour, tree, focal length, kind of lens, groove density, tilt of the facets) the caller changes, once and back again, before
    and after rays have met them"""
    for name in names:
        o = W.optic(name, 0, 0)
        k = o[0]
        if k == "ball":
            new = [o[:3] + (i,) for i in (1.0, 1.33, 1.8, 2.4)]
        elif k == "solid":
            new = [o[:2] + (b, i) for b in ("reflect", "refract") for i in (1.0, 1.33, 1.9)] + [o[:1] + (t,) + o[2:] for t in (("sphere", (0.5, 33.0, -1.0), 9.0), ("union", o[1], ("sphere", (2.0, 30.0, 1.0), 11.0)))]
        elif k in ("ideal", "collimate", "focus"):
            new = [(b,) + o[1:4] + (f,) for b in ("ideal", "collimate", "focus") for f in (o[4], 12.5, -40.0, 900.0)]
        elif k == "grating":
            new = [o[:6] + (g,) for g in (75.0, 300.0, 1200.0, 2000)]
        elif k in ("rect", "dmd"):
            new = [("rect",) + o[1:6]] + [("dmd",) + o[1:6] + (W.tilt(o[2], a, b),) for a, b in ((0.2, 0.1), (-0.2, 0.1), (0.0, 0.0))]
        else:
            continue
        run = lambda m: once(MAIN[0], 150.0, 8, m=m)
        for n in new:
            def change(a, b, q):
                return b[:6] + ((("edit", 0, q),) + b[6],)
            for m in (0, 1):
                yield ((o, W.optic("flat", 1, 0)), (0, 1), (change(o, run(m), n), run(m)), 0)
                yield ((o, W.optic("flat", 1, 0)), (0, 1), (run(m), change(o, run(m), n), run(m), change(n, run(m), o), run(m)), 0)
                for n2 in new[::3]:
                    yield ((o, W.optic("flat", 1, 0)), (0, 1), (run(m), change(o, run(m), n), change(n, run(m), n2)), 0)


GROUPS = (colours, company, listings, depths, pasts, distances, parameters, turns, inclines, superfluous, placed, tints)


def spaces(names, groups=GROUPS):
    return [Space("context_" + g.__name__, (lambda g=g: g(names)), judge, note=(g.__doc__ or "").strip()) for g in groups]
