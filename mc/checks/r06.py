import itertools
import math

from mc import contexts, impl, ref, worlds as W
from mc.checks.r01 import SPEC8, RAYS8, ends
from mc.checks.r05 import path, same
from mc.core import Space, product

PROPERTY = "R06"
INF = math.inf
RULE = ("scenes with passive elements inserted at every list position and place are compared with the same scene without them; marker "
        "rays and blocks are compared with the reference tracer")


def judge_passive(spec, ctx):
    optics, passive, where, rays, distance = spec
    plain = [impl.build(o) for o in optics]
    with_ = [impl.build(o) for o in optics]
    extra = [impl.build(o) for o in passive]
    for k, o in zip(where, extra):
        with_.insert(k, o)
    for p, d, wl, order, marker in rays:
        a, b = impl.ray(p, d, wl, order, marker), impl.ray(p, d, wl, order, marker)
        a.run(distance, plain)
        b.run(distance, with_)
        ctx.step(2 * (len(a.point_history) - 1))
        ctx.trace()
        ctx.state(impl.key(path(a)))
        if not same(path(a), path(b)):
            return ctx.fail("with %s: %s instead of %s" % ([o[0] for o in passive], impl.short(path(b)[0]), impl.short(path(a)[0])))


def judge_marker(spec, ctx):
    optics, rays, distance = spec[:3]
    real = [impl.build(o) for o in optics]
    for p, d, wl, order in rays:
        st = ref.run(ref.State(p, d, wl, order, marker=True, exact=len(spec) > 3), optics, distance)
        r = impl.ray(p, d, wl, order, True)
        before = impl.tup(r.direction)
        r.run(distance, real)
        impl.compare(r, st, ctx, what="marker %s -> %s: " % (p, d))
        if impl.tup(r.direction) != before:
            ctx.fail("a marker ray was deflected to %s" % r.direction)
        if not ctx.fails and st.blocked and st.trust is None:
            h = len(r.point_history)
            for again in (real, real[::-1], [], real[:1]):
                for limit in (ref.INF, 3):
                    r.run(distance, again, limit)
                    if len(r.point_history) != h or not r.blocked:
                        ctx.fail("a marker ray that had ended moved on")
        if ctx.fails:
            return
    for o, q in zip(optics, real):
        if o[0] == "detector" and len(q.hit_data):
            ctx.fail("a marker ray was recorded by a detector: %s" % q.hit_data)


def judge_block(spec, ctx):
    optics, rays, distance = spec
    real = [impl.build(o) for o in optics]
    for p, d, wl, order in rays:
        st = ref.run(ref.State(p, d, wl, order), optics, distance)
        r = impl.ray(p, d, wl, order)
        r.run(distance, real)
        impl.compare(r, st, ctx, what="%s -> %s: " % (p, d))
        if ctx.fails:
            return
        if r.blocked:
            there = path(r)
            for again in (real, [], real[:1]):
                r.run(distance, again)
                if path(r) != there:
                    return ctx.fail("an absorbed ray moved on: %s" % impl.short(path(r)[0]))


BEAMS = [r + (m,) for r in W.FORWARD[:3] + W.BACKWARD[:1] + W.MIDDLE[:2] for m in (False, True)]
SPOTS = [((0.3, 5.0, 0.1), (0, -1, 0)), ((0.4, 20.0, -0.7), (0.1, -1, 0.2)), ((0.0, 35.0, 0.0), (0, 1, 0)), ((0.4, 120.0, 0.0), (0.3, -1, 0))]


def passive(tier):
    """every pair of kinds, one passive element of each type at every list position and at four places in the beam"""
    names = W.NAMES if tier == "thorough" else W.NAMES[::2] + ["detector", "lens"]
    for a, b in product(names, names):
        optics = (W.optic(a, 0, 0), W.optic(b, 1, 1))
        for i, kind in enumerate(W.PASSIVE):
            for pos in range(3):
                spot = SPOTS[(i + pos) % 4]
                yield (optics, ((kind,) + spot,), (pos,), tuple(BEAMS), 200.0)
    for kind in W.PASSIVE:
        for spot in SPOTS:
            yield ((), ((kind,) + spot,), (0,), tuple(BEAMS), 200.0)
            for pos in range(9):
                yield (tuple(SPEC8), ((kind,) + spot,), (pos,), tuple(r + (False,) for r in RAYS8[:4]), 300.0)


def several(tier):
    """all combinations of up to three passive elements"""
    for kinds in itertools.product(W.PASSIVE, repeat=3):
        for spots in ((0, 1, 2), (3, 0, 1), (1, 1, 1)):
            yield (tuple(SPEC8[:4]), tuple((k,) + SPOTS[s] for k, s in zip(kinds, spots)), (0, 2, 6),
                   tuple(r + (False,) for r in RAYS8[:3]) + tuple(BEAMS[:4]), 300.0)


def markers(tier):
    """marker rays against every kind and pair of kinds, in, out of and at other ranges, from inside and from behind"""
    for name in W.NAMES:
        for place in range(3):
            for f in range(3):
                for distance in (30.0, 75.0, 400.0):
                    yield ((W.optic(name, place, f),), tuple(W.ALL_RAYS), distance)
    for a, b in product(W.NAMES, W.NAMES):
        yield ((W.optic(a, 1, 0), W.optic(b, 0, 1)), tuple(W.ALL_RAYS[:8]), 250.0)
    yield (tuple(SPEC8), tuple(RAYS8), 500.0)
    for optics, rays, distance in ends():
        yield (optics, rays, distance, "exact")


def blocks(tier):
    """a block at every place and orientation, before, behind and beside every kind"""
    for n in ((0, -1, 0), (0, 1, 0), (0.3, -0.8, 0.2), (1, 1, 0.1)):
        for c in ((0.2, 10.0, 0.1), (0.0, 38.0, 0.0), (30.0, 40.0, 9.0), (0.5, 80.0, -0.5)):
            t = W.frame(n)
            for outline in (("disc", 40.0), ("disc", 3.0), ("disc", 900.0), ("plane",), ("rect", t, 30.0, 8.0), ("rect", t, 5.0, 200.0)):
                yield ((("block", c, n, outline),), tuple(W.ALL_RAYS), 300.0)
                for distance in (900.0, 5e4):
                    yield ((("block", c, n, outline), W.optic("flat", 2, 0)), tuple(W.ALL_RAYS), distance)
            for name in W.NAMES:
                for order in (1, -1):
                    yield ((("block", c, n), W.optic(name, 0, 0))[::order], tuple(W.ALL_RAYS[:8]), 300.0)


def judge_types(spec, ctx):
    """only marker rays stop where they arrive: a ray of any other type is light"""
    optics, rays, distance, kind = spec
    real = [impl.build(o) for o in optics]
    for p, d, wl, order in rays:
        st = ref.run(ref.State(p, d, wl, order), optics, distance)
        r = impl.OP.Ray(impl.arr(p), impl.arr(d), wavelength=wl, order=order, type=kind)
        r.run(distance, real)
        if not impl.compare(r, st, ctx, what="ray of type %r %s -> %s: " % (kind, p, d)) and ctx.fails:
            return


def judge_own_class(spec, ctx):
    """passive elements of classes derived from the passive ones stay passive, whatever they would do to a ray if they were asked"""
    optics, kind, depth, pos, rays, distance = spec
    base = {"annotation": impl.OP.Annotation, "filter": impl.OP.Filter, "window": impl.OP.Window}[kind]
    asked = []

    class Own(base):
        def test_intersect(self, ray):
            asked.append("test")
            return True, ray.position + 0.5 * ray.direction, -1.0 * ray.direction, True

        def do_intersect(self, ray, *rest):
            asked.append("do")
            ray.blocked = True

    for _ in range(depth):
        class Own(Own):
            pass
    plain, with_ = [impl.build(o) for o in optics], [impl.build(o) for o in optics]
    with_.insert(pos, Own(impl.arr((0.3, 5.0, 0.1)), impl.arr((0.0, -1.0, 0.0)), impl.SH.Plane(impl.arr((0.3, 5.0, 0.1)), impl.arr((0.0, -1.0, 0.0)))))
    for p, d, wl, order, marker in rays:
        a, b = impl.ray(p, d, wl, order, marker), impl.ray(p, d, wl, order, marker)
        a.run(distance, plain)
        b.run(distance, with_)
        ctx.step(2 * (len(a.point_history) - 1))
        ctx.trace()
        ctx.state(impl.key(path(a)))
        if not same(path(a), path(b)):
            return ctx.fail("with an own kind of %s: %s instead of %s" % (kind, impl.short(path(b)[0]), impl.short(path(a)[0])))


def own_classes(tier):
    """classes derived from each passive one, once and twice removed, at every list position beside every kind"""
    for kind in W.PASSIVE:
        for depth in (0, 1, 2):
            for name in W.NAMES:
                for pos in range(3):
                    yield ((W.optic(name, 0, 0), W.optic("flat", 1, 1)), kind, depth, pos, tuple(BEAMS), 200.0)
            yield ((), kind, depth, 0, tuple(BEAMS), 200.0)


def near(tier):
    """marker rays, and light for blocks, that start a micrometre to a millimetre before the surface, on every kind"""
    for name in W.NAMES + ["block"]:
        o = W.optic(name, 0, 0) if name != "block" else ("block", (0.2, 10.0, 0.1), (0.3, -0.8, 0.2))
        rays = []
        for p, d, wl, m in W.ALL_RAYS:
            st = ref.run(ref.State(p, d, wl, m, marker=True), (o,), 400.0)
            if st.trust is None and st.blocked and ref.dist(st.history[-1], p) > 2e-3:
                rays += [(ref.along(st.history[-1], -gap, ref.unit(d)), d, wl, m) for gap in (3e-6, 2e-5, 1e-4, 4e-4, 1e-3)]
        for marker in (True, False) if name == "block" else (True,):
            for k in range(0, len(rays), 20):
                yield ((o,), (0,), tuple((p, d, wl, m, marker, False, ((9.0, INF),)) for p, d, wl, m in rays[k:k + 20]), 0)


def types(tier):
    """rays of other types than the two that have names, and the normal one by name, on every kind and on blocks"""
    for kind in ("normal", "chief", "marginal", "", "faerie", "Normal", "faerie fire", "FAERIE_FIRE", "ghost", None, 7):
        for name in W.NAMES + ["block"]:
            o = W.optic(name, 0, 0) if name != "block" else ("block", (0.2, 10.0, 0.1), (0.3, -0.8, 0.2))
            yield ((o, W.optic("flat", 1, 0)), tuple(W.ALL_RAYS[:10]), 250.0, kind)


ODD = ((0, 0), (0.0, 1), (1e-3, -2), (-1.0, 3), (1e6, -40), (532, 0.5))


def odd(tier):
    """rays of every unusual wavelength and order (zero, negative, huge, fractional) as light on blocks and plain optics, as
    markers on every kind, and on passive elements"""
    beams = [(p, d, wl, m) for p, d, _, _ in W.FORWARD[:2] + W.BACKWARD[:1] + W.MIDDLE[:1] for wl, m in ODD]
    for n in ((0, -1, 0), (0, 1, 0), (0.3, -0.8, 0.2)):
        yield ("light", (("block", (0.2, 10.0, 0.1), n),), tuple(beams), 300.0)
        for name in W.NAMES:
            if name != "grating":
                yield ("light", (W.optic(name, 0, 0), ("block", (0.5, 80.0, -0.5), n)), tuple(beams), 300.0)
    for name in W.NAMES:
        yield ("marker", (W.optic(name, 0, 0),), tuple(beams), 300.0)
        if name != "grating":
            for kind in W.PASSIVE:
                yield ("passive", (W.optic(name, 0, 0),), ((kind,) + SPOTS[0],), (1,), tuple(b + (m,) for b in beams[:8] for m in (False, True)), 200.0)


def judge_odd(spec, ctx):
    {"light": judge_block, "marker": judge_marker, "passive": judge_passive}[spec[0]](tuple(spec[1:]), ctx)


def instalments(tier):
    """marker rays and light for blocks that set out in instalments: short runs, limited runs, free flights and turns before the run that arrives"""
    lead = (((3.1, INF),), ((0.0, INF), (5.0, 0)), (("fly", 2.0),), (("fly", 1.0), (2.0, 1), ("fly", 0.5)), tuple((1.7, INF) for _ in range(9)),
            (("turn", (0.02, 1.0, 0.01)),), (("put", (0.2, -50.0, 0.3), (0.0, 1.0, 0.01)), (4.0, INF)), ((-3.0, INF), (2.0, INF)))
    tails = (((200.0, INF), (200.0, INF)), ((200.0, 1), ("fly", 3.0), (60.0, 2)))
    block = ("block", (0.5, 80.0, -0.5), (0.3, -0.8, 0.2), ("disc", 200.0))
    for name in W.NAMES + ["block"]:
        for f in range(3):
            o = (W.optic(name, 0, f), block) if name != "block" else (block, W.optic("flat", 2, 0))
            for a in lead:
                for b in tails:
                    yield (o, (0, 1), tuple((p, d, wl, m, True, show, a + b) for p, d, wl, m in W.FORWARD[:2] + W.BACKWARD[:1] for show in (False, True))
                           + tuple((p, d, wl, m, False, False, a + b) for p, d, wl, m in W.FORWARD[:2] if name != "grating"), 0)


def absorbers(tier):
    """blocks at the origin, near and far, met straight, at all inclinations and grazing, from a hair's breadth to kilometres away, with printing, and after many bounces"""
    for c in ((0.0, 0.0, 0.0), (0, 0, 0), (1e-3, 0.0, 0.0), (3.0, -2.0, 5.0), (-2e3, 1500.0, 7e2), (4e5, 1e5, -3e5)):
        for v, n in enumerate(((0, 0, 1), (0.0, -1.0, 0.0), (-0.6, 0.5, 0.7), (1, 0, 0))):
            u = ref.unit(n)
            t = W.frame(u)
            s = ref.cross(u, t)
            for outline in (("disc", 40.0), ("plane",), ("rect", t, 30.0, 18.0)):
                rays = []
                for cos in (1.0, 1 - 1e-9, 0.999, 0.9, 0.5, 0.2, 0.05, 0.01, 0.003):
                    sin = math.sqrt(1 - cos * cos)
                    for k, side in ((0, 1), (1, -1), (2, 1)):
                        a = 0.4 + 2.0 * k
                        d = ref.unit(ref.add(ref.mul(-side * cos, u), ref.mul(sin, ref.add(ref.mul(math.cos(a), t), ref.mul(math.sin(a), s)))))
                        x = ref.add(ref.add(tuple(map(float, c)), ref.mul(2.0 * k - 1.5, t)), ref.mul(1.0, s))
                        for away in (0.02, 1.0, 31.0, 400.0):
                            rays.append((ref.along(x, -away, d), d, 532, k - 1, k == 1, away == 1.0, ((away + 20.0, INF),)))
                yield ((("block", c, n, outline),), (0,), tuple(rays), 0)
    for k in list(range(1, 14)) + [17, 25, 40, 63, 66, 100, 130]:
        y, last = 40.0 * k, 40.0 * k - 12.0
        zig = (("rect", (0.0, last / 2, 12.0), (0, 0, -1), (1, 0, 0), 30.0, last + 2.0), ("rect", (0.0, last / 2, -12.0), (0, 0, 1), (1, 0, 0), 30.0, last + 2.0))
        yield (zig + (("block", (0.0, y, 0.0), (0.1, -1.0, 0.2)),), (0, 1, 2),
               tuple(((0.3, 0.0, 0.4 + 0.05 * m), (0.01 / k, 1.0, 0.6 if k % 2 else -0.6), 532, m, False, show, ((y * math.hypot(1, 0.6) + 60.0, INF),))
                     for m, show in ((0, False), (3, True), (7, False), (-5, False))), 0)
    for n in (1, 10, 60, 300, 1070):
        yield (tuple(contexts.FAR[:n]) + (("block", (0.5, 20.0, -0.5), (0.3, -0.8, 0.2)),), tuple(range(n + 1)), (contexts.once(W.FORWARD[0], 165.0), contexts.once(W.BACKWARD[0], 165.0)), 0)


def spaces(tier):
    return [Space("instalments", lambda: instalments(tier), contexts.judge, note=instalments.__doc__),
            Space("own_classes", lambda: own_classes(tier), judge_own_class, note=own_classes.__doc__),
            Space("near", lambda: near(tier), contexts.judge, note=near.__doc__),
            Space("absorbers", lambda: absorbers(tier), contexts.judge, note=absorbers.__doc__),
            Space("passive", lambda: passive(tier), judge_passive, note=passive.__doc__),
            Space("several", lambda: several(tier), judge_passive, note=several.__doc__),
            Space("markers", lambda: markers(tier), judge_marker, note=markers.__doc__),
            Space("types", lambda: types(tier), judge_types, note=types.__doc__),
            Space("odd", lambda: odd(tier), judge_odd, note=odd.__doc__),
            Space("blocks", lambda: blocks(tier), judge_block, note=blocks.__doc__)]
