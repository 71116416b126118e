import copy
import itertools
import math

import numpy as np

import optics3d as OP

from mc import contexts, impl, ref, worlds as W
from mc.checks.r01 import SPEC8, RAYS8
from mc.core import Space, product

PROPERTY = "R05"
RULE = ("the same rays traced through the same optics in every listing order, ray order, number of repetitions, printing mode and "
        "sharing of arrays; paths are compared between executions and with the reference tracer; optics and caller data are "
        "deep-compared before and after")


def freeze(x, seen=None):
    """deep, comparable picture of an object's present data (detector records left out)"""
    seen = seen or ()
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.kind, tuple(x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(i, seen) for i in x)
    if isinstance(x, dict):
        return {k: freeze(v, seen) for k, v in x.items()}
    if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x):
        if id(x) in seen:
            return "again"
        return {k: freeze(v, seen + (id(x),)) for k, v in impl.data_of(x).items()}
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return x if not isinstance(x, np.generic) else x.item()
    return repr(type(x))


def diff(a, b, where=""):
    """first difference in what was there before (attributes that appear later, such as caches, do not count)"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s.%s disappeared" % (where, k)
            d = diff(a[k], b[k], where + "." + k)
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, where + "[%d]" % i)
            if d:
                return d
        return None
    if a != b and not (a != a and b != b):
        return "%s changed from %s to %s" % (where, str(a)[:80], str(b)[:80])
    return None


def path(r):
    return impl.hist(r), impl.tup(r.direction), bool(r.blocked), impl.tup(r.position)


def same(a, b):
    """the same calculation done twice may differ by rounding only, which later legs can magnify"""
    tol = lambda i: 1e-10 if i < 4 else 1e-9 if i < 12 else 1e-7
    return len(a[0]) == len(b[0]) and a[2] == b[2] and all(impl.close(x, y, tol(i)) for i, (x, y) in enumerate(zip(a[0], b[0]))) and \
        impl.close(a[1], b[1], tol(len(a[0]) - 1))


def expected(optics, rays, distance):
    out = []
    for ray in rays:
        st = ref.run(ref.State(*ray), optics, distance)
        out.append(st)
    return out


def check(r, st, ctx, what):
    impl.compare(r, st, ctx, what=what)
    return not ctx.fails


def judge_orders(spec, ctx):
    """optics listed in the given order, rays traced in the given order, twice"""
    optics, rays, oorder, rorder, distance = spec
    real = [impl.build(o) for o in optics]
    want = expected(optics, rays, distance)
    listed = [real[i] for i in oorder]
    before = freeze(listed)
    ids = [id(x) for x in listed]
    for rep in range(2):
        for k in rorder:
            r = impl.ray(*rays[k])
            r.run(distance, listed)
            if not check(r, want[k], ctx, "optics in order %s, rays in order %s, pass %d, ray %d: " % (oorder, rorder, rep, k)):
                return
    if [id(x) for x in listed] != ids:
        return ctx.fail("the caller's list of optics was changed")
    d = diff(before, freeze(listed), "optics")
    if d:
        ctx.fail("tracing changed an optic: " + d)


def judge_effects(spec, ctx):
    """no input array, list, other ray or optic changes, whatever is shared between them"""
    optics, rays, form, distance, show, shared = spec
    args = []
    real = [build_recording(o, form, args, shared) for o in optics]
    frozen, ids = freeze(real), [id(x) for x in real]
    printed = [repr(o) for o in real]
    rs = []
    for ray in rays:
        p, d = impl.arr(ray[0], form), impl.vec(ray[1], form)
        args.append(p)
        args.append(d)
        kw = dict(wavelength=ray[2], order=ray[3])
        if show:
            kw["print_trajectory"] = True
        rs.append(OP.Ray(p, d, **kw))
        if shared:
            rs.append(OP.Ray(p, d, **kw))
    snap = freeze(args)
    want = expected(optics, rays, distance)
    for i, r in enumerate(rs):
        others = [path(x) for j, x in enumerate(rs) if j != i]
        r.run(distance, real)
        if [path(x) for j, x in enumerate(rs) if j != i] != others:
            return ctx.fail("tracing ray %d changed another ray" % i)
        if not check(r, want[i // 2 if shared else i], ctx, "ray %d (printing %s, shared arrays %s): " % (i, show, shared)):
            return
        if [id(x) for x in real] != ids:
            return ctx.fail("ray %d: the caller's list of optics was changed" % i)
        for o in real:
            repr(o)
        if [repr(o) for o in real] != printed:
            return ctx.fail("ray %d: the optics print as %s after tracing, %s before" % (i, [repr(o)[:300] for o in real], [s[:300] for s in printed]))
    d = diff(snap, freeze(args), "argument")
    if d:
        return ctx.fail("an argument array was changed: " + d)
    d = diff(frozen, freeze(real), "optics")
    if d:
        ctx.fail("tracing changed an optic: " + d)


def build_recording(o, form, args, shared):
    """like impl.build, keeping every array handed over; with `shared`, equal arrays are one object"""
    pool = {}

    def rec(maker):
        def make(v, form=0):
            key = (maker is real_vec, tuple(v))
            if shared and key in pool:
                return pool[key]
            a = maker(v, form)
            pool[key] = a
            args.append(a)
            return a
        return make
    real_arr, real_vec = impl.arr, impl.vec
    impl.arr, impl.vec = rec(real_arr), rec(real_vec)
    try:
        return impl.build(o, form)
    finally:
        impl.arr, impl.vec = real_arr, real_vec


def judge_print(spec, ctx):
    """printing on and off, a fresh scene and a well-used one"""
    optics, rays, distance = spec
    used = [impl.build(o) for o in optics]
    for k, ray in enumerate(rays):
        quiet = impl.ray(*ray)
        quiet.run(distance, [impl.build(o) for o in optics])
        loud = impl.ray(*ray, show=True)
        loud.run(distance, used)
        again = impl.ray(*ray)
        again.run(distance, used)
        ctx.step(3 * (len(quiet.point_history) - 1))
        ctx.trace()
        if not same(path(quiet), path(loud)):
            return ctx.fail("ray %d: %s without printing, %s with printing on used optics" % (k, path(quiet), path(loud)))
        if not same(path(quiet), path(again)):
            return ctx.fail("ray %d: %s on fresh optics, %s on used optics" % (k, path(quiet), path(again)))
        ctx.state(impl.key(path(quiet)))


def judge_repeat(spec, ctx):
    """the n-th ray through the same optics goes the same way as the first"""
    optics, ray, n, distance = spec
    real = [impl.build(o) for o in optics]
    st = ref.run(ref.State(*ray), optics, distance)
    first = None
    for i in range(n):
        r = impl.ray(*ray)
        r.run(distance, real)
        if i % 3 == 2:
            other = impl.ray(ref.add(ray[0], (0.3, 0.1, 0.2)), ray[1], 400 + i, -ray[3])
            other.run(distance, real)
        first = first or path(r)
        if not same(first, path(r)):
            return ctx.fail("use number %d of the optics gives %s instead of %s" % (i + 1, path(r)[0][:6], first[0][:6]))
    ctx.step(n * len(first[0]))
    impl.compare(r, st, ctx)


def listings(tier):
    """all orders of five optics (thorough: six), all rotations of longer lists, and all orders of four rays"""
    for scene in (SPEC8[:5], SPEC8[3:8]) if tier == "quick" else (SPEC8[:6], SPEC8[2:8]):
        for q in itertools.permutations(range(len(scene))):
            yield (tuple(scene), tuple(RAYS8[:4]), q, (2, 0, 3, 1), 300.0)
    wide = SPEC8 + [W.KINDS[n]((90.0 + 30 * i, 20.0 * i, -70.0), (0, -1, 0)) for i, n in enumerate(W.NAMES)]
    for n in (8, 9, 10, 13, 17, 26):
        for k in range(n):
            q = tuple(range(k, n)) + tuple(range(k))
            yield (tuple(wide[:n]), tuple(RAYS8[:2]), q, (1, 0), 300.0)
            yield (tuple(wide[:n]), tuple(RAYS8[:2]), q[::-1], (0, 1), 300.0)
    for scene in (SPEC8, SPEC8[1:5]):
        for q in itertools.permutations(range(4)):
            yield (tuple(scene), tuple(RAYS8[:4]), tuple(range(len(scene))), q, 300.0)


def effects(tier):
    """every kind alone and in pairs, float and integer arrays and non-unit normals, printing on and off, shared arrays"""
    rays = [W.FORWARD[0], W.FORWARD[2], W.BACKWARD[0], W.INSIDE[0]]
    for name in W.NAMES:
        for form in (0, 1, 2, 3):
            for show in (False, True):
                for shared in (False, True):
                    for f in range(3):
                        yield ((W.optic(name, 0, f),), tuple(rays), form, 120.0, show, shared)
    for a, b in product(W.NAMES, W.NAMES):
        yield ((W.optic(a, 0, 0), W.optic(b, 1, 1)), tuple(rays[:2]), 0, 200.0, True, False)
    note = ("annotation", (0.0, 11.0, 0.0), (0.0, -1.0, 0.0))
    for a in W.NAMES:
        for scene in ((note, W.optic(a, 0, 0)), (W.optic(a, 0, 1), note), (note, note, W.optic(a, 0, 2), note)):
            yield (scene, tuple(rays[:2]), 0, 200.0, False, False)
    for op, how in product(("union", "difference", "intersect"), ("refract", "reflect")):
        s, q, v = ("sphere", (0.0, 22.0, 0.0), 9.0), ("sphere", (0.0, 27.0, 3.0), 7.0), ("cyl", (1.0, 21.0, 0.0), (0.2, 0.1, 1), 4.0)
        for op2 in ("union", "difference", "intersect"):
            for tree in ((op, s, (op2, q, v)), (op, (op2, s, q), v), (op, (op2, s, q), (op2, q, v)), (op, s, (op2, q, (op, v, s)))):
                for show in (False, True):
                    yield ((("solid", tree, how, 1.5),), tuple(rays), 0, 120.0, show, False)
    # long journeys: hundreds of meetings between two mirrors, in a shell, a glass ball and a tube
    pair = (("flat", (0.0, 9.0, 0.0), (0, -1, 0), 4e3), ("rect", (0.0, -3.0, 0.0), (0, 1, 0), (0, 0, 1), 4e3, 4e3))
    for scene, dist in ((pair, 2000.0), ((("convex", (0.0, 1.0, 0.0), 20.0),), 3000.0), ((("solid", ("sphere", (0.0, 1.0, 0.0), 10.0), "reflect", 1.5),), 3000.0),
                        ((("solid", ("cyl", (0.0, 1.0, 0.0), (0, 0.1, 1), 10.0), "reflect", 1.5),), 3000.0)):
        for form in (0, 1):
            for show in (False, True):
                yield (scene, (((1, 2, -1), (1, 2, 0), 532, 0), ((-1, 3, 1), (-2, 3, 1), 633, 1)), form, dist, show, False)
    ints = [("flat", (0, 30, 0), (0, -1, 1), 20), ("rect", (0, 10, 30), (0, 1, -1), (1, 0, 0), 40, 40),
            ("ball", (0, 15, 1), 8, 1.5), ("grating", (0, 30, 30), (0, -3, 0), (1, 0, 0), 30, 30, 300), ("convex", (0, -20, 2), 10),
            ("solid", ("cyl", (0, 10, 0), (0, 0, 1), 4), "refract", 1.5), ("ideal", (0, 20, 0), (0, 2, 0), 20, 15),
            ("solid", ("difference", ("cyl", (0, 10, 0), (1, 0, 0), 4), ("sphere", (0, 12, 0), 3)), "refract", 1.5),
            ("detector", (0, 40, 0), (0, -1, 0), (0, 0, 1), 30, 30), ("concave", (0, 33, 0), (0, -1, 0), 20, 25)]
    iray = [((1, -5, 2), (0, 1, 0), 532, 1), ((-2, -8, 1), (0, 4, 1), 633, -1)]
    for o in ints:
        for form in (0, 1):
            for shared in (False, True):
                yield ((o,), tuple(iray), form, 90, True, shared)
                yield ((o, ints[0], ints[8]), tuple(iray), form, 90, False, shared)


def printing(tier):
    """every pair of kinds: printing on a used scene against silence on a fresh scene"""
    for a, b in product(W.NAMES, W.NAMES):
        yield ((W.optic(a, 0, 0), W.optic(b, 1, 0)), tuple(W.FORWARD[:2]), 200.0)
    for i in range(3):
        yield (tuple(SPEC8), tuple(RAYS8), 200.0 + 150 * i)


def repeats(tier):
    """every kind used many times over, alone and in the scene of eight"""
    n = 40 if tier == "quick" else 400
    for name in W.NAMES:
        for f in range(2):
            for ray in (W.FORWARD[1], W.BACKWARD[1], W.INSIDE[0]):
                yield ((W.optic(name, 0, f),), ray, n, 150.0)
    for ray in RAYS8:
        yield (tuple(SPEC8), ray, n, 300.0)


def twin(o, k, eps):
    """the optic with one of its numbers (or one component of its vectors) changed by about eps of itself"""
    flat = []

    def walk(x, path):
        if isinstance(x, (tuple, list)):
            for i, y in enumerate(x):
                walk(y, path + (i,))
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            flat.append(path)
    walk(o, ())

    def change(x, path):
        if not path:
            return float(x) + eps * (abs(x) + 0.3)
        return tuple(change(y, path[1:]) if i == path[0] else y for i, y in enumerate(x))
    return change(o, flat[k]) if k < len(flat) else None


def twins(tier):
    """every kind next to a near copy (one number changed by a tenth down to a millionth), used in turn: neither answers for the other"""
    for name in W.NAMES:
        o = W.optic(name, 0, 0)
        for eps in (0.1, 3e-3, 2e-4, 1e-5) if tier == "quick" else (0.1, 0.02, 3e-3, 6e-4, 2e-4, 3e-5, 1e-5, 2e-6, 2e-7):
            for k in range(40):
                q = twin(o, k, eps)
                if q is None:
                    break
                if o[0] in ("rect", "dmd", "grating", "detector"):  # keep the tangent perpendicular
                    q = q[:3] + (ref.perp(q[3], ref.unit(q[2])),) + q[4:]
                yield (o, q, (W.FORWARD[0], W.FORWARD[2], W.BACKWARD[0], W.SIDE[0], W.INSIDE[0]), 130.0)


def judge_twins(spec, ctx):
    o, q, rays, distance = spec
    want = [expected((x,), rays, distance) for x in (o, q)]
    for first in (0, 1):
        real = [impl.build(o), impl.build(q)]
        for k in range(len(rays)):
            for which in (first, 1 - first):
                r = impl.ray(*rays[k])
                r.run(distance, [real[which]])
                impl.compare(r, want[which][k], ctx, what="after the near copy was used (%s, then %s): ray %d: " % ((o, q)[first], (o, q)[1 - first], k), tol=1e-8)
                if ctx.fails:
                    return


def neighbours(tier):
    """every kind, met by a ray and then by others that differ from it in one number by a hundredth down to a hundred-millionth, in both orders"""
    for name in W.NAMES:
        for f in range(3):
            o = W.optic(name, 0, f)
            for ray in (W.FORWARD[1], W.BACKWARD[1], W.INSIDE[0], W.SIDE[0]):
                for eps in (1e-2, 1e-3, 1e-4, 3e-5, 1e-5, 1e-6, 1e-8) if tier == "quick" else (1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 3e-6, 1e-6, 1e-7, 1e-8):
                    yield (o, ray, eps, 130.0)


def judge_neighbours(spec, ctx):
    o, (p, d, wl, order), eps, distance = spec
    rays = [(p, d, wl, order)]
    for k in range(3):
        for s in (1, -1):
            step = tuple(s * eps * (i == k) for i in range(3))
            rays += [(ref.add(p, step), d, wl, order), (p, ref.add(d, step), wl, order), (ref.add(p, step), ref.add(d, step), wl, order)]
    rays += [(p, d, wl * (1 + eps), order), (p, d, wl * (1 - eps), order)]
    want = expected((o,), rays, distance)
    for listed in (range(len(rays)), range(len(rays) - 1, -1, -1)):
        real = [impl.build(o)]
        for k in listed:
            r = impl.ray(*rays[k])
            r.run(distance, real)
            impl.compare(r, want[k], ctx, what="after a ray that differs from it by %g: " % eps, tol=1e-8)
            if ctx.fails:
                return


def steps(tier):
    """every kind, orientation and number form: a run taken apart into its public steps (search, flight, interaction, lookup of the index), each done twice where it should not matter"""
    for name in W.NAMES + ["block"]:
        for place in range(3):
            for f in range(3):
                o = W.optic(name, place, f) if name != "block" else ("block", (0.3, 20.0 + 30 * place, -0.2), ((0, -1, 0), (0.3, -0.8, 0.2), (0.1, 1, 0.2))[f])
                for form in (0, 2, 3):
                    yield (o, tuple(W.ALL_RAYS), form)


def judge_steps(spec, ctx):
    o, rays, form = spec
    q = impl.build(o, form)
    optic = freeze(q)
    for p, d, wl, order in rays:
        r = impl.ray(p, d, wl, order)
        what = "%s -> %s at %s: " % (p, d, o)
        before = freeze(vars(r))
        first = q.test_intersect(r)
        if not isinstance(first, tuple) or len(first) != 4:
            ctx.skip("the search answers in another form")
            return
        seen = freeze(first)
        again = freeze(q.test_intersect(r))
        ctx.step(2)
        ctx.state(impl.key(*(impl.tup(x) if isinstance(x, np.ndarray) else None for x in first[1:3])), bool(first[0]))
        if diff(before, freeze(vars(r))):
            return ctx.fail(what + "looking for the surface changed the ray: " + diff(before, freeze(vars(r))))
        if seen != again or freeze(first) != seen:
            return ctx.fail(what + "looking for the surface twice gives %s and %s" % (seen, again))
        if not first[0]:
            continue
        pt, normal = first[1], first[2]
        r.fly(ref.dist(impl.tup(r.position), impl.tup(pt)))
        there = freeze((pt, normal))
        so_far = freeze([x for x in r.point_history])
        kind, wave, m = r.type, r.wavelength, r.order
        q.do_intersect(r, pt, normal, first[3])
        ctx.step()
        ctx.trace()
        if freeze((pt, normal)) != there:
            return ctx.fail(what + "interacting changed the point or the normal it was given: " + diff(there, freeze((pt, normal))))
        if diff(so_far, freeze([x for x in r.point_history][:len(so_far)])):
            return ctx.fail(what + "interacting changed the recorded path")
        if (r.type, r.wavelength, r.order) != (kind, wave, m):
            return ctx.fail(what + "interacting changed the ray's kind, wavelength or order")
        where = np.array(impl.tup(pt))
        asked = freeze(where)
        a = freeze(q.get_index_at_point_if_inside(where))
        b = freeze(q.get_index_at_point_if_inside(where))
        if freeze(where) != asked or a != b:
            return ctx.fail(what + "asking for the index changes the point, or the answer: %s, %s" % (a, b))
    d = diff(optic, freeze(q))
    if d:
        ctx.fail("the optic changed: " + d)


DISTANCES = {"int": int, "float64": np.float64, "float32": np.float32, "int64": np.int64, "0-d": lambda x: np.array(float(x)), "0-d, whole": lambda x: np.array(int(x))}


def distances(tier):
    """every kind and two pairs of mirrors x distances and limits in every type of number, the same objects used for one run after another"""
    pair = (("flat", (0.0, 9.0, 0.0), (0, -1, 0), 4e3), ("rect", (0.0, -3.0, 0.0), (0, 1, 0), (0, 0, 1), 4e3, 4e3))
    for scene in ((), pair, pair[:1]) + tuple((W.optic(n, 0, 0),) for n in W.NAMES):
        for kind, limit, dist in product(DISTANCES, (None,) + tuple(DISTANCES), (1, 61, 120)):
            yield (scene, tuple(W.FORWARD[:2]), dist, kind, 3, limit)


def judge_distances(spec, ctx):
    optics, rays, dist, kind, most, how = spec
    real = [impl.build(o) for o in optics]
    far, most = DISTANCES[kind](dist), (DISTANCES[how](most) if how else np.inf)
    for k in (0, 1, 0):
        st = ref.run(ref.State(*rays[k]), optics, float(dist), 3 if how else np.inf)
        r = impl.ray(*rays[k])
        r.run(far, real, most)
        if float(far) != dist or (how and float(most) != 3):
            return ctx.fail("a run changed the distance or limit it was given (%s, %s) to %r, %r" % (kind, how, far, most))
        impl.compare(r, st, ctx, what="distance %d as %s, limit as %s: " % (dist, kind, how))
        if ctx.fails:
            return


def splitters(tier):
    """two mirrors that each send a new ray through other optics, or through the whole scene, whenever one acts on a ray, before or after acting"""
    for i in range(12 if tier == "quick" else 80):
        a = ("flat", (0.0, 30.0, 0.0), W.tilt((0, -1, 0), 0.02 * math.sin(i), 0.03 * math.cos(2 * i)), 60.0)
        b = ("concave", (0.0, -20.0, 0.0), (0, 1, 0), 90.0, 60.0)
        for others in ((), tuple(SPEC8[:3]), (("detector", (0.0, 40.0, 0.0), (0, -1, 0), (0, 0, 1), 90.0, 90.0),)):
            for when, depth in product((0, 1), (0, 1, 2)):
                yield ((a, b), others, ((0.3 * math.cos(i), 1.0, 0.2), (0.02 * math.cos(3 * i), 1.0, 0.03 * math.sin(i)), 532, 1), 260.0, when, depth)


def judge_splitters(spec, ctx):
    optics, others, ray, distance, when, depth = spec
    real, apart = [impl.build(o) for o in optics], [impl.build(o) for o in others]
    level, sent = [0], []

    class Splitter(OP.Mirror):
        def do_intersect(self, ray, *rest):
            if when:
                super().do_intersect(ray, *rest)
            if level[0] < depth:
                level[0] += 1
                new = OP.Ray(np.array(impl.tup(ray.position)), np.array((0.1, 0.9, -0.2)), order=0)
                begun = path(new)
                new.run(45.0, apart + real)
                sent.append((begun, path(new), tuple(map(float, begun[0][0]))))
                level[0] -= 1
            if not when:
                super().do_intersect(ray, *rest)
    for m in real:
        m.__class__ = Splitter
    st = ref.run(ref.State(*ray), optics, distance)
    r = impl.ray(*ray)
    r.run(distance, real)
    impl.compare(r, st, ctx, what="rays sent from within the interaction (depth %d): " % depth)
    if ctx.fails:
        return
    for begun, ended, start in sent:
        length = sum(ref.dist(x, y) for x, y in zip(ended[0], ended[0][1:]))
        if ended[0][0] != begun[0][0] or (not ended[2] and abs(length - 45.0) > 1e-9):
            return ctx.fail("a ray sent from within an interaction at %s goes %r of 45: %s" % (start, length, ended[0][:4]))


def spaces(tier):
    return contexts.spaces(W.NAMES, (contexts.edits,)) + [Space("distances", lambda: distances(tier), judge_distances, note=distances.__doc__),
            Space("splitters", lambda: splitters(tier), judge_splitters, note=splitters.__doc__), Space("steps", lambda: steps(tier), judge_steps, note=steps.__doc__),
            Space("listings", lambda: listings(tier), judge_orders, note=listings.__doc__),
            Space("effects", lambda: effects(tier), judge_effects, note=effects.__doc__),
            Space("neighbours", lambda: neighbours(tier), judge_neighbours, note=neighbours.__doc__),
            Space("twins", lambda: twins(tier), judge_twins, note=twins.__doc__),
            Space("printing", lambda: printing(tier), judge_print, note=printing.__doc__),
            Space("repeats", lambda: repeats(tier), judge_repeat, note=repeats.__doc__)]
