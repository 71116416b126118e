import itertools
import math

from mc import contexts, csg, impl, ref, worlds as W
from mc.checks.c01 import GROUPS
from mc.core import Space, product

PROPERTY = "C02"
RULE = ("every tree of up to four leaves over overlapping, nested, hollow and separate primitives x rays from outside, inside, cavities and "
        "overlaps; the ray's first leg and reflected direction are compared with the interval-algebra model")


def judge(spec, ctx):
    tree, rays, form = spec
    optic = ("solid", tree, "reflect", 1.5)
    real = [impl.build(optic, form)]
    for p, d in rays:
        st = ref.run(ref.State(p, d), (optic,), 200.0, 1)
        r = impl.ray(p, d, form=form)
        r.run(200.0, real, max_interactions=1)
        impl.compare(r, st, ctx, what="%s -> %s: " % (p, d))
        if ctx.fails:
            return


def judge_edits(spec, ctx):
    """the solid follows its tree: a node is replaced after the solid was met by rays, and met again"""
    tree, edits, rays = spec
    root = impl.tree(tree)
    solid = impl.OP.Compound(root, surface_behavior="reflect")
    for step in [None] + list(edits):
        if step is not None:
            tree = csg.replaced(tree, *step)
            csg.edit(root, step[0], step[1] if step[1] in csg.OPS else impl.prim(step[1]))
        for p, d in rays:
            st = ref.run(ref.State(p, d), (("solid", tree, "reflect", 1.5),), 200.0, 2)
            r = impl.ray(p, d)
            r.run(200.0, [solid], max_interactions=2)
            impl.compare(r, st, ctx, what="after the edits %s: %s -> %s: " % (edits, p, d))
            if ctx.fails:
                return


def edited(tier):
    """every tree of one to three leaves, every node replaced by every other operation or primitive, there and back"""
    for group in SETS[1:3]:
        for n in (1, 2, 3):
            for i, t in enumerate(csg.trees(group[:n], n)):
                for k, e in enumerate(csg.edits(t, group[:4], 1)):
                    yield (t, e, tuple(fan("short")[(i + k) % 3::3]))


def judge_walk(spec, ctx):
    """walk through the whole solid from crossing to crossing: every boundary is met, in order, and nothing else"""
    tree, p, d = spec
    optic = ("solid", tree, "reflect", 1.5)
    solid = impl.build(optic)
    x, u = p, ref.unit(d)
    for k in range(12):
        h, m = ref.hit(optic, x, u)
        if m < ref.EPS:
            return ctx.skip("margin")
        r = impl.ray(x, u)
        r.run(300.0, [solid], max_interactions=1)
        ctx.step()
        end = impl.tup(r.position)
        want = ref.along(x, 300.0 if h is None else h[0], u)
        if not impl.close(end, want):
            return ctx.fail("%s: from %s along %s the boundary is met at %s, expected %s" % (tree, x, u, end, want))
        ctx.state(impl.key(want))
        if h is None:
            break
        x = want
    ctx.trace()


S = lambda x, y, z, R: ("sphere", (x, y, z), R)
# nested, hollow, separate, overlapping
SETS = list(GROUPS) + [
    (S(0.0, 0.0, 0.0, 9.0), S(0.3, 0.2, -0.1, 6.0), S(-0.2, 0.1, 0.3, 3.0), S(20.0, 1.0, 0.0, 4.0)),
    (("cyl", (0.0, 0.0, 0.0), (0.1, 0.2, 1), 6.0), ("cyl", (0.5, 0.3, 0.0), (0.1, 0.2, 1), 3.0), S(0.0, 1.0, 2.0, 7.0), ("cyl", (0.0, 0.0, 0.0), (1, 0, 0.1), 2.0)),
    (S(-10.0, 0.0, 0.0, 3.0), S(0.0, 0.5, 0.0, 3.0), S(10.0, -0.5, 0.2, 3.0), ("cyl", (0.0, 0.0, 0.0), (1, 0, 0), 1.0)),
]


def fan(kind):
    out = []
    starts = [(-30.0, 0.4, 0.2), (31.0, -0.3, 0.5), (0.2, 28.0, 0.3), (-20.0, -22.0, 1.0), (0.6, 0.3, -26.0)]
    for i, p in enumerate(starts):
        for q in ((0.3, 0.2, 0.1), (1.0, -1.3, 0.4)) if kind == "short" else ((0.3, 0.2, 0.1), (1.0, -1.3, 0.4), (-2.1, 1.1, 0.9), (3.7, 0.2, -0.6)):
            out.append((p, ref.sub(q, p)))
    for i, p in enumerate(((0.1, 0.2, 0.3), (4.6, 0.3, 0.2), (1.2, 3.6, 1.1), (-3.9, 0.3, -0.2), (0.4, -6.8, 0.7), (-0.3, 0.2, 12.0))):
        for d in ((1.0, 0.13, 0.07), (-0.4, 0.8, 0.3), (0.1, -0.3, -1.0), (0.3, -0.9, 0.2))[::1 if kind == "long" else 2]:
            out.append((p, d))
    return out


def small(tier):
    """all trees of one to three leaves over five arrangements, every choice of primitives"""
    for group in SETS:
        for n in (1, 2, 3):
            pool = group[:4] if n < 3 or tier == "thorough" else group[:3]
            for leaves in itertools.product(pool, repeat=n):
                if n == 3 and tier == "quick" and len(set(leaves)) < 2:
                    continue
                for i, t in enumerate(csg.trees(leaves, n)):
                    f = fan("long" if n < 3 or tier == "thorough" else "short")
                    yield (t, tuple(f if n < 3 else f[i % 2::2]), 0)


def larger(tier):
    """all trees of four leaves with distinct primitives"""
    for g, group in enumerate(SETS):
        orders = [(0, 1, 2, 3)] if tier == "quick" else list(itertools.permutations(range(4)))
        for o in orders:
            for i, t in enumerate(csg.trees([group[k] for k in o], 4)):
                f = fan("short") if tier == "quick" else fan("long")
                yield (t, tuple(f[(i + g) % 4::4] if tier == "quick" else f), 0)


def forms(tier):
    """integer arrays, diameters, scaled axes and directions"""
    prims = (("sphere", (0, 0, 0), 5), ("sphere", (4, 0, 0), 4), ("cyl", (1, 1, 0), (0, 0, 1), 3), ("cyl", (1, 0, 0), (0, 2, 0), 2))
    rays = tuple(((x, y, z), (7 - 2 * x - z, 3 - y, 1 - z)) for x, y, z in product((-9, 0, 8), (-7, 0, 6), (-5, 1, 9)) if (x, y, z) != (0, 3, 1))
    for form in (0, 1, 2, 3):
        for leaves in itertools.permutations(prims, 2):
            for t in csg.trees(leaves, 2):
                yield (t, rays, form)


def walks(tier):
    """solids walked through from surface to surface along long rays"""
    for group in SETS:
        for n in (2, 3):
            for leaves in itertools.permutations(group[:4], n):
                for i, t in enumerate(csg.trees(leaves, n)):
                    if n == 3 and tier == "quick" and i % 3:
                        continue
                    for p, d in (((-30.0, 0.2, 0.1), (1, 0.011, 0.007)), ((25.0, 24.0, 1.0), (-1, -1.01, -0.05)), ((0.3, 0.1, 0.2), (0.2, 1, 0.13)))[:3 if tier == "thorough" else 2]:
                        yield (t, p, d)


def scaled(tier):
    """the same solids small, large and far away"""
    from mc.checks.r01 import scale_prim
    for s, off in ((0.02, (0.0, 0.0, 0.0)), (40.0, (0.0, 0.0, 0.0)), (3.0, (-300.0, 200.0, 100.0)), (0.5, (80.0, -50.0, 7.0))):
        for group in SETS:
            for t in csg.trees(group[:3], 3):
                yield (scale_prim(t, s, off), tuple((ref.add(ref.mul(s, p), off), d) for p, d in fan("short")[::2]), 0)


def deep(tier):
    """combs of many holes and bumps: chains of up to 12 (thorough: 30) leaves"""
    for n in range(5, 13 if tier == "quick" else 31):
        for op in csg.OPS:
            for flip in (0, 1):
                t = ("sphere", (0.0, 0.0, 0.0), 12.0) if op != "union" else ("sphere", (0.0, 0.0, 0.0), 2.0)
                for i in range(1, n):
                    a = 2.4 * i
                    leaf = ("sphere", (9.0 * math.cos(a), 9.0 * math.sin(a), 0.3 * i), 3.1) if op != "intersect" else ("sphere", (0.5 * math.cos(a), 0.5 * math.sin(a), 0.1 * i), 12.0)
                    t = (op, t, leaf) if (not flip or op == "difference") else (op, leaf, t)
                yield (t, tuple(fan("long")[::2]), 0)


def rows(tier):
    """up to 60 (thorough: 150) primitives in a row under chains and balanced trees, crossed by one ray along the row, from both ends, the middle and askew"""
    def chain(op, L, right):
        t = L[-1] if right else L[0]
        for x in L[-2::-1] if right else L[1:]:
            t = (op, x, t) if right else (op, t, x)
        return t

    def balanced(op, L):
        return L[0] if len(L) == 1 else (op, balanced(op, L[:len(L) // 2]), balanced(op, L[len(L) // 2:]))
    for n in (9, 17, 33, 60) if tier == "quick" else (9, 12, 17, 24, 33, 47, 60, 100, 150):
        for pitch, R in ((5.0, 2.0), (5.0, 2.9), (5.0, 2.4)):
            order = sorted(range(n), key=lambda i: (7 * i) % n if n % 7 else (5 * i) % n)
            for L in ([("sphere", (pitch * i, 0.03 * (i % 3), 0.0), R) for i in range(n)], [("sphere", (pitch * i, 0.03 * (i % 3), 0.0), R) for i in order],
                      [("cyl", (pitch * i, 0.0, 0.1), (0.0, 0.1 * (i % 3), 1.0), R) for i in range(n)]):
                trees = [chain("union", L, False), chain("union", L, True), balanced("union", L),
                         ("difference", ("sphere", (pitch * n / 2, 0.0, 0.0), pitch * n), balanced("union", L)),
                         ("difference", ("cyl", (0.0, 0.0, 0.0), (1, 0, 0), 1.7), chain("union", L, True)),
                         ("intersect", ("cyl", (0.0, 0.0, 0.0), (1, 0, 0), 1.7), balanced("union", L))]
                big = ("cyl", (0.0, 0.0, 0.0), (1, 0, 0), 1.7)
                for x in L:
                    big = ("difference", big, x)
                trees.append(big)
                rays = []
                for a, b in ((0.3, 0.2), (-0.9, 0.4), (0.1, -1.3)):
                    for u in ((1.0, 0.0003, -0.0002), (-1.0, 0.0002, 0.0004)):
                        for x in (-9.0, 0.11 + pitch * (n // 2), 2.6 + pitch * (n // 3), pitch * n + 7.0):
                            rays.append(((x, a, b), u))
                    rays.append(((pitch * (n // 2) + 0.4, 60.0 + a, b), (0.01 * a, -1.0, 0.003)))
                for t in trees:
                    yield (t, tuple(rays), 0)


def judge_shell(spec, ctx):
    """a wall far thinner than the margin of the model: where the first boundary lies is known in closed form"""
    kind, c, a, R, wall, ratio, rays = spec
    prim = (lambda r: ("sphere", c, r)) if kind == "sphere" else (lambda r: ("cyl", c, a, r))
    inner, outer = prim(R), prim(R + wall)
    solids = [("difference", outer, inner)]
    if ratio:
        solids.append(("union", ("difference", outer, inner), prim(R * ratio)))
    for tree in solids:
        real = impl.OP.Compound(impl.tree(tree), surface_behavior="reflect")
        core = len(tree[1]) == 3 and tree[0] == "union"
        for p, d in rays:
            u = ref.unit(d)
            first = None
            for r in (R + wall, R) + ((R * ratio,) if core else ()):
                span, m = ref.prim_span(p, u, prim(r))
                for t in span or ():
                    if t > 1e-7 and (first is None or t < first):
                        first = t
            lo = min(abs(m) for m in [ref.prim_span(p, u, prim(r))[1] for r in (R + wall, R)])
            if lo < 1e-4:
                ctx.skip("grazing")
                continue
            ray = impl.ray(p, d)
            ray.run(500.0 * R, [real], max_interactions=1)
            ctx.step()
            ctx.trace()
            h = impl.hist(ray)
            ctx.state(impl.key(h[1]), wall)
            want = ref.along(p, 500.0 * R if first is None else first, u)
            if ref.dist(h[1], want) > 1e-12 * R + 1e-14 * ref.dist(p, want) + (0.0 if first is None else min(0.1 * wall, 1e-9)):
                return ctx.fail("%s: from %s along %s the first boundary is met at %s, expected %s" % (tree, p, d, h[1], want))


def shells(tier):
    """walls a hundredth down to a hundred-millionth thick, alone and around a core, from outside and inside: the nearer face is met"""
    for kind in ("sphere", "cyl"):
        for R, c in ((8.0, (0.0, 0.0, 0.0)), (3.0, (1.0, -2.0, 0.5)), (0.5, (0.0, 1.0, 2.0))):
            for a in ((0.0, 0.0, 1.0), (0.3, -0.2, 1.0)):
                if kind == "sphere" and a[0]:
                    continue
                for wall in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 3e-7, 1e-7, 3e-8):
                    rays = []
                    for k in range(12):
                        v = (math.cos(1.3 * k), math.sin(1.3 * k), 0.4 * math.cos(2.1 * k))
                        for q in (0.0, 0.3, 0.8):
                            rays.append((ref.sub(ref.add(c, ref.mul(q * R, W.frame(v))), ref.mul(4.0 * R, ref.unit(v))), v))
                            rays.append((ref.add(c, ref.mul(q * R, W.frame(v))), v))
                    yield (kind, c, a, R, wall, 0.4, tuple(rays))


def spaces(tier):
    return [Space("edited", lambda: edited(tier), judge_edits, note=judge_edits.__doc__), Space("forms", lambda: forms(tier), judge, note=forms.__doc__), Space("scaled", lambda: scaled(tier), judge, note=scaled.__doc__),
            Space("rows", lambda: rows(tier), judge, note=rows.__doc__), Space("shells", lambda: shells(tier), judge_shell, note=shells.__doc__), Space("deep", lambda: deep(tier), judge, note=deep.__doc__), Space("walks", lambda: walks(tier), judge_walk, note=walks.__doc__),
            Space("larger", lambda: larger(tier), judge, note=larger.__doc__), Space("small", lambda: small(tier), judge, note=small.__doc__)] + contexts.spaces(("glassball", "lens", "bitten", "tube", "shinyrod", "shiny"))
