import itertools

import optics3d as OP

from mc import csg, impl, ref, worlds as W
from mc.core import Space, product

PROPERTY = "C01"
RULE = ("every tree of up to four (thorough: five) leaves over overlapping spheres and cylinders x points representing every membership "
        "combination; every list of up to three solids and other optics x points; compared with Boolean evaluation")

S = lambda x, y, z, R: ("sphere", (x, y, z), R)
GROUPS = [
    (S(0.0, 0.0, 0.0, 5.0), S(4.0, 0.0, 0.0, 4.0), ("cyl", (1.0, 1.0, 0.0), (0, 0, 1), 2.5), S(1.0, 3.0, 1.0, 3.5), ("cyl", (0.0, 0.0, 1.0), (1, 0, 0), 2.0)),
    (("cyl", (0.0, 0.0, 0.0), (1, 2, 2), 3.0), ("cyl", (1.0, 0.0, 0.0), (0, 0, -1), 4.0), S(0.0, 1.0, 0.0, 4.5), S(30.0, 0.0, 0.0, 5.0), S(0.5, 0.2, 0.1, 2.0)),
]


def representatives(group):
    """lattice points, one (two where there are) for every membership combination that occurs"""
    seen, out = {}, []
    for k in product(range(-14, 15), range(-13, 14, 2), range(-12, 13, 2)):
        x = tuple(0.5 * a + 0.13 for a in k)
        key, m = [], 1.0
        for p in group:
            i, mi = ref.prim_inside(x, p)
            key.append(i)
            m = min(m, mi)
        if m > 0.05 and seen.get(tuple(key), 0) < 2:
            seen[tuple(key)] = seen.get(tuple(key), 0) + 1
            out.append(x)
    return tuple(out)


POINTS = {}


def points_of(g):
    if g not in POINTS:
        POINTS[g] = representatives(GROUPS[g])
    return POINTS[g]


def size(tree):
    return tree[-1] if tree[0] in ("sphere", "cyl") else max(size(t) for t in tree[1:])


def judge(spec, ctx):
    tree, points, index, form = spec
    least = 1e-9 * min(1.0, size(tree))
    if isinstance(points, int):
        points = points_of(points)
    if isinstance(form, str):
        real, form = impl.shared(tree, int(form[-1])), 0
    else:
        real = impl.tree(tree, form)
    solid = OP.Compound(real, surface_behavior="refract", index=index)
    for x in points:
        want, m = ref.csg_inside(x, tree)
        ctx.step()
        if m < least:
            ctx.skip("on a surface")
            continue
        got = solid.get_index_at_point_if_inside(impl.arr(x, form))
        listed = OP.get_index_at_point([solid], impl.arr(x, form))
        ctx.trace()
        ctx.state(tree, x, got)
        if (got is not None) != want or (want and got != index):
            return ctx.fail("%s: index %s at %s, expected %s" % (tree, got, x, index if want else "none"))
        if listed != (index if want else OP.INDEX_OF_THE_WORLD):
            return ctx.fail("%s: looking up %s gives %s, expected %s" % (tree, x, listed, index if want else OP.INDEX_OF_THE_WORLD))


def judge_list(spec, ctx):
    optics, points = spec
    real = [impl.build(o) for o in optics]
    for x in points:
        want, m = 1.0, 1.0
        for o in optics:
            if o[0] == "solid":
                i, mi = ref.csg_inside(x, o[1])
                m = min(m, mi)
                if i:
                    want = o[3]
                    break
        ctx.step()
        if m < 1e-9:
            continue
        got = OP.get_index_at_point(real, impl.arr(x))
        ctx.trace()
        ctx.state(x, got)
        if got != want:
            return ctx.fail("index %s at %s in %s, expected %s" % (got, x, [o[0] for o in optics], want))


def judge_edits(spec, ctx):
    """the solid follows its tree: nodes replaced after it was used, other solids on the same tree and on its subtrees, the same point array
    changed in place between the questions, the index and the whole tree replaced"""
    tree, edits, other, points = spec
    points = points_of(points) if isinstance(points, int) else points
    root = impl.tree(tree)
    solid = OP.Compound(root, surface_behavior="refract", index=1.5)
    mate = OP.Compound(root, index=1.7)
    part = OP.Compound(root.getLeftChild(), index=1.3) if root.getLeftChild() is not None else None
    x = impl.arr((0.0, 0.0, 0.0))

    def ask(index):
        for p in points:
            x[:] = p
            for s, t, i in ((solid, tree, index), (mate, tree, 1.7), (part, tree[1], 1.3)):
                if s is None:
                    continue
                want, m = ref.csg_inside(p, t)
                ctx.step()
                if m < 1e-9:
                    continue
                got = s.get_index_at_point_if_inside(x)
                listed = OP.get_index_at_point([s], x)
                ctx.trace()
                ctx.state(t, p, got)
                if (got is not None) != want or (want and got != i) or listed != (i if want else OP.INDEX_OF_THE_WORLD):
                    ctx.fail("%s after the edits %s: index %s (looked up: %s) at %s, expected %s" % (t, edits, got, listed, p, i if want else "none"))
                    return False
        return True
    if not ask(1.5):
        return
    for path, v in edits:
        tree = csg.replaced(tree, path, v)
        csg.edit(root, path, v if v in csg.OPS else impl.prim(v))
        if not ask(1.5):
            return
    solid.index = 1.9
    if not ask(1.9):
        return
    tree, root, part, mate = other, impl.tree(other), None, OP.Compound(impl.tree(other), index=1.7)
    solid.tree = root
    ask(1.9)


def edited(tier):
    """every tree of one to three leaves, every node replaced by every other operation or primitive, there and back"""
    for g, group in enumerate(GROUPS):
        for n in (1, 2, 3):
            for t in csg.trees(group[:n], n):
                for e in csg.edits(t, group[:4], 1):
                    yield (t, e, ("intersect", group[1], group[2]), g)


def scaled(x, s):
    if isinstance(x, str):
        return x
    if x[0] == "sphere":
        return ("sphere", ref.mul(s, x[1]), s * x[2])
    if x[0] == "cyl":
        return ("cyl", ref.mul(s, x[1]), x[2], s * x[3])
    return (x[0], scaled(x[1], s), scaled(x[2], s))


def scales(tier):
    """all trees of one and two leaves (thorough: three) from a millionth of a micrometre to a kilometre"""
    for g, group in enumerate(GROUPS):
        for s in (1e-10, 1e-9, 1e-6, 1e-5, 1e-3, 0.1, 1e2, 1e4, 1e6):
            points = tuple(ref.mul(s, x) for x in points_of(g))
            for n in (1, 2) if tier == "quick" else (1, 2, 3):
                for leaves in itertools.permutations(group[:4], n):
                    for t in csg.trees(leaves, n):
                        yield (scaled(t, s), points, 1.5, 0)


def small(tier):
    """all trees of one, two and three leaves, every choice of primitives (repetitions included), every form"""
    for g, group in enumerate(GROUPS):
        for n in (1, 2, 3):
            pool = group[:5] if n < 3 or tier == "thorough" else group[:4]
            for leaves in itertools.product(pool, repeat=n):
                for i, t in enumerate(csg.trees(leaves, n)):
                    yield (t, g, (1.5, 1.31, 2.0, 1, 0.9)[i % 5], 0)


def sharing(tier):
    """trees of one part combined with itself, bare and within another, where equal primitives or equal subtrees are one and the same object"""
    for g, group in enumerate(GROUPS):
        for n in (1, 2):
            for part in csg.trees(group[1:1 + n], n):
                for op in csg.OPS:
                    twice = (op, part, part)
                    for form in ("shared0", "shared1"):
                        yield (twice, g, 1.5, form)
                        for outer in csg.OPS:
                            yield ((outer, twice, group[0]), g, 1.5, form)
                            yield ((outer, group[0], twice), g, 1.3, form)
                            yield ((outer, part, twice), g, 1.7, form)
                            yield ((outer, (op, part, group[0]), (op, group[0], part)), g, 1.7, form)


def larger(tier):
    """all trees of four leaves with distinct primitives in several orders (thorough: every order, and five leaves)"""
    for g, group in enumerate(GROUPS):
        orders = [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0), (4, 0, 3, 1)] if tier == "quick" else list(itertools.permutations(range(5), 4))
        for o in orders:
            for t in csg.trees([group[i] for i in o], 4):
                yield (t, g, 1.5, 0)
        for o in ((0, 1, 2, 3, 4),) if tier == "quick" else ((0, 1, 2, 3, 4), (4, 2, 0, 1, 3), (3, 0, 4, 2, 1)):
            for k, t in enumerate(csg.trees([group[i] for i in o], 5)):
                if tier == "thorough" or k % 7 == g:
                    yield (t, g, 1.7, 0)


def deep(tier):
    """left-, right- and zigzag-deep chains of up to 12 (thorough: 40) leaves"""
    pool = GROUPS[0]
    for n in range(5, 13 if tier == "quick" else 41):
        for k in range(9):
            ops = [csg.OPS[(k // 3 + i * (k % 3 + 1)) % 3] for i in range(n)]
            for how in range(3):
                t = pool[k % 5]
                for i in range(1, n):
                    leaf = ("sphere", ref.add(pool[i % 5][1], (0.3 * i, -0.2 * i, 0.1 * (i % 4))), 2.0 + (i % 3))
                    left = how == 0 or (how == 2 and i % 2)
                    t = (ops[i], t, leaf) if left else (ops[i], leaf, t)
                yield (t, 0, 1.5, 0)


def forms(tier):
    """integer arrays, diameters, scaled axes, and points given as integers"""
    prims = (("sphere", (0, 0, 0), 5), ("sphere", (4, 0, 0), 4), ("cyl", (1, 1, 0), (0, 0, 1), 3), ("cyl", (1, 0, 0), (0, 2, 0), 2))
    pts = tuple(product(range(-6, 9, 2), range(-5, 6, 2), (-3, 0, 2)))
    for form in (0, 1, 2):
        for leaves in itertools.permutations(prims, 2):
            for t in csg.trees(leaves, 2):
                yield (t, pts, 1.4, form)


def lists(tier):
    """all orders of overlapping solids of different index among mirrors, balls and passive elements"""
    solids = [("solid", S(0.0, 0.0, 0.0, 5.0), "refract", 1.5), ("solid", S(3.0, 0.0, 0.0, 4.0), "reflect", 1.7),
              ("solid", ("difference", S(1.0, 1.0, 0.0, 6.0), S(0.0, 0.0, 0.0, 3.0)), "refract", 1.3)]
    others = [("flat", (0.0, 0.0, 0.0), (0, 1, 0), 10.0), ("ball", (0.0, 0.0, 0.0), 6.0, 1.9), ("annotation", (0.0, 0.0, 0.0), (0, 1, 0)),
              ("detector", (0.0, 1.0, 0.0), (0, 1, 0), (0, 0, 1), 10.0, 10.0)]
    pts = tuple(tuple(1.3 * a + 0.11 for a in k) for k in product(range(-6, 8), range(-5, 6), (-2, 0, 1)))
    for i in (1.0, 1, 0.6, 0, -1.0):  # indices that a test of truth, of positivity or against the world's would take for none
        for q in itertools.permutations(solids[:2] + [solids[2][:3] + (i,)]):
            for k in (0, 1, 2):
                yield (q[:k + 1], pts)
                yield (tuple(s[:3] + (i if s is q[k] else s[3],) for s in q), pts)
    for how, index in product(("reflect", "refract"), (1.5, 1.33, 2, 1.0)):  # the default index and others, of mirrors and of glass
        yield ((("solid", S(-2.0, 1.0, 0.0, 3.0), how, index),), pts)
        yield ((("solid", S(-2.0, 1.0, 0.0, 3.0), how, index), solids[0]), pts)
    for n in range(4):
        for q in itertools.permutations(solids, n):
            for k in range(len(others)):
                for pos in range(n + 1):
                    L = list(q)
                    L.insert(pos, others[k])
                    L.append(others[(k + 1) % 4])
                    yield (tuple(L), pts)


def spaces(tier):
    return [Space("edited", lambda: edited(tier), judge_edits, note=judge_edits.__doc__), Space("forms", lambda: forms(tier), judge, note=forms.__doc__), Space("sharing", lambda: sharing(tier), judge, note=sharing.__doc__), Space("scales", lambda: scales(tier), judge, note=scales.__doc__), Space("lists", lambda: lists(tier), judge_list, note=lists.__doc__),
            Space("deep", lambda: deep(tier), judge, note=deep.__doc__), Space("small", lambda: small(tier), judge, note=small.__doc__),
            Space("larger", lambda: larger(tier), judge, note=larger.__doc__)]
