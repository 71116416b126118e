import itertools

import general_optics as GO

from mc import csg, impl
from mc.core import Space, product

PROPERTY = "C03"
RULE = ("breadth-first exploration of all operation sequences on a tree up to the stated depth, every state rebuilt by replaying its history "
        "on fresh objects and compared node by node with a reference tree after every operation; all expression trees up to seven leaves printed")


class Ref:
    def __init__(self, v):
        self.v, self.l, self.r = v, None, None


def nodes(t, path=()):
    if t is None:
        return []
    return [path] + nodes(t.l, path + ("L",)) + nodes(t.r, path + ("R",))


def at(t, path):
    for s in path:
        t = t.l if s == "L" else t.r
    return t


def real_at(t, path):
    for s in path:
        t = t.getLeftChild() if s == "L" else t.getRightChild()
    return t


def shape(t):
    return None if t is None else (t.v, shape(t.l), shape(t.r))


def real_shape(t):
    return None if t is None else (t.getRootVal(), real_shape(t.getLeftChild()), real_shape(t.getRightChild()))


def apply(m, op, path, v):
    n = at(m, path)
    if op == "set":
        n.v = v
    elif op == "left":
        x = Ref(v)
        x.l, n.l = n.l, x
    else:
        x = Ref(v)
        x.r, n.r = n.r, x


def apply_real(t, op, path, v):
    n = real_at(t, path)
    {"set": n.setRootVal, "left": n.insertLeft, "right": n.insertRight}[op](v)


def resolve(v):
    """values that are trees themselves"""
    if v not in ("<leaf>", "<whole>"):
        return v
    t = GO.BinaryTree(v)
    if v == "<whole>":
        t.insertLeft("p")
        t.insertRight("q")
    return t


def judge(spec, ctx):
    trees = {v: resolve(v) for v in ("<leaf>", "<whole>")}
    root = trees.get(spec[0], spec[0])
    ops = [(op, path, trees.get(v, v)) for op, path, v in spec[1]]
    m, t = Ref(root), GO.BinaryTree(root)
    held = []  # node handles taken along the way must stay valid
    for op, path, v in ops:
        apply(m, op, path, v)
        apply_real(t, op, path, v)
        ctx.step()
        held.append((at(m, path), real_at(t, path)))
        if real_shape(t) != shape(m):
            return ctx.fail("after %s: tree is %s, expected %s" % (ops, real_shape(t), shape(m)))
    for a, b in held:
        if real_shape(b) != shape(a):
            return ctx.fail("after %s: a node taken earlier holds %s, expected %s" % (ops, real_shape(b), shape(a)))
    ctx.trace()
    ctx.state(shape(m))


def sequences(tier):
    """all sequences of insertions and replacements at all nodes, breadth first, states merged by their shape"""
    depth = 5 if tier == "quick" else 6
    frontier = [()]
    seen = set()
    for d in range(depth):
        nxt = []
        for ops in frontier:
            m = Ref("v0")
            for o in ops:
                apply(m, *o)
            for path in nodes(m):
                for op in ("left", "right", "set"):
                    if op == "set" and d > 2:
                        continue
                    new = ops + ((op, path, "v%d" % (d + 1)),)
                    yield ("v0", new)
                    m2 = Ref("v0")
                    for o in new:
                        apply(m2, *o)
                    k = repr(shape(m2))
                    if k not in seen:
                        seen.add(k)
                        nxt.append(new)
        frontier = nxt


def values(tier):
    """values of every kind (falsy ones, equal ones, objects, trees of trees) in every short operation sequence"""
    vals = [0, "", None, False, "union", 1, (), 0.0, "x", " x ", "X", "<leaf>", "<whole>"]
    for a, b in product(vals, vals):
        yield (a, (("set", (), b),))
        for o in ("left", "right"):
            yield (a, (("set", (), b), (o, (), a), ("set", (o[0].upper(),), b)))
    for a, b, c in product(vals, vals, vals):
        for o1, o2, o3 in product(("left", "right"), ("left", "right"), ("left", "right", "set")):
            yield (a, ((o1, (), b), (o2, (), c), (o3, (), a)))


def chains(tier):
    """long chains on one side and alternating"""
    for n in (10, 60, 200):
        yield ("r", tuple(("left", (), i) for i in range(n)))
        yield ("r", tuple(("right", (), i) for i in range(n)))
        yield ("r", tuple((("left", "right")[i % 2], (), i) for i in range(n)))
        yield ("r", tuple((("left", "right")[i % 2], tuple("LR"[j % 2] for j in range(i)), i) for i in range(n)))


SYMBOL = {"union": "u", "intersect": "n", "difference": "\\"}


def text(t):
    if t[0] in csg.OPS:
        return "(" + text(t[1]) + SYMBOL[t[0]] + text(t[2]) + ")"
    return t[0]


def build(t):
    node = GO.BinaryTree(t[0])
    if t[0] in csg.OPS:
        fill(node, t)
    return node


def fill(node, t):
    node.insertLeft(t[1][0])
    node.insertRight(t[2][0])
    for child, sub in ((node.getLeftChild(), t[1]), (node.getRightChild(), t[2])):
        if sub[0] in csg.OPS:
            fill(child, sub)


def judge_text(spec, ctx):
    t = spec
    tree = build(t)
    got = GO.postOrderEval(tree)
    ctx.step()
    ctx.trace()
    ctx.state(text(t))
    if "".join(str(got).split()) != text(t):
        return ctx.fail("printed as %s, expected %s" % (got, text(t)))
    again = GO.postOrderEval(tree)
    if again != got:
        return ctx.fail("printed differently the second time: %s" % again)
    if len(leaves(t)) > 6:
        sites = [(p, leaf) for p, leaf in csg.sites(t) if len(p) < 3 or not len(p) % 16]
    else:
        sites = csg.sites(t)
    for path, leaf in sites:  # replacing a value shows in the next print, and nowhere else
        now = t
        for i in path:
            now = now[i + 1]
        v = "new" if leaf else csg.OPS[(csg.OPS.index(now[0]) + 1) % 3]
        t = csg.replaced(t, path, (v,) if leaf else v)
        csg.edit(tree, path, v)
        got = GO.postOrderEval(tree)
        ctx.step()
        if "".join(str(got).split()) != text(t):
            return ctx.fail("after replacing the value at %s: printed as %s, expected %s" % (path, got, text(t)))
        part = tree
        for i in path:
            part = part.getRightChild() if i else part.getLeftChild()
        sub = t
        for i in path:
            sub = sub[i + 1]
        if "".join(str(GO.postOrderEval(part)).split()) != text(sub):
            return ctx.fail("the part at %s is printed as %s, expected %s" % (path, GO.postOrderEval(part), text(sub)))


def texts(tier):
    """every expression tree of up to five (thorough: six) leaves, and of up to four with equal leaves in every place"""
    for n in range(1, 6 if tier == "quick" else 7):
        for t in csg.trees([(c,) for c in "abcdef"[:n]], n):
            yield t
        if n < 5:
            for names in itertools.product("ab", repeat=n):
                for t in csg.trees([(c,) for c in names], n):
                    yield t


def judge_objects(spec, ctx):
    """trees of real primitives print each primitive's own text once, in order"""
    tree = impl.tree(spec)
    s = str(GO.postOrderEval(tree))
    ctx.step()
    pos = 0
    prims = leaves(spec)
    node_texts = [str(x) for x in real_leaves(tree)]
    for x in node_texts:
        k = s.find(x, pos)
        if k < 0:
            return ctx.fail("%s does not contain %s after position %d" % (s, x, pos))
        pos = k + len(x)
    if s.count("(") - sum(x.count("(") for x in node_texts) != len(prims) - 1:
        ctx.fail("%s is not fully parenthesised" % s)
    ctx.trace()


def leaves(t):
    return leaves(t[1]) + leaves(t[2]) if t[0] in csg.OPS else [t]


def real_leaves(t):
    l, r = t.getLeftChild(), t.getRightChild()
    return [t.getRootVal()] if l is None else real_leaves(l) + real_leaves(r)


def judge_long(spec, ctx):
    """long one-sided, alternating and full trees print every leaf"""
    kind, n, op = spec
    t, want = ("s0",), None
    for k in range(1, n):
        side = {"left": 0, "right": 1, "zigzag": k % 2}[kind] if kind != "full" else 0
        leaf = ("sphere-number-%d" % k,)
        o = op if k % 3 else "difference"
        t = (o, t, leaf) if side == 0 else (o, leaf, t)
    if kind == "full":
        level = [("leaf%d" % k,) for k in range(n)]
        while len(level) > 1:
            level = [(op, level[i], level[i + 1]) for i in range(0, len(level) - 1, 2)] + (level[-1:] if len(level) % 2 else [])
        t = level[0]
    judge_text(t, ctx)


def longs(tier):
    """chains to either side, alternating, and balanced trees of up to 128 leaves"""
    for kind, n, op in product(("left", "right", "zigzag", "full"), (7, 12, 33, 64, 128), ("union", "intersect", "difference")):
        yield (kind, n, op)


def objects(tier):
    from mc.checks.c01 import GROUPS
    for g in GROUPS:
        for n in (2, 3):
            for t in csg.trees(g[:n], n):
                yield t


def spaces(tier):
    return [Space("values", lambda: values(tier), judge, note=values.__doc__), Space("chains", lambda: chains(tier), judge, note=chains.__doc__),
            Space("texts", lambda: texts(tier), judge_text, note=texts.__doc__), Space("longs", lambda: longs(tier), judge_long, note=judge_long.__doc__), Space("objects", lambda: objects(tier), judge_objects, note=judge_objects.__doc__),
            Space("sequences", lambda: sequences(tier), judge, note=sequences.__doc__)]
