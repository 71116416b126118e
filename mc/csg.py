"""Enumeration of all Boolean trees over given primitives."""
import itertools

OPS = ("union", "intersect", "difference")


def shapes(n):
    """all binary tree shapes with n leaves, as functions of leaf lists"""
    if n == 1:
        return [lambda ops, leaves: leaves[0]]
    out = []
    for k in range(1, n):
        for l in shapes(k):
            for r in shapes(n - k):
                out.append(lambda ops, leaves, l=l, r=r, k=k: (ops[0], l(ops[1:k], leaves[:k]), r(ops[k:], leaves[k:])))
    return out


def trees(prims, n):
    """every tree with n leaves over the given sequence of leaves, every operator assignment"""
    for shape in shapes(n):
        for ops in itertools.product(OPS, repeat=n - 1):
            yield shape(ops, list(prims))


def replaced(tree, path, value):
    """the tree with the value of the node at `path` (0 left, 1 right) replaced: an operation at an inner node, a primitive at a leaf"""
    if not path:
        return (value,) + tuple(tree[1:]) if tree[0] in OPS else value
    return tuple(replaced(x, path[1:], value) if i == path[0] + 1 else x for i, x in enumerate(tree))


def sites(tree, path=()):
    """(path, is it a leaf?) of every node"""
    if tree[0] not in OPS:
        return [(path, True)]
    return [(path, False)] + sites(tree[1], path + (0,)) + sites(tree[2], path + (1,))


def edits(tree, prims, n):
    """every way to change one node, and n ways to change it back and forth"""
    for path, leaf in sites(tree):
        now = tree
        for i in path:
            now = now[i + 1]
        others = [p for p in prims if p != now][:2] if leaf else [o for o in OPS if o != now[0]]
        for v in others:
            yield ((path, v),)
        if n:
            yield tuple((path, v) for v in others + [now if leaf else now[0]] + others[:1])


def edit(real, path, value):
    for i in path:
        real = real.getRightChild() if i else real.getLeftChild()
    real.setRootVal(value)
