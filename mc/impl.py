"""Building and observing the real objects."""
import math

import numpy as np

import general_optics as GO
import optics3d as OP
from Shapes import shapes as SH

from mc import ref

OPS = ("union", "intersect", "difference")


def arr(v, form=0):
    """form 0: float array; 1: integer array where the values allow; 2: as 0 (callers rescale normals themselves)"""
    if form == 1 and all(float(x) == int(x) for x in v):
        return np.array([int(x) for x in v])
    return np.array([float(x) for x in v])


def vec(v, form=0):
    """a direction: form 2 gives it a length other than one"""
    if form == 2:
        return np.array([float(x) * 2.5 for x in v])
    if form == 3:
        return np.array([float(x) * 0.04 for x in v])
    return arr(v, form)


def prim(p, form=0):
    if p[0] == "sphere":
        if form == 1:
            return SH.Sphere(arr(p[1], 1), D=p[2] * 2)
        return SH.Sphere(arr(p[1], form), R=p[2])
    if form == 1:
        return SH.InfiniteCylinder(arr(p[1], 1), [x for x in p[2]], D=p[3] * 2)
    return SH.InfiniteCylinder(arr(p[1], form), vec(p[2], form), R=p[3])


def tree(t, form=0):
    """the construction tree, built with the public operations of BinaryTree"""
    node = GO.BinaryTree(t[0] if t[0] in OPS else prim(t, form))
    fill(node, t, form)
    return node


def shared(t, form=0, pool=None):
    """the same tree with equal parts being one and the same object: a primitive (form 0), a node, wherever it occurs (form 1)"""
    pool = {} if pool is None else pool
    if (t, form) in pool and form:
        return pool[t, form]
    if t[0] in OPS:
        left, right = shared(t[1], form, pool), shared(t[2], form, pool)
        node = GO.BinaryTree(t[0])
        node.leftChild, node.rightChild = left, right
        if node.getLeftChild() is not left or node.getRightChild() is not right:
            # nodes keep their children in another way: share the primitives only
            node = GO.BinaryTree(t[0])
            for insert, get, part in ((node.insertLeft, node.getLeftChild, left), (node.insertRight, node.getRightChild, right)):
                insert(part.getRootVal())
                copy_into(get(), part)
    else:
        if (t, 0) not in pool:
            pool[t, 0] = prim(t)
        node = GO.BinaryTree(pool[t, 0])
    if form:
        pool[t, form] = node
    return node


def copy_into(node, part):
    if part.getLeftChild() is not None:
        node.insertLeft(part.getLeftChild().getRootVal())
        copy_into(node.getLeftChild(), part.getLeftChild())
    if part.getRightChild() is not None:
        node.insertRight(part.getRightChild().getRootVal())
        copy_into(node.getRightChild(), part.getRightChild())


def fill(node, t, form):
    if t[0] in OPS:
        node.insertLeft(t[1][0] if t[1][0] in OPS else prim(t[1], form))
        node.insertRight(t[2][0] if t[2][0] in OPS else prim(t[2], form))
        fill(node.getLeftChild(), t[1], form)
        fill(node.getRightChild(), t[2], form)


def superfluous(o, variant):
    """optional parameters that have no meaning for this kind of optic, or the value they have anyway"""
    if isinstance(variant, dict):
        return {k: np.array(v, dtype=float) if isinstance(v, (tuple, list)) else v for k, v in variant.items()}
    k, v = o[0], variant
    turned = np.array([(0.3, -0.5, 0.8), (-1.0, 0.0, 0.0), (0.0, 2.0, 1.0)][v % 3])
    size = (3.0, 1000.0, 0.25)[v % 3]
    if k in ("flat", "rect", "dmd", "concave", "convex", "as_dmd"):
        kw = dict(thickness=(0, 25.0, 1e-3, -4)[v % 4], f=17.5 * (-1) ** v, tangent=turned, w=size, h=2 * size, D=size)
        if k not in ("dmd", "as_dmd"):
            kw["dmd_normal"] = turned
            if v % 2:
                kw["type"] = "normal"
        if k == "convex":
            kw["normal"] = turned
        own = {"flat": ("D",), "rect": ("tangent", "h", "w"), "dmd": ("tangent", "h", "w"), "concave": ("D", "f"), "convex": ("D",),
               "as_dmd": ("D", "f") if k == "as_dmd" and o[1][0] == "concave" else ("D",)}[k]
        if k == "flat" and v % 2:
            kw["shape"] = "circular_flat"
        return {a: b for a, b in kw.items() if a not in own}
    if k in ("ideal", "collimate", "focus"):
        return dict(w=size, h=2 * size, tangent=turned, index=(1.0, 2.4, 0.7)[v % 3])
    if k == "ball":
        return dict(w=size, h=2 * size, tangent=turned, normal=-turned, f=21.0 * (-1) ** v, **({"type": "normal"} if v % 2 else {}))
    if k == "grating":
        return dict(order=(-1, 0, 2, 1, 5)[v % 5], **({"shape": "rectangular_flat"} if v % 2 else {}))
    if k == "detector":
        return {"shape": "rectangular_flat"} if v % 2 else {}
    return {}


def build(o, form=0):
    """form: as for arr and vec, or a pair of that and a variant of superfluous parameters"""
    form, kw = (form[0], superfluous(o, form[1])) if isinstance(form, (tuple, list)) else (form, {})
    if o[0] == "as_dmd":
        return as_dmd(o, form, kw)
    return make(o, form, kw)


def as_dmd(o, form, kw):
    b, m = o[1], vec(o[2], form)
    if b[0] == "flat":
        return OP.Mirror(arr(b[1], form), normal=vec(b[2], form), D=b[3], type="dmd", dmd_normal=m, **kw)
    if b[0] == "concave":
        return OP.Mirror(arr(b[1], form), shape="circular_concave_spherical", normal=vec(b[2], form), D=b[3], f=b[4], type="dmd", dmd_normal=m, **kw)
    return OP.Mirror(arr(b[1], form), shape="circular_convex_spherical", D=b[2], type="dmd", dmd_normal=m, **kw)


def make(o, form, kw):
    k = o[0]
    if k == "flat":
        return OP.Mirror(arr(o[1], form), normal=vec(o[2], form), D=o[3], **kw)
    if k == "rect":
        return OP.Mirror(arr(o[1], form), shape="rectangular_flat", normal=vec(o[2], form), tangent=vec(o[3], form), h=o[4], w=o[5], **kw)
    if k == "dmd":
        return OP.Mirror(arr(o[1], form), shape="rectangular_flat", normal=vec(o[2], form), tangent=vec(o[3], form), h=o[4], w=o[5],
                         type="dmd", dmd_normal=vec(o[6], form), **kw)
    if k == "concave":
        return OP.Mirror(arr(o[1], form), shape="circular_concave_spherical", normal=vec(o[2], form), D=o[3], f=o[4], **kw)
    if k == "convex":
        return OP.Mirror(arr(o[1], form), shape="circular_convex_spherical", D=o[2], **kw)
    if k in ("ideal", "collimate", "focus"):
        return OP.Lens(arr(o[1], form), normal=vec(o[2], form), shape="spherical_biconvex", D=o[3], f=o[4],
                       type={"ideal": "ideal", "collimate": "ideal_collimate", "focus": "ideal_focus"}[k], **kw)
    if k == "ball":
        return OP.Lens(arr(o[1], form), shape="spherical", D=o[2], index=o[3], **kw)
    if k == "grating":
        return OP.Grating(arr(o[1], form), vec(o[2], form), vec(o[3], form), h=o[4], w=o[5], G=o[6], **kw)
    if k == "detector":
        return OP.Detector(arr(o[1], form), vec(o[2], form), vec(o[3], form), h=o[4], w=o[5], **kw)
    if k == "solid":
        return OP.Compound(tree(o[1], form), surface_behavior=o[2], index=o[3])
    if k in ("annotation", "filter", "window", "block"):
        cls = {"annotation": OP.Annotation, "filter": OP.Filter, "window": OP.Window, "block": OP.Block}[k]
        return cls(arr(o[1], form), vec(o[2], form), block_shape(o, form))
    raise ValueError(k)


def edit(real, old, new):
    """give the built optic `old` the parameters of `new` (same kind, same place and outline) by assigning its attributes"""
    k = new[0]
    if k == "ball":
        real.index = new[3]
    elif k == "solid":
        real.surface_behavior, real.index = new[2], new[3]
        if new[1] != old[1]:
            real.tree = tree(new[1])
    elif k in ("ideal", "collimate", "focus"):
        real.type = {"ideal": "ideal", "collimate": "ideal_collimate", "focus": "ideal_focus"}[k]
        real.f = new[4]
    elif k == "grating":
        real.G = new[6]
    elif k in ("rect", "dmd"):
        real.type = "dmd" if k == "dmd" else "normal"
        if k == "dmd":
            real.dmd_normal = arr(ref.unit(new[6]))
    else:
        raise ValueError(k)


def block_shape(o, form):
    outline = o[3] if len(o) > 3 else ("disc", 40.0)
    if outline[0] == "disc":
        return SH.Circle(arr(o[1], form), vec(o[2], form), D=outline[1])
    if outline[0] == "plane":
        return SH.Plane(arr(o[1], form), vec(o[2], form))
    return SH.Rectangle(arr(o[1], form), vec(o[2], form), vec(outline[1], form), h=outline[2], w=outline[3])


def ray(pos, direction, wavelength=532, order=0, marker=False, form=0, show=False):
    kw = {}
    if wavelength != 532:
        kw["wavelength"] = wavelength
    if order != 0:
        kw["order"] = order
    if marker:
        kw["type"] = "faerie_fire"
    if show:
        kw["print_trajectory"] = True
    form = form[0] if isinstance(form, (tuple, list)) else form
    return OP.Ray(arr(pos, form), vec(direction, form), **kw)


def tup(v):
    return tuple(float(x) for x in v)


def hist(r):
    return [tup(p) for p in r.get_plot_repr()]


def finite(v):
    return all(x == x and abs(x) != float("inf") for x in v)


def close(a, b, tol=1e-6):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1.0, abs(y)) for x, y in zip(a, b))


def within(a, b, tol):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def fine(i, tol):
    """what is left of the precision of the start after i legs, relative to the largest coordinate so far (measured: below a hundredth of this)"""
    return tol if i < 4 else 10 * tol if i < 12 else math.inf


def key(*vs):
    """canonical form: coordinates rounded to 1e-5"""
    out = []
    for v in vs:
        if isinstance(v, (tuple, list)):
            out.append(key(*v))
        elif isinstance(v, float):
            out.append(round(v, 5) + 0.0)
        else:
            out.append(v)
    return tuple(out)


def compare(r, st, ctx, tol=1e-6, optics=None, what=""):
    """compare the real ray with the model state; abstain where the margin is too small"""
    h = hist(r)
    ctx.step(max(1, len(h) - 1))
    ctx.state(key(h, tup(r.direction), bool(r.blocked)))
    whole = st.trust is None
    if not whole:
        ctx.skip("path followed only up to a decision that hinges on less than the margin")
    trust = len(st.history) if whole else min(st.trust, len(st.history))
    if (len(h) != trust) if whole else (len(h) < trust):
        ctx.fail("%spath has %d points, expected %d: %s vs %s (%s)" % (
            what, len(h), len(st.history), short(h), short(st.history), st.labels))
        return False
    size = 1.0
    for i in range(trust):
        size = max(size, max(map(abs, st.history[i])))
        if not close(h[i], st.history[i], tol) or not within(h[i], st.history[i], size * fine(i, 1e-9)):
            ctx.fail("%spoint %d of the path is %s, expected %s (%s)" % (what, i, h[i], st.history[i], st.labels))
            return False
    if not whole:
        return False
    ctx.trace()
    if not close(tup(r.position), st.p, tol):
        ctx.fail("%sposition %s, expected %s" % (what, tup(r.position), st.p))
        return False
    if bool(r.blocked) != st.blocked:
        ctx.fail("%sabsorbed is %s, expected %s (%s)" % (what, r.blocked, st.blocked, st.labels))
        return False
    if not close(tup(r.direction), st.d, tol) or not within(tup(r.direction), st.d, size * fine(trust - 1, 2e-11)):
        ctx.fail("%sdirection %s, expected %s (%s)" % (what, tup(r.direction), st.d, st.labels))
        return False
    return True


def short(h):
    return [tuple(round(x, 4) for x in p) for p in h][:8]


def check_records(optics, real, recs, ctx, tol=1e-6):
    """detector logs against the model's records [(optic number, record)] in order"""
    for ix, o in enumerate(optics):
        if o[0] != "detector":
            continue
        want = [r for i, r in recs if i == ix]
        got = [tup(x) for x in real[ix].hit_data]
        if len(got) != len(want) or not all(close(a, b, tol) for a, b in zip(got, want)):
            ctx.fail("detector %d recorded %s, expected %s" % (ix, got[:4], want[:4]))
            return False
    return True


# the data an optic is made of; anything else it may keep (caches) is its own business as long as the results do not show it
DATA = frozenset("position normal shape D w h thickness f type dmd_normal surfaces rc p_rc index tree surface_behavior tangent tangent2 G "
                 "order center R plane direction bounds key leftChild rightChild".split())


def data_of(obj, extra=()):
    return {k: v for k, v in vars(obj).items() if k in DATA or k in extra}
