"""Reference model of the optics, in plain Python (tuples and math only), independent of the code under test.

An optic is described by a tuple (kind, ...); `build(desc, form)` makes the real object, `hit`/`act` are the model.
Every answer carries a margin: how far (in mm or in a dimensionless quantity of order one) the configuration is from
one where the discrete outcome would differ.  Executions with a margin below EPS are abstained from.
"""
import math

EPS = 1e-6
FLOOR = 1e-9
INF = float("inf")


def add(a, b): return (a[0] + b[0], a[1] + b[1], a[2] + b[2])
def sub(a, b): return (a[0] - b[0], a[1] - b[1], a[2] - b[2])
def mul(s, a): return (s * a[0], s * a[1], s * a[2])
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def norm(a): return math.sqrt(dot(a, a))
def unit(a): return mul(1.0 / norm(a), a)
def along(p, t, d): return (p[0] + t * d[0], p[1] + t * d[1], p[2] + t * d[2])
def dist(a, b): return norm(sub(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def perp(a, n):
    """component of a perpendicular to the unit vector n"""
    return sub(a, mul(dot(a, n), n))


def t_margin(t):
    """how far the parameter t is from the decision `ahead of the ray, not the surface it stands on`"""
    if abs(t) < 1e-10:
        return INF  # standing on the surface
    return abs(t)


# ---------------------------------------------------------------- primitives: crossings on the whole line
def sphere_span(p, d, c, R):
    q = sub(p, c)
    b = dot(q, d)
    h2 = dot(q, q) - b * b
    m = abs(math.sqrt(max(h2, 0.0)) - R)
    if h2 >= R * R:
        return None, m
    s = math.sqrt(R * R - h2)
    return (-b - s, -b + s), m


def cylinder_span(p, d, c, a, R):
    """a: unit axis"""
    q = perp(sub(p, c), a)
    u = perp(d, a)
    w = norm(u)
    if w < 1e-12:
        m = abs(norm(q) - R)
        return ((-INF, INF) if norm(q) < R else None), m
    if w < 2e-6:
        m = 0.0  # nearly parallel: abstain
    else:
        m = INF
    u = mul(1 / w, u)
    b = dot(q, u)
    h2 = dot(q, q) - b * b
    m = min(m, abs(math.sqrt(max(h2, 0.0)) - R))
    if h2 >= R * R:
        return None, m
    s = math.sqrt(R * R - h2)
    return ((-b - s) / w, (-b + s) / w), m


def prim_span(p, d, prim):
    if prim[0] == "sphere":
        return sphere_span(p, d, prim[1], prim[2])
    return cylinder_span(p, d, prim[1], unit(prim[2]), prim[3])


def prim_inside(x, prim):
    if prim[0] == "sphere":
        r = dist(x, prim[1])
        return r < prim[2], abs(r - prim[2])
    r = norm(perp(sub(x, prim[1]), unit(prim[2])))
    return r < prim[3], abs(r - prim[3])


def prim_normal(x, prim):
    """unit normal pointing into the primitive"""
    if prim[0] == "sphere":
        return unit(sub(prim[1], x))
    return unit(perp(sub(prim[1], x), unit(prim[2])))


# ---------------------------------------------------------------- CSG: interval algebra
def csg_leaves(tree):
    if tree[0] in ("union", "intersect", "difference"):
        return csg_leaves(tree[1]) + csg_leaves(tree[2])
    return [tree]


def combine(op, A, B):
    """A, B: sorted disjoint lists of (t0, id0, t1, id1); returns the same for the Boolean combination"""
    ev = []
    for which, L in ((0, A), (1, B)):
        for t0, i0, t1, i1 in L:
            ev.append((t0, which, True, i0))
            ev.append((t1, which, False, i1))
    ev.sort(key=lambda e: e[0])
    state = [False, False]
    fn = {"union": lambda a, b: a or b, "intersect": lambda a, b: a and b, "difference": lambda a, b: a and not b}[op]
    out, cur, start = [], fn(False, False), None
    k = 0
    while k < len(ev):
        t = ev[k][0]
        ident = ev[k][3]
        while k < len(ev) and ev[k][0] == t:
            state[ev[k][1]] = ev[k][2]
            ident = ev[k][3]
            k += 1
        new = fn(*state)
        if new and not cur:
            start = (t, ident)
        if cur and not new:
            out.append((start[0], start[1], t, ident))
        cur = new
    return out


def csg_spans(p, d, tree, crossings):
    """returns (spans, margin); appends every primitive crossing parameter to `crossings`"""
    if tree[0] in ("union", "intersect", "difference"):
        A, ma = csg_spans(p, d, tree[1], crossings)
        B, mb = csg_spans(p, d, tree[2], crossings)
        return combine(tree[0], A, B), min(ma, mb)
    s, m = prim_span(p, d, tree)
    if s is None:
        return [], m
    crossings.extend((t, tree) for t in s if abs(t) != INF)
    return [(s[0], tree, s[1], tree)], m


def csg_hit(p, d, tree):
    """first boundary ahead: (t, primitive, entering) or None, and the margin"""
    crossings = []
    spans, m = csg_spans(p, d, tree, crossings)
    # the same primitive used twice is crossed at exactly the same place, with the same normal: one crossing
    ahead = sorted(t for t, _ in set(crossings) if t > -1e-3)
    for t in ahead:
        m = min(m, t_margin(t))
    for x, y in zip(ahead, ahead[1:]):
        m = min(m, y - x)
    best = None
    for t0, i0, t1, i1 in spans:
        for t, i, entering in ((t0, i0, True), (t1, i1, False)):
            if t > FLOOR and abs(t) != INF and (best is None or t < best[0]):
                best = (t, i, entering)
    return best, m


def csg_inside(x, tree):
    if tree[0] in ("union", "intersect", "difference"):
        a, ma = csg_inside(x, tree[1])
        b, mb = csg_inside(x, tree[2])
        v = {"union": a or b, "intersect": a and b, "difference": a and not b}[tree[0]]
        return v, min(ma, mb)
    return prim_inside(x, tree)


# ---------------------------------------------------------------- optics
def plane_t(p, d, c, n):
    dn = dot(d, n)
    if abs(dn) < 1e-9:
        return None, (INF if abs(dn) < 1e-11 else 0.0)
    t = dot(sub(c, p), n) / dn
    m = min(t_margin(t), abs(dn))
    if t <= FLOOR:
        return None, m
    return t, m


def disc_t(p, d, c, n, R):
    t, m = plane_t(p, d, c, n)
    if t is None:
        return None, m
    r = dist(along(p, t, d), c)
    m = min(m, abs(r - R))
    return (t if r < R else None), m


def rect_t(p, d, c, n, tan, h, w):
    t, m = plane_t(p, d, c, n)
    if t is None:
        return None, m
    r = sub(along(p, t, d), c)
    u = unit(tan)
    v = cross(n, u)
    a, b = abs(dot(r, u)) - h / 2, abs(dot(r, v)) - w / 2
    if a < 0 and b < 0:
        return t, min(m, -a, -b)
    return None, min(m, max(a, b))


# kinds:
#  ("flat", pos, normal, D) ("rect", pos, normal, tangent, h, w) ("dmd", pos, normal, tangent, h, w, dmd_normal)
#  ("concave", pos, normal, D, f) ("convex", pos, D)
#  ("ideal"|"collimate"|"focus", pos, normal, D, f) ("ball", pos, D, index)
#  ("grating", pos, normal, tangent, h, w, G) ("detector", pos, normal, tangent, h, w)
#  ("solid", tree, "reflect"|"refract", index)
#  ("annotation"|"filter"|"window", pos, normal) passive
def hit(o, p, d):
    """((t, unit normal, extra) or None, margin)"""
    k = o[0]
    if k == "flat" or k in ("ideal", "collimate", "focus"):
        n = unit(o[2])
        t, m = disc_t(p, d, o[1], n, o[3] / 2)
        return (None if t is None else (t, n, None)), m
    if k in ("rect", "dmd", "grating", "detector"):
        n = unit(o[2])
        t, m = rect_t(p, d, o[1], n, o[3], o[4], o[5])
        return (None if t is None else (t, n, None)), m
    if k == "concave":
        n = unit(o[2])
        R = 2 * o[4]
        c = along(o[1], R, n)
        td, m = disc_t(p, d, o[1], n, o[3] / 2)
        if td is None:
            # a ray may clip the cap yet miss the disc only at the rim, which the disc margin covers
            return None, m
        s, ms = sphere_span(p, d, c, R)
        m = min(m, ms)
        if s is None:
            return None, m
        x = along(p, td, d)
        cands = []
        for t in s:
            m = min(m, t_margin(t))
            if t > FLOOR:
                cands.append((dist(along(p, t, d), x), t))
        if not cands:
            return None, m
        cands.sort()
        if len(cands) == 2:
            m = min(m, cands[1][0] - cands[0][0])
        t = cands[0][1]
        return (t, unit(sub(c, along(p, t, d))), None), m
    if k in ("convex", "ball"):
        R = o[2] / 2
        s, m = sphere_span(p, d, o[1], R)
        if s is None:
            return None, m
        m = min([m] + [t_margin(t) for t in s])
        for t in s:
            if t > FLOOR:
                return (t, unit(sub(o[1], along(p, t, d))), t == s[0]), m
        return None, m
    if k == "solid":
        h, m = csg_hit(p, d, o[1])
        if h is None:
            return None, m
        t, prim, entering = h
        return (t, prim_normal(along(p, t, d), prim), entering), m
    if k in ("annotation", "filter", "window"):
        return None, INF
    if k == "as_dmd":
        return hit(o[1], p, d)
    if k == "block":  # a disc of diameter 40 unless another outline is given
        n = unit(o[2])
        outline = o[3] if len(o) > 3 else ("disc", 40.0)
        if outline[0] == "disc":
            t, m = disc_t(p, d, o[1], n, outline[1] / 2)
        elif outline[0] == "plane":
            t, m = plane_t(p, d, o[1], n)
        else:
            t, m = rect_t(p, d, o[1], n, outline[1], outline[2], outline[3])
        return (None if t is None else (t, n, None)), m
    raise ValueError(k)


def reflect(d, n):
    return unit(sub(d, mul(2 * dot(d, n), n)))


def snell(d, n, e1, e2):
    """(new direction, margin, total reflection?)"""
    c = dot(d, n)
    s = math.sqrt(max(0.0, 1 - c * c)) * e1 / e2
    m = abs(s - 1)
    if s > 1:
        return reflect(d, n), m, True
    tang = mul(e1 / e2, perp(d, n))
    return add(tang, mul(math.copysign(math.sqrt(1 - s * s), c), n)), m, False


def grating(d, n, g, G, order, wavelength):
    """(new direction or None if the order does not exist, margin)"""
    if dot(d, n) > 0:
        n = mul(-1, n)
    e = cross(g, n)
    dp = perp(d, g)
    w = norm(dp)
    sa = -dot(dp, e) / w
    m = min(abs(sa), w)
    side = 1.0 if sa >= 0 else -1.0
    sb = G * 1e-6 * order * wavelength - abs(sa)
    m = min(m, abs(abs(sb) - 1))
    if abs(sb) > 1:
        return None, m
    inplane = add(mul(side * sb, e), mul(math.sqrt(1 - sb * sb), n))
    return add(mul(w, inplane), mul(dot(d, g), g)), m


def act(o, p, d, h, wavelength, order):
    """what the optic does to a ray standing at p with direction d: (direction, absorbed, record or None, margin, label)"""
    k, (t, n, extra) = o[0], h
    if k in ("flat", "rect", "concave", "convex"):
        return reflect(d, n), False, None, INF, "R"
    if k == "dmd":
        return reflect(d, unit(o[6])), False, None, INF, "M"
    if k == "as_dmd":
        return reflect(d, unit(o[2])), False, None, INF, "M"
    if k in ("ideal", "collimate", "focus"):
        nn = n if dot(d, n) > 0 else mul(-1, n)
        if k == "collimate":
            return nn, False, None, INF, "C"
        if k == "focus":
            v = sub(along(o[1], o[4], nn), p)
            m = norm(v)
            return mul(math.copysign(1 / m, o[4]), v), False, None, m, "F"
        v = sub(mul(1 / dot(d, nn), d), mul(1 / o[4], sub(p, o[1])))
        return unit(v), False, None, dot(d, nn), "I"
    if k == "ball" or (k == "solid" and o[2] == "refract"):
        index = o[3]
        e1, e2 = (1.0, index) if extra else (index, 1.0)
        nd, m, tir = snell(d, n, e1, e2)
        return nd, False, None, m, "T" if tir else ("i" if extra else "o")
    if k == "solid":
        return reflect(d, n), False, None, INF, "R"
    if k == "grating":
        if order == 0:
            return reflect(d, n), False, None, INF, "0"
        nd, m = grating(d, n, unit(o[3]), o[6], order, wavelength)
        if nd is None:
            return d, True, None, m, "x"
        return nd, False, None, m, "G"
    if k == "block":
        return d, True, None, INF, "B"
    if k == "detector":
        return d, True, (p[0], p[1], p[2], wavelength), INF, "D"
    raise ValueError(k)


class State:
    """what the model says about a ray"""

    def __init__(self, pos, direction, wavelength=532, order=0, marker=False, exact=False):
        self.exact = exact  # all coordinates are exact in binary, so reaching a surface exactly at the end is decided
        self.p, self.d = tuple(map(float, pos)), unit(tuple(map(float, direction)))
        self.wavelength, self.order, self.marker = wavelength, order, marker
        self.history = [self.p]
        self.blocked = False
        self.margin = INF
        self.records = []  # (optic number, record)
        self.labels = ""
        self.trust = None  # number of leading points of the history that do not hinge on a small margin

    def distrust(self, npoints):
        if self.trust is None or npoints < self.trust:
            self.trust = npoints


def nearest(st, optics, remaining):
    """(t, hit, index) of the nearest surface within range, or None; updates the margin"""
    best = None
    ts = []
    for ix, o in enumerate(optics):
        h, m = hit(o, st.p, st.d)
        st.margin = min(st.margin, m)
        if h is None:
            continue
        if not (st.exact and h[0] == remaining):
            st.margin = min(st.margin, abs(h[0] - remaining))
        if h[0] <= remaining:
            ts.append(h[0])
            if best is None or h[0] < best[0]:
                best = (h[0], h, ix)
    if len(ts) > 1:
        ts.sort()
        st.margin = min(st.margin, ts[1] - ts[0])
    return best


def run(st, optics, max_distance, max_interactions=INF, cap=100000):
    first, start = len(st.history), (st.p, st.d)
    advance(st, optics, max_distance, max_interactions, cap)
    if len(st.history) - first > 5:
        amplification(st, start, first, optics, max_distance, max_interactions, cap)
    return st


def amplification(st, start, first, optics, max_distance, max_interactions, cap):
    """a path that blows up a disturbance of the start more than 1e5 times is trusted only up to there"""
    twin = State(start[0], start[1], st.wavelength, st.order, st.marker)
    shift = (0.6e-9, 0.64e-9, -0.48e-9)
    twin.p, twin.d = add(twin.p, shift), unit(add(twin.d, (0.7e-9, -0.5e-9, 0.5e-9)))
    advance(twin, optics, max_distance, max_interactions, cap)
    mine = st.history[first:]
    theirs = twin.history[1:]
    for i in range(len(mine)):
        if i >= len(theirs) or dist(mine[i], theirs[i]) > 1e-4:
            st.distrust(first + i)
            return


def advance(st, optics, max_distance, max_interactions, cap):
    remaining, count = max_distance, 0
    while remaining > 0 and count < max_interactions and not st.blocked and cap > 0:
        cap -= 1
        best = nearest(st, optics, remaining)
        if st.margin < EPS:
            st.distrust(len(st.history))
        if best is None:
            st.p = along(st.p, remaining, st.d)
            st.history.append(st.p)
            break
        t, h, ix = best
        st.p = along(st.p, t, st.d)
        st.history.append(st.p)
        remaining -= t
        count += 1
        if st.marker:
            st.blocked = True
            st.labels += "%dm" % ix
            break
        st.d, st.blocked, rec, m, lab = act(optics[ix], st.p, st.d, h, st.wavelength, st.order)
        st.margin = min(st.margin, m)
        if st.margin < EPS:
            st.distrust(len(st.history))
        st.labels += "%d%s" % (ix, lab)
        if rec is not None:
            st.records.append((ix, rec))
    if 0 < abs(remaining) < EPS:
        st.margin = min(st.margin, abs(remaining))
        st.distrust(len(st.history))
