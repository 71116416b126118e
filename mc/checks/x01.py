"""The demonstration programs, run as they are, under scripted random numbers; every ray they launch is followed by the reference model."""
import glob
import inspect
import os
import runpy
import shutil
import sys
import tempfile

import numpy as np

from mc import impl, ref
from mc.checks.s01 import Script
from mc.core import Space, product, repo_dir

PROPERTY = "X01"
RULE = ("every demonstration program of the repository x scripts of random draws; an execution is one run of the program from start to end, in a scratch folder and "
        "without a display; each call of Ray.run, each record of a detector and each path drawn is judged")
ASSUMPTIONS = ["rays whose path hinges on less than 1e-6 are followed up to there (counted)", "figures are built but not rendered; saving one records its name",
               "programs drawing random numbers by other means than numpy.random.normal/standard_normal/randn run with whatever they draw"]
OP, SH, GO = impl.OP, impl.SH, impl.GO
CAP = 4000  # rays followed per program


class Watch:
    """notes what the optics and shapes are made of, and follows every ray"""
    def __init__(self, ctx):
        self.ctx, self.made, self.undo = ctx, {}, []
        self.detectors, self.records, self.sure, self.rays, self.followed, self.keep = {}, {}, {}, [], 0, []

    def __enter__(self):
        for mod, names in ((OP, ("Mirror", "Lens", "Grating", "Detector", "Compound")), (SH, ("Sphere", "InfiniteCylinder"))):
            for name in names:
                self.note(getattr(mod, name), name)
        run, watch = OP.Ray.run, self

        def followed(ray, *a, **k):
            return watch.follow(run, ray, *a, **k)
        OP.Ray.run = followed
        self.undo.append(lambda: setattr(OP.Ray, "run", run))
        return self

    def __exit__(self, *exc):
        for f in reversed(self.undo):
            f()

    def note(self, cls, name):
        init, watch = cls.__init__, self
        sig = inspect.signature(init)

        def made(obj, *a, **k):
            b = sig.bind(obj, *a, **k)
            b.apply_defaults()
            init(obj, *a, **k)
            if type(obj) is cls:
                watch.keep.append(obj)
                watch.made[id(obj)] = (name, {n: v if n == "tree" or v is None or isinstance(v, (str, int, float)) else np.array(v, dtype=float)
                                              for n, v in list(b.arguments.items())[1:]})
        cls.__init__ = made
        self.undo.append(lambda: setattr(cls, "__init__", init))

    def tree(self, node):
        if node.getLeftChild() is not None:
            return (node.getRootVal(), self.tree(node.getLeftChild()), self.tree(node.getRightChild()))
        name, a = self.made[id(node.getRootVal())]
        R = a["R"] if a["R"] is not None else a["D"] / 2
        return ("sphere", impl.tup(a["center"]), R) if name == "Sphere" else ("cyl", impl.tup(a["center"]), impl.tup(a["direction"]), R)

    def spec(self, optic):
        if isinstance(optic, (OP.Annotation, OP.Filter, OP.Window)):
            return ("annotation", (0.0, 0.0, 0.0), (0.0, 0.0, 1.0))
        name, a = self.made[id(optic)]
        p = impl.tup(a["position"]) if "position" in a else None
        v = {k: impl.tup(a[k]) for k in ("normal", "tangent", "dmd_normal") if a.get(k) is not None}
        if name == "Mirror":
            if a["shape"] == "circular_flat":
                base = ("flat", p, v["normal"], a["D"])
            elif a["shape"] == "rectangular_flat":
                if a["type"] == "dmd":
                    return ("dmd", p, v["normal"], v["tangent"], a["h"], a["w"], v["dmd_normal"])
                base = ("rect", p, v["normal"], v["tangent"], a["h"], a["w"])
            elif a["shape"] == "circular_concave_spherical":
                base = ("concave", p, v["normal"], a["D"], a["f"])
            else:
                base = ("convex", p, a["D"])
            return ("as_dmd", base, v["dmd_normal"]) if a["type"] == "dmd" else base
        if name == "Lens":
            if a["shape"] == "spherical":
                return ("ball", p, a["D"], a["index"])
            return ({"ideal": "ideal", "ideal_collimate": "collimate", "ideal_focus": "focus"}[a["type"]], p, v["normal"], a["D"], a["f"])
        if name == "Grating":
            return ("grating", p, v["normal"], v["tangent"], a["h"], a["w"], a["G"])
        if name == "Detector":
            return ("detector", p, v["normal"], v["tangent"], a["h"], a["w"])
        return ("solid", self.tree(optic.tree), a["surface_behavior"], a["index"])

    def follow(self, run, ray, max_distance, optic_list=[], max_interactions=ref.INF):
        optics = [self.spec(o) for o in optic_list]
        before = impl.hist(ray)
        st = ref.State(impl.tup(ray.position), impl.tup(ray.direction), ray.wavelength, ray.order, ray.type == "faerie_fire")
        st.blocked = bool(ray.blocked)
        out = run(ray, max_distance, optic_list, max_interactions)
        self.followed += 1
        if not any(r is ray for r in self.rays[-1:]):
            self.rays.append(ray)
        for o in optic_list:
            if isinstance(o, OP.Detector):
                self.detectors[id(o)] = o
                self.records.setdefault(id(o), [])
        if self.followed > CAP:
            self.sure = None
            return out
        ref.run(st, optics, max_distance, max_interactions)
        st.history = before[:-1] + st.history
        if st.trust is not None:
            st.trust += len(before) - 1
            self.sure = None
        for ix, rec in st.records:
            self.records[id(optic_list[ix])].append(rec)
        if not self.ctx.fails:
            impl.compare(ray, st, self.ctx, what="ray %d: " % self.followed)
        return out

    def logs(self):
        if self.sure is None or self.ctx.fails:
            return
        for k, want in self.records.items():
            got = [impl.tup(x) for x in self.detectors[k].hit_data]
            if len(got) != len(want) or not all(impl.close(a, b) for a, b in zip(got, want)):
                return self.ctx.fail("a detector has %d records %s, expected %d: %s" % (len(got), got[:2], len(want), want[:2]))


def judge(spec, ctx):
    name, script = spec
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    repo = repo_dir()
    scratch = tempfile.mkdtemp(prefix="x01-")
    saved = []
    keep = (np.random.normal, np.random.standard_normal, np.random.randn, plt.show, Figure.savefig, os.getcwd(), list(sys.path), plt.close)
    draws = Script(script)
    try:
        for f in glob.glob(os.path.join(repo, "*.txt")):
            shutil.copy(f, scratch)
        os.chdir(scratch)
        np.random.normal, np.random.standard_normal, np.random.randn = draws.normal, draws.standard_normal, draws.randn
        plt.show = lambda *a, **k: None
        Figure.savefig = lambda self, fname, *a, **k: saved.append(str(fname))
        plt.close("all")
        with Watch(ctx) as w:
            try:
                runpy.run_path(os.path.join(repo, name), run_name="__main__")
            except SystemExit as e:
                if e.code not in (None, 0):
                    ctx.fail("the program ends with %r" % (e.code,))
        ctx.step()
        if ctx.fails:
            return
        w.logs()
        shown(w, plt, ctx)
        if not ctx.fails:
            purpose(name, w, ctx)
    finally:
        np.random.normal, np.random.standard_normal, np.random.randn, plt.show, Figure.savefig = keep[:5]
        os.chdir(keep[5])
        sys.path[:] = keep[6]
        plt.close("all")
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.trace()
    ctx.state(name, len(w.rays), tuple(saved), impl.key(tuple(impl.tup(r.position) for r in w.rays[:50])))


def purpose(name, w, ctx):
    """the imaging programs show an image, the spectrometer a spectrum"""
    rows = [impl.tup(h) for d in w.detectors.values() for h in d.hit_data]
    if name in ("script_testImaging.py", "script_testIdealRelay.py", "script_testDMD.py"):
        images = {}
        for r in w.rays:
            images.setdefault(impl.tup(r.point_history[0]), []).append((impl.tup(r.position), bool(r.blocked)))
        if len(rows) != len(w.rays) or len(images) < 2 or any(len(v) < 2 for v in images.values()):
            return ctx.fail("%d of %d rays from %d object points arrive at the detector" % (len(rows), len(w.rays), len(images)))
        for p, v in images.items():
            if not all(b for q, b in v) or max(ref.dist(v[0][0], q) for q, b in v) > 1e-6:
                return ctx.fail("the rays of the object point %s arrive at %s" % (p, impl.short([q for q, b in v])))
        centre = tuple(sum(v[0][0][i] for v in images.values()) / len(images) for i in range(3))
        m = {round(ref.dist(v[0][0], centre) / ref.norm((p[0], 0.0, p[2])), 2) for p, v in images.items() if ref.norm((p[0], 0.0, p[2])) > 1e-9}
        if name != "script_testDMD.py" and max(m) - min(m) > 0.011:
            return ctx.fail("the image is distorted: magnifications %s" % sorted(m))
    if name == "script_czerny1.py":
        beams = {}
        for r in w.rays:
            h = impl.hist(r)
            if r.blocked:
                beams.setdefault((h[0], impl.key(h[1])), []).append((float(r.wavelength), h[-1][0]))
        if len(rows) < len(w.rays) / 2 or not any(len(v) > 3 for v in beams.values()):
            return ctx.fail("%d of %d rays arrive at the detector" % (len(rows), len(w.rays)))
        for k, v in beams.items():
            v.sort()
            if not (all(a[1] < b[1] for a, b in zip(v, v[1:])) or all(a[1] > b[1] for a, b in zip(v, v[1:]))):
                return ctx.fail("the wavelengths are not in order along the detector: %s" % v)


def shown(w, plt, ctx):
    """every line of a three-dimensional picture is the path of a ray, or a part of one, in the order x, y, z"""
    axes = [ax for n in plt.get_fignums() for ax in plt.figure(n).axes if hasattr(ax, "get_zlim3d")]
    if not axes or not w.rays or len(w.rays) > CAP:
        return
    for ray in w.rays:
        if not np.array_equal(np.asarray(ray.get_plot_repr(), dtype=float), np.array([impl.tup(p) for p in ray.point_history])):
            return ctx.fail("the path of a ray for plotting is not its history")
    paths = {}
    for ray in w.rays:
        h = impl.hist(ray)
        for k in range(len(h)):
            paths.setdefault(h[k], []).append(h[k:])
    for ax in axes:
        for line in ax.lines:
            x, y, z = (np.asarray(c, dtype=float) for c in line.get_data_3d())
            pts = [tuple(map(float, p)) for p in zip(x, y, z)]
            if len(pts) < 2:
                continue
            if not any(h[:len(pts)] == pts for h in paths.get(pts[0], ())):
                return ctx.fail("the picture shows the path %s, which no ray has taken" % (impl.short(pts),))


def programs(tier):
    """every program x scripts of draws (all zero at first, one axis only, and never repeating sequences)"""
    scripts = [(), (0.0,) * 3 + (1.0, 0.0, 0.0), (0.0, -2.0, 0.0, 0.0, 0.0, 1.0, 1e-9, 0.0, 0.0)]
    if tier == "thorough":
        scripts += [tuple(float(b) for b in v) for v in product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1))]
    for f in sorted(glob.glob(os.path.join(repo_dir(), "script*.py"))):
        text = open(f, encoding="utf-8", errors="replace").read()
        for s in scripts if "faerie" in text or "random" in text else scripts[:1]:
            yield (os.path.basename(f), s)


def spaces(tier):
    return [Space("programs", lambda: programs(tier), judge, note=programs.__doc__, timeout=120)]
