import itertools
import os
import pathlib
import shutil
import subprocess
import tempfile

from mc.core import Space, product

PROPERTY = "F01"
RULE = ("every small file tree over an alphabet of names, entry kinds and places is built in a scratch directory, the deletion is run with "
        "every extension, flag and way of naming the folder, and the remaining tree is compared entry by entry with the reference; a "
        "stand-in stops any removal that would fall outside the scratch directory and reports it")
ASSUMPTIONS = ["a symbolic link whose own name has the extension is a name in the folder: removing the link itself is allowed but not "
               "required; what it points to must stay", "the names are not altered concurrently"]
from general import delete_files_with_extension  # noqa: E402

REMOVERS = ("remove", "unlink", "rmdir", "removedirs", "rename", "replace", "renames", "truncate")


class Guard:
    """os functions that remove or move things only act inside the scratch directory"""
    def __init__(self, root):
        self.root, self.outside, self.saved = os.path.realpath(root), [], {}

    def inside(self, path, dir_fd=None):
        if dir_fd is not None:
            path = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), os.fspath(path))
        path = os.path.abspath(os.fspath(path))
        parent = os.path.realpath(os.path.dirname(path))
        return parent == self.root or parent.startswith(self.root + os.sep)

    def __enter__(self):
        for name in REMOVERS:
            real = self.saved[name] = getattr(os, name)

            def stand_in(path, *a, _real=real, _name=name, **k):
                if not self.inside(path, k.get("dir_fd")):
                    self.outside.append((_name, str(path)))
                    return None
                return _real(path, *a, **k)
            setattr(os, name, stand_in)
        self.saved_tree = shutil.rmtree, shutil.move
        shutil.rmtree = lambda path, *a, **k: self.saved_tree[0](path, *a, **k) if self.inside(path) else self.outside.append(("rmtree", str(path)))
        shutil.move = lambda *a, **k: self.outside.append(("move", str(a)))
        self.saved_run = os.system, subprocess.Popen
        os.system = lambda c: self.outside.append(("system", c))
        subprocess.Popen = lambda *a, **k: self.outside.append(("Popen", str(a)))
        return self

    def __exit__(self, *exc):
        for name, real in self.saved.items():
            setattr(os, name, real)
        shutil.rmtree, shutil.move = self.saved_tree
        os.system, subprocess.Popen = self.saved_run


def build(base, entries):
    """entries: list of (relative path, kind); kinds: file, dir, link to an outside file, an outside directory, nowhere, an inside file"""
    for path, kind in entries:
        full = os.path.join(base, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if os.path.lexists(full):
            return False
        if kind in ("file", "empty", "twin"):
            with open(full, "w") as f:
                f.write("" if kind == "empty" else path)
            if kind == "twin":  # two names of one file, the other one outside
                os.makedirs(os.path.join(base, "outside", "twins"), exist_ok=True)
                os.link(full, os.path.join(base, "outside", "twins", path.replace("/", "_")))
        elif kind == "locked":
            with open(full, "w") as f:
                f.write(path)
            os.chmod(full, 0o400)
        elif kind == "dir":
            os.makedirs(full)
        else:
            os.symlink({"outfile": "../outside/keep.tmp", "outdir": "../outside", "nowhere": "no/such.tmp"}[kind]
                       if "/" not in path[len("in/"):] else
                       {"outfile": "../" * path.count("/") + "outside/keep.tmp", "outdir": "../" * path.count("/") + "outside",
                        "nowhere": "no/such.tmp"}[kind], full)
    return True


def listing(base):
    out = {}
    for root, dirs, files in os.walk(base):
        for d in list(dirs):
            p = os.path.join(root, d)
            out[os.path.relpath(p, base)] = "link" if os.path.islink(p) else "dir"
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                out[os.path.relpath(p, base)] = "link"
            else:
                with open(p) as h:
                    out[os.path.relpath(p, base)] = "file:" + h.read()
    return out


def judge(spec, ctx):
    entries, ext, deep, how = spec
    outer = tempfile.mkdtemp(prefix="f01-")
    scratch = os.path.join(outer, how[1], "x") if isinstance(how, tuple) else outer
    how = how[0] if isinstance(how, tuple) else how
    here = os.getcwd()
    try:
        os.makedirs(os.path.join(scratch, "in"))
        os.makedirs(os.path.join(scratch, "outside", "sub.tmp"))
        os.makedirs(os.path.join(scratch, "elsewhere"))
        for p in ("outside/keep.tmp", "outside/sub.tmp/deep.tmp", "side.tmp", "elsewhere/a.tmp"):
            with open(os.path.join(scratch, p), "w") as f:
                f.write("precious")
        if not build(scratch, [("in/" + p, k) for p, k in entries]):
            return ctx.skip("the same name twice")
        os.makedirs(os.path.join(scratch, "named"))
        os.symlink(os.path.join("..", "in"), os.path.join(scratch, "named", "here"))
        before = listing(scratch)
        os.chdir(os.path.join(scratch, "elsewhere"))
        folder = {"absolute": os.path.join(scratch, "in"), "relative": os.path.join("..", "in"), "slash": os.path.join(scratch, "in") + "/",
                  "through": os.path.join(scratch, "elsewhere", "..", "in"), "path object": pathlib.Path(scratch, "in"),
                  "linked": os.path.join(scratch, "named", "here"), "linked, slash": os.path.join(scratch, "named", "here") + "/"}[how]
        error = None
        with Guard(scratch) as guard:
            try:
                if deep is None:
                    delete_files_with_extension(folder, ext)
                else:
                    delete_files_with_extension(folder, ext, deep)
            except Exception as e:
                error = e
        ctx.step()
        ctx.trace()
        os.chdir(here)
        after = listing(scratch)
        must, may = set(), set()
        for path, kind in before.items():
            parts = path.split(os.sep)
            if parts[0] != "in" or len(parts) < 2 or (len(parts) > 2 and not deep) or not parts[-1].endswith(ext):
                continue
            if kind.startswith("file"):
                must.add(path)
            elif kind == "link":
                may.add(path)
        ctx.state(tuple(sorted(after)))
        gone = {p for p in before if after.get(p) != before[p]}
        extra = set(after) - set(before)
        problems = []
        if guard.outside:
            problems.append("tries to remove %s" % guard.outside)
        if gone - must - may:
            problems.append("removes %s" % sorted(gone - must - may))
        if must - gone:
            problems.append("leaves %s%s" % (sorted(must - gone), " (%s: %s)" % (type(error).__name__, error) if error else ""))
        if extra:
            problems.append("creates %s" % sorted(extra))
        if error and not problems:
            problems.append("raises %s: %s" % (type(error).__name__, error))
        if problems:
            ctx.fail("tree %s, extension %r, subfolders %s: %s" % (sorted(k for k in before if k.startswith("in" + os.sep)), ext, deep, "; ".join(problems)))
    finally:
        os.chdir(here)
        shutil.rmtree(outer)


ODD = ("a.tmp ", "a.tmp\n", " a.tmp", "a.tmp.", "a.tmpx", "atmp", "a..tmp", "-rf.tmp", "*.tmp", "[a].tmp", "ä.tmp", "a.Tmp", "a.tmp.tmp", "~.tmp", "$x.tmp", "a\tb.tmp", "#.tmp", ".tmp.b")
NAMES = ("a.tmp", "b.txt", ".tmp", "tmp", "a.tmp.txt", "A.TMP", "x y.tmp", "a.tmp~")
ENTRIES = ([(n, "file") for n in NAMES] + [("d/" + n, "file") for n in NAMES[:4]] + [("d.tmp/" + n, "file") for n in NAMES[:2]]
           + [("d/e/a.tmp", "file"), ("d/e.tmp/b.txt", "file"), ("d/e.tmp/c.tmp", "file"), ("z.tmp", "dir"), ("d/z.tmp", "dir"), ("y", "dir"),
              ("l.tmp", "outfile"), ("l.txt", "outfile"), ("m.tmp", "outdir"), ("m", "outdir"), ("n.tmp", "nowhere"),
              ("d/l.tmp", "outfile"), ("d/m", "outdir"), ("d/m.tmp", "outdir"), (".h/a.tmp", "file"), (".h/.tmp", "file"),
              ("d/.git/b.tmp", "file"), ("__pycache__/a.tmp", "file"), ("d/e/f/g/a.tmp", "file"), ("1/2/3/4/5/6/7/8/9/a.tmp", "file"), ("/".join("d" * 40) + "/a.tmp", "file")])


def judge_history(spec, ctx):
    """several deletions one after another in one process, each with its own working directory, folder name, extension and flag"""
    calls = spec[0]
    scratch = tempfile.mkdtemp(prefix="f01-")
    here = os.getcwd()
    try:
        for w in ("w1", "w2"):
            for p in ("in/a.tmp", "in/b.txt", "in/d/a.tmp", "in/d/b.txt", "d/a.tmp", "a.tmp", "b.txt", "other/in/a.tmp", "other/in/d/b.txt"):
                full = os.path.join(scratch, w, p)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "w") as f:
                    f.write(p)
        for at, folder, ext, deep in calls:
            before = listing(scratch)
            os.chdir(os.path.join(scratch, at))
            base = os.path.relpath(os.path.realpath(folder if not folder.startswith("/") else scratch + folder), os.path.realpath(scratch))
            want = {p for p in before if before[p].startswith("file") and p.endswith(ext)
                    and (os.path.dirname(p) == base or (deep and p.startswith(base + os.sep)))}
            with Guard(scratch) as guard:
                delete_files_with_extension(folder if not folder.startswith("/") else scratch + folder, ext, deep)
            now = os.getcwd()
            os.chdir(here)
            ctx.step()
            after = listing(scratch)
            if os.path.realpath(now) != os.path.realpath(os.path.join(scratch, at)):
                return ctx.fail("calls %s: the working directory was changed to %s" % (calls, now))
            gone = {p for p in before if after.get(p) != before[p]}
            if gone != want or guard.outside or set(after) - set(before):
                return ctx.fail("calls %s: the call %s removes %s instead of %s%s" % (
                    calls, (at, folder, ext, deep), sorted(gone), sorted(want), " and tries %s" % guard.outside if guard.outside else ""))
        ctx.trace()
        ctx.state(tuple(sorted(after)))
    finally:
        os.chdir(here)
        shutil.rmtree(scratch)


CALLS = [("w1", "in", ".tmp", False), ("w1", "in", ".tmp", True), ("w2", "in", ".tmp", True), ("w2", "in", ".txt", False), ("w1", ".", ".txt", False),
         ("w2/other", "in", ".tmp", False), ("w1/in", "d", ".tmp", False), ("w1", "d", ".tmp", True), ("w2/in/d", "..", ".tmp", False),
         ("w1", "/w2/in", ".txt", True), ("w2", "./in", ".tmp", False)]


def histories(tier):
    """all sequences of two (thorough: three) deletions out of eleven"""
    for n in (2,) + ((3,) if tier == "thorough" else ()):
        for calls in product(*[CALLS] * n):
            yield (calls,)
    for k in range(len(CALLS)):
        yield (tuple(CALLS[k:] + CALLS[:k]),)


def trees(tier):
    """all trees of up to two (three) entries out of 35 x both flags, and the default"""
    for n in (0, 1, 2) + ((3,) if tier == "thorough" else ()):
        for entries in itertools.combinations(ENTRIES, n):
            for deep in (False, True):
                yield (entries, ".tmp", deep, "absolute")
            if n < 2:
                yield (entries, ".tmp", None, "absolute")


def ways(tier):
    """one- and two-entry trees x extensions x ways to name the folder"""
    for n in (1, 2) if tier == "thorough" else (1,):
        for entries in itertools.combinations(ENTRIES, n):
            for ext, how, deep in product((".tmp", ".txt", "tmp", ".TMP", ".tm", ".none"), ("absolute", "relative", "slash", "through", "path object", "linked", "linked, slash"), (False, True)):
                yield (entries, ext, deep, how)


def odd(tier):
    """every unusual name (spaces, line ends, patterns, accents, case) at every depth, alone and beside a plain one, x extensions"""
    for name, at, ext, deep in product(ODD, ("", "d/", "d.tmp/e/"), (".tmp", "tmp", ".tmp ", "p"), (None, False, True)):
        yield (((at + name, "file"),), ext, deep, "absolute")
    for name, other, deep in product(ODD, ODD, (False, True)):
        if name != other:
            yield (((name, "file"), ("a.tmp", "file"), (other, "file"), ("d/" + name, "file"), ("d/" + other, "file")), ".tmp", deep, "relative")
    for name in ODD:
        for deep in (False, True):
            yield (((name, "dir"), (name + "/b.tmp", "file"), ("c.tmp", "file")), ".tmp", deep, "absolute")


def parents(tier):
    """folders with unusual names on the way to the folder: patterns, spaces, accents, hidden, with the extension itself"""
    tree = (("a.tmp", "file"), ("b.txt", "file"), (".tmp", "file"), ("d/a.tmp", "file"), ("d/b.txt", "file"), ("d.tmp/a.tmp", "file"), ("l.tmp", "outfile"))
    for name in ("run[3]", "a*b", "?", "x y", "#1", "ä", ".hidden", "d.tmp", ".tmp", "-r", "~", "$HOME", "a'b", 'a"b', "{a,b}", "a\\b", "tab\there", "end ", " start", "a;b", "%s", "[!a]", "1e5", "a" * 200):
        for how, ext, deep in product(("absolute", "relative", "slash", "through"), (".tmp", ".txt"), (None, False, True)):
            yield (tree, ext, deep, (how, name))


def kinds(tier):
    """empty files, write-protected files and files with a second name elsewhere, alone, beside a plain one and in pairs, at every depth"""
    for kind, name, at, ext, deep in product(("empty", "twin", "locked"), ("a.tmp", ".tmp", "b.txt"), ("", "d/", "d.tmp/e/"), (".tmp", ".txt"), (None, False, True)):
        yield (((at + name, kind),), ext, deep, "absolute")
        yield (((at + name, kind), ("c.tmp", "file"), ("d/c.tmp", "file")), ext, deep, "relative")
        for other in ("empty", "twin", "locked"):
            yield (((at + name, kind), ("z.tmp", other), ("d/z.tmp", other), ("d/e/z.txt", other)), ext, deep, "absolute")


def crowds(tier):
    """large trees: all entries at once, less each one and each pair; folders of more than a thousand files, and more than a hundred folders"""
    many = tuple(("%s%d.%s" % ("file-" if k % 2 else "", k, "txt" if k % 7 == 3 else "tmp"), "file") for k in range(1300 if tier == "quick" else 11000))
    wide = tuple(("d%d/%d.%s" % (k, k, "txt" if k % 7 == 3 else "tmp"), "file") for k in range(150 if tier == "quick" else 1100))
    for deep in (None, False, True):
        yield (many, ".tmp", deep, "absolute")
        yield (many + wide, ".txt", deep, "absolute")
    for ext, deep in product((".tmp", ".txt", ".TMP", ".none"), (None, False, True)):
        yield (tuple(ENTRIES), ext, deep, "absolute")
    for out in itertools.chain(itertools.combinations(ENTRIES, 1), itertools.combinations(ENTRIES, 2)):
        for deep in (False, True):
            yield (tuple(e for e in ENTRIES if e not in out), ".tmp", deep, "relative")


def spaces(tier):
    all_ = [("histories", histories, judge_history), ("trees", trees, judge), ("ways", ways, judge), ("odd", odd, judge), ("parents", parents, judge), ("kinds", kinds, judge), ("crowds", crowds, judge)]
    return [Space(n, (lambda g=g: g(tier)), j, note=g.__doc__) for n, g, j in all_]
