"""python tools/plant.py BUGFILE [ID...]: make seeded/<id>/ from a description, confirming each in a scratch copy of /repo.

BUGFILE is a Python file with BUGS = [dict(id=, property=, file=, old=, new=, needs=, what=, demo=, [more=[(file, old, new)])].
A bug is kept when the patch applies, the stable tests pass with it, and demo.sh is 0 without and nonzero with it.
"""
import json, os, runpy, shutil, subprocess, sys

PY = "/opt/venv/bin/python"
WORK = "/tmp/plant-work"


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {})))


def fresh():
    if os.path.exists(WORK):
        shutil.rmtree(WORK)
    shutil.copytree("/repo", WORK, symlinks=True)


def tests_pass():
    base = json.load(open("/opt/vp/BASELINE.json"))
    ids = base.get("stable") or base.get("tests") or base
    r = sh(PY + " -B -m pytest -q -p no:cacheprovider test_*.py 2>&1 | tail -3", WORK)
    return "failed" not in r.stdout and "error" not in r.stdout, r.stdout


def original_lines(diff):
    """number of removed lines that are the original repository's (blamed on the base commit)"""
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[-1]
    n, f, line, foreign = 0, None, 0, 0
    import re
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
            who = [w.split()[0].lstrip("^") for w in sh("git blame -l -s %s" % f, "/repo").stdout.splitlines()]
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("-"):
            if base.startswith(who[line][:39]):
                n += 1
            else:
                foreign += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    return n, foreign


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        fresh()
        ok = True
        for f, old, new in [(b["file"], b["old"], b["new"])] + b.get("more", []):
            p = os.path.join(WORK, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "OLD TEXT FOUND %d TIMES in %s" % (s.count(old), f))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", WORK).stdout
        out = os.path.join("/verif/seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" MPLBACKEND=Agg exec /opt/venv/bin/python -B "$here/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        t, text = tests_pass()
        with_ = sh("sh %s/demo.sh" % out, WORK)
        without = sh("sh %s/demo.sh" % out, "/repo")
        orig = original_lines(diff)
        good = orig[0] > 0 and orig[1] == 0 and t and with_.returncode != 0 and without.returncode == 0
        print(b["id"], "OK" if good else "REJECTED original lines=%s tests=%s with=%s without=%s" % (orig, t, with_.returncode, without.returncode))
        if not good:
            print(text[-300:], with_.stderr[-300:], without.stderr[-600:])
            if t and with_.returncode != 0 and without.returncode == 0 and os.environ.get("EXTRA"):  # a real bug all the same
                shutil.rmtree(os.path.join(os.environ["EXTRA"], b["id"]), ignore_errors=True)
                shutil.copytree(out, os.path.join(os.environ["EXTRA"], b["id"]))
            shutil.rmtree(out)
    if os.path.exists(WORK):
        shutil.rmtree(WORK)


main()
