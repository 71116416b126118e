"""python tools/catch.py [--all] [ID...]: run each planted bug's check (or all checks) against a scratch copy with the patch applied"""
import json, os, shutil, subprocess, sys, time

SEEDED, WORK = os.environ.get("SEEDED", "/verif/seeded"), "/tmp/catch-work-%d" % os.getpid()
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(SEEDED))
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for i in ids:
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    if os.path.exists(WORK):
        shutil.rmtree(WORK)
    shutil.copytree("/repo", WORK, symlinks=True)
    subprocess.run(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=WORK, check=True)
    hits, t0 = [], time.time()
    for p in (props if "--all" in sys.argv else [meta["property"]]):
        r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "mc.run", p, "--tier", "thorough" if "--thorough" in sys.argv else "quick"], cwd="/verif", capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=WORK))
        if r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout:
            hits.append(p)
        elif r.returncode != 0:
            hits.append(p + ":rc%d" % r.returncode)
    print("%-28s %s %s  %s  %.0fs" % (i, meta["property"], "caught" if meta["property"] in hits else "MISSED", " ".join(hits), time.time() - t0), flush=True)
if os.path.exists(WORK):
    shutil.rmtree(WORK)
