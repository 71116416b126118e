"""python tools/spaces.py: print, as markdown, the enumerated spaces and assumptions of every check (used for DESIGN.md)"""
import importlib, json, os, sys
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), "/verif"]
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
for line in open("/verif/properties.jsonl"):
    p = json.loads(line)
    m = importlib.import_module("mc.checks." + p["id"].lower())
    print("**%s — %s.**  " % (p["id"], p["title"]))
    print("Spaces: " + "; ".join("`%s` %s" % (s.name, " ".join((s.note or "").split())) for s in m.spaces("quick") if not s.name.startswith("context_")) + ".")
    ctxs = [s.name[8:] for s in m.spaces("quick") if s.name.startswith("context_")]
    if ctxs:
        print("Context spaces: %s." % ", ".join(ctxs))
    if getattr(m, "ASSUMPTIONS", None):
        print("Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
    print()
