"""python -m mc.replay FILE: run the one execution recorded in FILE again, without the explorer."""
import json
import sys

from mc import run, core


def totuple(x):
    return tuple(totuple(i) for i in x) if isinstance(x, list) else x


def main():
    rec = json.load(open(sys.argv[1]))
    module = run.load(rec["property"])
    space = {s.name: s for s in module.spaces(rec["tier"])}[rec["space"]]
    print("property %s, space %s, spec %s" % (rec["property"], rec["space"], json.dumps(rec["spec"])))
    msgs = core.judge_one(space, totuple(rec["spec"]), core.Ctx())
    for m in msgs:
        print("    " + m)
    print("FAILS" if msgs else "HOLDS")
    return 1 if msgs else 0


if __name__ == "__main__":
    sys.exit(main())
