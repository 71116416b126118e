"""The explorer: enumerates finite spaces of executions of the real code and judges every one.

A check module defines
    PROPERTY    the id
    RULE        how executions are made, and what makes one non-trivial
    ASSUMPTIONS list of strings (optional)
    spaces(tier) -> list of Space

A Space is a deterministic generator of specs (JSON-able tuples) in simplest-first order and a judge(spec, ctx)
that runs the implementation on that spec and compares it with a reference model.  Nothing is sampled: a run judges
every spec of every space.  The judge reports through ctx:
    ctx.state(key)   canonical form of an observed state / outcome (hashed; distinct ones are counted)
    ctx.step(n)      n operations of the implementation were executed
    ctx.trace()      one complete model trace was compared with the implementation
    ctx.fail(msg)    the property is broken in this execution
    ctx.skip(why)    the outcome hinges on less than the stated margin, so the reference model abstains
"""
import contextlib
import hashlib
import io
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHUNK = 8
MAX_FAILS_PER_WORKER = 4


class Timeout(BaseException):
    pass


class Space:
    def __init__(self, name, specs, judge, timeout=30, note=""):
        self.name, self.specs, self.judge, self.timeout, self.note = name, specs, judge, timeout, note


class Ctx:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.skips = {}
        self.executed = 0
        self.fails = None

    def state(self, *key):
        self.states.add(hash64(key))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def fail(self, msg):
        self.fails.append(str(msg))


def hash64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def judge_one(space, spec, ctx):
    """Judge one spec; returns the list of failure messages (empty when the property holds)."""
    ctx.fails = []

    def on_alarm(signum, frame):
        raise Timeout()

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, space.timeout)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            space.judge(spec, ctx)
    except Timeout:
        ctx.fails.append("did not terminate within %s s of processor time" % space.timeout)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        if any(os.path.realpath(f.filename).startswith(repo_dir() + os.sep) for f in tb):
            ctx.fails.append("raised %s: %s (at %s:%s)" % (type(e).__name__, e, os.path.basename(where.filename), where.name))
        else:
            # not from the code under test as such, but the implementation handed back something unusable
            ctx.fails.append("unusable result: %s: %s (at %s:%s line %s)" % (
                type(e).__name__, e, os.path.basename(where.filename), where.name, where.lineno))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    ctx.executed += 1
    return ctx.fails


def repo_dir():
    return os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def load_known(prop):
    """known-findings file: lines `known: property=ID space=NAME spec=JSON fails=TEXT -- description`"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                head, desc = line.rstrip("\n").split(" -- ", 1)
                space = head.split(" space=", 1)[1].split(" spec=", 1)[0]
                spec = head.split(" spec=", 1)[1].split(" fails=", 1)[0]
                fails = head.split(" fails=", 1)[1]
                out.append(dict(space=space, spec=json.loads(spec), fails=fails, desc=desc))
    return out


def is_known(known, space_name, spec, msgs):
    spec = json.loads(json.dumps(spec))
    for k in known:
        if k["space"] == space_name and k["spec"] == spec and msgs and all(k["fails"] in m for m in msgs):
            return k
    return None


def worker(k, nworkers, spaces, known, conn):
    try:
        import faulthandler
        faulthandler.enable()
        ctx = Ctx()
        fails, knowns, per_space, samples = [], [], {}, []
        for sp in spaces:
            before = (ctx.executed, ctx.steps, ctx.traces, len(ctx.states), sum(ctx.skips.values()))
            total = 0
            for i, spec in enumerate(sp.specs()):
                total += 1
                if (i // CHUNK) % nworkers != k:
                    continue
                msgs = judge_one(sp, spec, ctx)
                if msgs:
                    kn = is_known(known, sp.name, spec, msgs)
                    if kn:
                        knowns.append((kn["desc"], sp.name))
                    else:
                        fails.append((sp.name, i, spec, msgs[:5]))
                        if len(fails) >= MAX_FAILS_PER_WORKER:
                            break
                elif i == (k * CHUNK):
                    samples.append({"space": sp.name, "spec": spec})
            after = (ctx.executed, ctx.steps, ctx.traces, len(ctx.states), sum(ctx.skips.values()))
            per_space[sp.name] = [a - b for a, b in zip(after, before)] + [total]
            if len(fails) >= MAX_FAILS_PER_WORKER:
                break
        conn.send(dict(states=ctx.states, steps=ctx.steps, traces=ctx.traces, skips=ctx.skips, executed=ctx.executed,
                       fails=fails, knowns=knowns, per_space=per_space, samples=samples))
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    finally:
        conn.close()


def explore(spaces, known, nworkers):
    mp = multiprocessing.get_context("fork")
    procs = []
    for k in range(nworkers):
        a, b = mp.Pipe(duplex=False)
        p = mp.Process(target=worker, args=(k, nworkers, spaces, known, b))
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    for p, a in procs:
        try:
            results.append(a.recv())
        except EOFError:
            results.append(dict(error="worker died"))
        p.join()
    return results


def rejudge(space, spec):
    """Judge the spec again in a fresh process: is the failure reproducible on its own?"""
    mp = multiprocessing.get_context("fork")
    a, b = mp.Pipe(duplex=False)

    def body():
        b.send(judge_one(space, spec, Ctx()))
        b.close()

    p = mp.Process(target=body)
    p.start()
    b.close()
    try:
        out = a.recv()
    except EOFError:
        out = ["the process died"]
    p.join()
    return out


def run_check(module, tier, seed):
    t0 = time.time()
    prop = module.PROPERTY
    spaces = module.spaces(tier)
    known = load_known(prop)
    nworkers = max(1, min(8, os.cpu_count() or 1))
    results = explore(spaces, known, nworkers)
    errors = [r["error"] for r in results if "error" in r]
    if errors:
        print(errors[0], file=sys.stderr)
        print("ERROR: the check itself failed")
        return 2
    states = set().union(*(r["states"] for r in results))
    fails = sorted((f for r in results for f in r["fails"]),
                   key=lambda f: ([s.name for s in spaces].index(f[0]), f[1]))
    skips = {}
    for r in results:
        for k, v in r["skips"].items():
            skips[k] = skips.get(k, 0) + v
    per_space = {}
    for sp in spaces:
        rows = [r["per_space"][sp.name] for r in results if sp.name in r["per_space"]]
        per_space[sp.name] = dict(executions=sum(x[0] for x in rows), space_size=max([x[5] for x in rows] or [0]),
                                  transitions=sum(x[1] for x in rows), model_traces=sum(x[2] for x in rows),
                                  abstained=sum(x[4] for x in rows), what=sp.note)
    samples = [s for r in results for s in r["samples"]]
    rot = seed % max(1, len(samples))
    samples = (samples[rot:] + samples[:rot])[:5]
    complete = all(v["executions"] == v["space_size"] for v in per_space.values())
    for desc in sorted({d for r in results for d, _ in r["knowns"]}):
        print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=len(states), transitions=sum(r["steps"] for r in results),
            traces_validated_against_impl=sum(r["traces"] for r in results),
            samples=samples, exhaustive=bool(complete and not fails),
            rule=module.RULE, spaces=per_space, abstained=skips, workers=nworkers,
            known_findings=sum(len(r["knowns"]) for r in results),
            explanation="Direct exploration of the implementation: states are distinct canonical outcomes observed, "
                        "transitions are operations of the implementation executed (ray legs, queries, tree or list "
                        "operations), traces_validated_against_impl are complete executions compared with the "
                        "independent reference model or with the execution the property relates them to."),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 3), violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print("%s %s: %d executions, %d states, %d transitions, %d model traces, %d abstained, %.1f s" % (
        prop, tier, sum(v["executions"] for v in per_space.values()), len(states), evidence["coverage"]["transitions"],
        evidence["coverage"]["traces_validated_against_impl"], sum(skips.values()), time.time() - t0))
    if not fails:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    by_name = {s.name: s for s in spaces}
    for n, (name, index, spec, msgs) in enumerate(fails[:3]):
        again = rejudge(by_name[name], spec)
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, space=name, index=index, spec=spec, messages=msgs,
                           reproduces_alone=bool(again),
                           replay="cd /verif && /opt/venv/bin/python -B -m mc.replay " + path), f, indent=1, default=str)
        print("%s[%d] %s" % (name, index, json.dumps(spec, default=str)[:600]))
        for m in msgs:
            print("    " + m[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def product(*axes):
    """Cartesian product, first axis slowest."""
    return itertools.product(*axes)
