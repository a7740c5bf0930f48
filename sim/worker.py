"""One worker process: runs a slice of run indices, or shrinks / replays one decision list."""
import json
import os
import signal
import sys
import time
import traceback

from . import env

env.bootstrap()

import importlib  # noqa: E402

from . import seams  # noqa: E402
from .core import Ctx, Discard, Violation, derive  # noqa: E402

HANG_S = 90  # processor time of one run (the median is well below one second)
HANG_WALL_S = 150  # a run that does not compute at all


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def load(prop):
    return importlib.import_module("sim.scen." + prop.lower())


def scenario_for(mod, i):
    """Deterministic weighted round-robin of scenario names over run indices."""
    names = sorted(mod.SCENARIOS)
    cycle = []
    for n in names:
        cycle += [n] * mod.SCENARIOS[n][1]
    # interleave so that every window of len(cycle) has the right mix
    order = sorted(range(len(cycle)), key=lambda k: derive("mix", k))
    return cycle[order[i % len(cycle)]]


def execute(mod, name, ctx):
    """Run one scenario.  Returns ('ok'|'discard'|'violation', cls, msg)."""
    func = mod.SCENARIOS[name][0]
    old = signal.signal(signal.SIGALRM, _alarm)
    oldp = signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(HANG_WALL_S)
    signal.setitimer(signal.ITIMER_PROF, HANG_S)
    try:
        with seams.ambient(ctx):
            func(ctx)
        out = ("ok", None, None)
    except Discard:
        out = ("discard", None, None)
    except Violation as exc:
        out = ("violation", f"{name}:{exc.cls}", exc.msg)
    except Hang:
        out = ("violation", f"{name}:hang", f"one run did not end within {HANG_S} s of processor time")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:  # noqa: BLE001
        tb = traceback.extract_tb(exc.__traceback__)
        in_sut = [f for f in tb if os.path.join(env.REPO, "src") in f.filename]
        text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
        if not in_sut and isinstance(exc, (NameError, ImportError, SyntaxError, AttributeError)):
            out = ("error", type(exc).__name__, text)
        else:
            where = f"{os.path.basename(in_sut[-1].filename)}:{in_sut[-1].name}" if in_sut else "judging"
            out = ("violation", f"{name}:unexpected-{type(exc).__name__}@{where}", text[-3000:])
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, oldp)
        signal.signal(signal.SIGALRM, old)
        for fn in reversed(ctx.cleanups):
            try:
                fn()
            except Exception:  # noqa: BLE001
                pass
    return out


def run_slice(prop, tier, seed, start, stride, total, cap, known):
    mod = load(prop)
    t0 = time.time()
    res = dict(evals=0, discards=0, hashes=[], nontrivial=[], sched=[], faults={}, probes={}, simtime=0.0,
               steps=0, scen={}, samples=[], known={}, failure=None, error=None, done=0, planned=0)
    idx = list(range(start, total, stride))
    res["planned"] = len(idx)
    for i in idx:
        if time.time() - t0 > cap:
            break
        name = scenario_for(mod, i)
        ctx = Ctx(seed=derive(seed, prop, i), tier=tier)
        status, cls, msg = execute(mod, name, ctx)
        res["done"] += 1
        if status == "discard":
            res["discards"] += 1
            continue
        if status == "error":
            res["error"] = msg
            break
        res["evals"] += 1
        h = ctx.log_hash()
        res["hashes"].append(h)
        if mod.nontrivial(ctx):
            res["nontrivial"].append(h)
        res["sched"].append(ctx.sched_hash())
        for k, v in ctx.faults.items():
            res["faults"][k] = res["faults"].get(k, 0) + v
        for k, v in ctx.probes.items():
            res["probes"][k] = res["probes"].get(k, 0) + v
        res["simtime"] += ctx.simtime
        res["steps"] += ctx.steps
        sc = res["scen"].setdefault(name, 0)
        res["scen"][name] = sc + 1
        if len(res["samples"]) < 1 and mod.nontrivial(ctx):
            res["samples"].append(dict(run=i, scenario=name, seed=ctx.seed, faults=ctx.faults,
                                       events=ctx.events[:40], decisions=len(ctx.decisions)))
        if status == "violation":
            kf = match_known(known, prop, cls)
            if kf is not None:
                res["known"][kf] = res["known"].get(kf, 0) + 1
                continue
            res["failure"] = dict(run=i, scenario=name, seed=ctx.seed, cls=cls, msg=msg,
                                  decisions=ctx.values(), labels=[l for l, _ in ctx.decisions],
                                  events=ctx.events)
            break
    res["wall"] = time.time() - t0
    return res


def match_known(known, prop, cls):
    for k in known:
        if k["property"] == prop and k["class"] == cls:
            return k["class"]
    return None


def attempt(mod, name, values, tier):
    ctx = Ctx(seed=0, replay=values, tier=tier)
    status, cls, msg = execute(mod, name, ctx)
    return ctx, status, cls, msg


def shrink(prop, failure, tier, budget):
    """Minimise the decision list while the same violation class persists."""
    mod = load(prop)
    name, want = failure["scenario"], failure["cls"]
    best = list(failure["decisions"])
    t0 = time.time()
    tried = 0
    ctx, status, cls, msg = attempt(mod, name, best, tier)
    if status != "violation" or cls != want:
        return dict(ok=False, cls=cls, msg=msg)
    best = ctx.values()
    final = (ctx, msg)
    if want.endswith(":hang"):
        return dict(ok=True, decisions=best, labels=[l for l, _ in ctx.decisions], events=ctx.events, msg=msg, tried=1)

    def left():
        return time.time() - t0 < budget

    def ok(cand):
        nonlocal best, final, tried
        tried += 1
        c, st, k, m = attempt(mod, name, cand, tier)
        if st == "violation" and k == want:
            vals = c.values()
            # keep only progress: shorter, or same length and lexicographically lower
            if (len(vals), vals) < (len(best), best):
                best, final = vals, (c, m)
                return True
        return False

    improved = True
    while improved and left():
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and left():
            i = 0
            while i < len(best) and left():
                if ok(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        size = max(1, len(best) // 4)
        while size >= 1 and left():
            i = 0
            while i < len(best) and left():
                if any(best[i:i + size]) and ok(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if not left():
                break
            while i < len(best) and best[i] > 1 and left():
                if not ok(best[:i] + [best[i] // 2] + best[i + 1:]):
                    break
                improved = True
            if i < len(best) and best[i] > 0 and left():
                if ok(best[:i] + [best[i] - 1] + best[i + 1:]):
                    improved = True
    ctx, msg = final
    return dict(ok=True, decisions=best, labels=[l for l, _ in ctx.decisions], events=ctx.events, msg=msg,
                tried=tried, faults=ctx.faults)


def main():
    job = json.load(open(sys.argv[1]))
    kind = job["kind"]
    if kind == "slice":
        out = run_slice(job["prop"], job["tier"], job["seed"], job["start"], job["stride"], job["total"],
                        job["cap"], job["known"])
    elif kind == "shrink":
        out = shrink(job["prop"], job["failure"], job["tier"], job["budget"])
    elif kind == "replay":
        mod = load(job["prop"])
        ctx, status, cls, msg = attempt(mod, job["scenario"], job["decisions"], job["tier"])
        out = dict(status=status, cls=cls, msg=msg, events=ctx.events, hash=ctx.log_hash())
    elif kind == "hashes":
        mod = load(job["prop"])
        out = []
        for i in job["indices"]:
            ctx = Ctx(seed=derive(job["seed"], job["prop"], i), tier=job["tier"])
            status, cls, msg = execute(mod, scenario_for(mod, i), ctx)
            out.append([i, status, cls, ctx.log_hash()])
    else:
        raise SystemExit("unknown job")
    with open(sys.argv[2], "w") as fh:
        json.dump(out, fh, default=str)


if __name__ == "__main__":
    main()
