"""C07: queries that fail midway leave the object usable and correct."""
import numpy as np

from .. import trace, zoo
from ..core import Discard, InjectedFault, Violation
from ..tasks import Abandoned
from .c06 import reference

KIND_OF_EXC = {"error": InjectedFault, "memory": MemoryError, "interrupt": Abandoned}


class Fuse:
    """Raises at the chosen source line / shared store / user call."""

    def __init__(self):
        self.mode, self.left, self.exc, self.fired, self.hook = None, 0, None, False, None
        self.where = None

    def arm(self, mode, left, exc):
        self.mode, self.left, self.exc, self.fired = mode, left, exc, False

    def disarm(self):
        self.mode = None

    def _tick(self):
        self.left -= 1
        if self.left <= 0:
            self.mode, self.fired = None, True
            raise self.exc("injected by the simulator")

    def user(self):
        if self.mode == "user":
            self._tick()

    def line(self, hot):
        if self.mode == "line" or (self.mode == "store" and hot):
            self._tick()


def run_faults(ctx, group):
    trace.prepare()
    name = ctx.choice(sorted(zoo.GROUPS[group]), "kind")
    seed = ctx.integer(0, 400, "object")
    fuse = Fuse()
    obj, queries = zoo.build(name, seed, fuse.user)
    names = list(queries)
    nops = ctx.integer(1, 5, "n-ops")
    ops = []
    for _ in range(nops):
        k = ctx.choice(names, "query")
        mode = ctx.choice(["none", "line", "store", "user"], "fault-mode", (2, 4, 4, 2))
        left = 0
        if mode == "line":
            left = ctx.integer(1, ctx.choice([8, 30, 100, 400, 1200], "line-range", (4, 4, 3, 2, 1)), "line")
        elif mode == "store":
            left = ctx.integer(1, ctx.choice([2, 6, 30], "store-range"), "store")
        elif mode == "user":
            left = ctx.integer(1, ctx.choice([1, 4, 12], "user-range"), "user-call")
        exc = ctx.choice(["error", "memory", "interrupt"], "exception") if mode != "none" else "-"
        ops.append((k, mode, left, exc))
    # the failed queries themselves are retried, and others asked
    after = [k for k, m, _, _ in ops if m != "none"]
    after += [ctx.choice(names, "after-query") for _ in range(ctx.integer(1, 5, "n-after"))]
    after = ctx.shuffle(after, "after-order")
    want = reference(name, seed, [o[0] for o in ops] + after)
    ctx.event("world", kind=name, object=seed, ops=ops, after=after)
    with np.errstate(all="ignore"):
        for n, (k, mode, left, exc) in enumerate(ops):
            ctx.steps += 1
            ctx.simtime += 1
            etype = KIND_OF_EXC.get(exc)
            got = None
            if mode != "none":
                fuse.arm(mode, left, etype)
            h = trace.LineHook(fuse.line)
            try:
                with h:
                    got = zoo.outcome(queries[k])
            except (InjectedFault, MemoryError, Abandoned) as e:
                if not fuse.fired or not isinstance(e, etype):
                    raise
            fuse.disarm()
            if mode != "none" and fuse.fired:
                fuse.fired = False
                if got is not None and (exc == "interrupt" or zoo.compare(got, want[k])):
                    raise Violation("fault-swallowed", f"{name}.{k}: a {exc} raised during the query ({mode} {left}, at {h.location()}) did not reach the "
                                                       f"caller; the query returned {got[0]}")
                ctx.fault(f"{mode}:{exc}")
                ctx.probe("kind:" + name)
                ctx.sched(f"{k}:{mode}:{left}")
                continue
            bad = zoo.compare(got, want[k])
            if bad:
                raise Violation("wrong-after-failure", f"{name}.{k} in history {ops[:n + 1]}: {bad}")
        for k in after:
            bad = zoo.compare(zoo.outcome(queries[k]), want[k])
            if bad:
                raise Violation("wrong-after-failure", f"{name}.{k} after {ops} (then {after}): {bad}")
        for k in after[::-1]:
            bad = zoo.compare(zoo.outcome(queries[k]), want[k])
            if bad:
                raise Violation("unstable-after-failure", f"{name}.{k} asked again after {ops} (then {after}): {bad}")


def _group(g):
    return lambda ctx: run_faults(ctx, g)


SCENARIOS = {
    "linops": (_group("linops"), 8),
    "randvars": (_group("randvars"), 6),
    "markov": (_group("markov"), 3),
    "posteriors": (_group("posteriors"), 2),
    "processes": (_group("processes"), 3),
    "linsolve": (_group("linsolve"), 1),
}


def nontrivial(ctx):
    return bool(ctx.faults)
