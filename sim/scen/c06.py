"""C06: value objects shared between threads (pre-emption at source-line granularity)."""
import numpy as np

from .. import trace, zoo
from ..core import Discard, InjectedFault, Violation
from ..tasks import Abandoned, Sched

MAX_SWITCHES = 4000
MAX_LINES = 300000  # per thread; queries take at most a few thousand lines


def draw_queries(ctx, names, n, label):
    return [ctx.choice(names, label) for _ in range(n)]


def draw_pool(ctx, names, n):
    """Few queries, often close relatives (which share caches and helpers)."""
    pool = [ctx.choice(names, "pool")]
    stem = pool[0].split("-")[0][:4]
    kin = [k for k in names if k.split("-")[0][:4] == stem and k != pool[0]]
    while len(pool) < n:
        pool.append(ctx.choice(kin if kin and ctx.flag(0.4, "kin") else names, "pool"))
    return pool


def reference(name, seed, queries, lines=None):
    """Answers of fresh objects, one per query; ``lines`` receives the number of source lines."""
    out = {}
    for k in sorted(set(queries)):
        _, q = zoo.build(name, seed)
        if lines is None:
            out[k] = zoo.outcome(q[k])
        else:
            n = [0, 0]

            def count(hot):
                n[0] += 1
                n[1] += bool(hot)

            with trace.LineHook(count):
                out[k] = zoo.outcome(q[k])
            lines[k] = tuple(n)
    return out


def run_threads(ctx, group):
    trace.prepare()
    name = ctx.choice(sorted(zoo.GROUPS[group]), "kind")
    seed = ctx.integer(0, 400, "object")
    pairwise = ctx.flag(0.5, "pairwise")  # one thread stopped at a uniformly chosen line of its first query
    nthreads = 2 if pairwise else ctx.choice([2, 3, 4], "threads", (6, 3, 1))
    sched = Sched()
    ctx.cleanups.append(sched.shutdown)
    obj, queries = zoo.build(name, seed, sched.point)
    names = list(queries)
    # contention: the threads mostly ask for few different things
    pool = draw_pool(ctx, names, ctx.choice([1, 2, 3, 6], "pool-size", (4, 6, 1, 1) if pairwise else (3, 4, 3, 2)))
    warm = draw_queries(ctx, names, ctx.choice([0, 1, 2], "warm", (8, 1, 1) if pairwise else (4, 2, 1)), "warm-query")
    plans = [draw_queries(ctx, pool, ctx.integer(1, 3, "n-queries"), "query") for _ in range(nthreads)]
    after = draw_queries(ctx, names, ctx.integer(0, 2, "n-after"), "after-query")
    lines = {}
    want = reference(name, seed, warm + sum(plans, []) + after, lines)
    ctx.event("world", kind=name, object=seed, warm=",".join(warm), plans=plans, after=",".join(after))
    with np.errstate(all="ignore"):
        for k in warm:
            bad = zoo.compare(zoo.outcome(queries[k]), want[k])
            if bad:
                raise Violation("history-dependent", f"{name}.{k} after {warm}: {bad}")

    results = {}
    hooks = {}

    def body(i):
        def run():
            task = tasks[i]

            def on_line(hot):
                if task.hot_left is not None:
                    if hot:
                        task.hot_left -= 1
                        if task.hot_left <= 0:
                            task.budget = 0
                            task.point()
                            return
                    task.points += 1
                    if task.points < MAX_LINES:
                        return
                task.point()

            with np.errstate(all="ignore"), trace.LineHook(on_line) as h:
                hooks[i] = h
                for j, k in enumerate(plans[i]):
                    results[i, j] = zoo.outcome(queries[k])
        return run

    tasks = [sched.spawn(f"T{i}", body(i)) for i in range(nthreads)]
    for t in tasks:
        t.hot_left = None
    inject = ctx.flag(0.15, "kill-one")
    switches = 0
    last = None
    while True:
        live = [i for i, t in enumerate(tasks) if not t.done]
        if not live:
            break
        ready = [i for i in live if not tasks[i].blocked]
        if not ready:
            raise Violation("deadlock", f"{name}: all {len(live)} unfinished threads wait for locks; plans {plans}")
        switches += 1
        if switches > MAX_SWITCHES:
            raise Discard("too many switches")
        if pairwise and switches <= 2 and len(ready) == 2:
            i = switches - 1
        else:
            i = ctx.choice(ready, "who")
        t = tasks[i]
        if pairwise and switches == 1:
            total, stores = lines[plans[i][0]]
            t.hot_left = None
            if stores and ctx.flag(0.6, "at-store"):
                t.hot_left = ctx.integer(1, stores, "stop-store")
                t.resume(MAX_LINES)
            else:
                t.resume(ctx.integer(1, max(1, total), "stop-line"))
            ctx.sched(f"{i}:stop:{t.points}")
            ctx.steps += 1
            last = i
            if t.done and t.error is not None:
                raise Violation("thread-failed", f"{name}: thread {i} with plan {plans[i]} died: {t.error!r}")
            continue
        mode = ctx.choice(["end", "lines", "hot"], "mode", (12, 4, 4) if pairwise else (2, 4, 4))
        if mode == "hot":
            t.hot_left, budget = ctx.choice([1, 2, 3, 5, 9, 20, 50], "hot-points"), MAX_LINES
        else:
            t.hot_left = None
            budget = MAX_LINES if mode == "end" else ctx.choice([1, 2, 3, 5, 8, 13, 30, 80, 200], "lines")
        exc = None
        if inject and t.started and not t.hurt and ctx.flag(0.1, "kill"):
            exc = Abandoned("interrupt")
            ctx.fault("thread-interrupted")
            inject = False
        t.resume(budget, exc)
        if t.points >= MAX_LINES and not t.done:
            raise Violation("no-progress", f"{name}: thread {i} with plan {plans[i]} did not finish within {MAX_LINES} source lines")
        ctx.steps += 1
        ctx.sched(f"{i}:{mode}:{t.points}")
        if t.blocked:
            ctx.probe("blocked_on_lock")
        if not t.done and last is not None and last != i:
            ctx.fault("preemption")
        last = i
        if t.done and t.error is not None and not t.hurt:
            raise Violation("thread-failed", f"{name}: thread {i} with plan {plans[i]} died: {t.error!r}")
    for (i, j), got in sorted(results.items()):
        k = plans[i][j]
        bad = zoo.compare(got, want[k])
        if bad:
            raise Violation("thread-answer", f"{name}.{k} asked by thread {i} of {nthreads} (plans {plans}): {bad}")
    for i, t in enumerate(tasks):
        if not t.hurt and len([1 for (a, _) in results if a == i]) != len(plans[i]):
            raise Violation("thread-answer", f"{name}: thread {i} lost answers")
    with np.errstate(all="ignore"):
        for k in after:
            bad = zoo.compare(zoo.outcome(queries[k]), want[k])
            if bad:
                raise Violation("after-threads", f"{name}.{k} after the threads {plans}: {bad}")
    ctx.probe("kind:" + name)
    ctx.probe("switches", switches)
    ctx.simtime += sum(t.points for t in tasks)


def _group(g):
    return lambda ctx: run_threads(ctx, g)


SCENARIOS = {
    "linops": (_group("linops"), 8),
    "randvars": (_group("randvars"), 6),
    "markov": (_group("markov"), 3),
    "posteriors": (_group("posteriors"), 2),
    "processes": (_group("processes"), 3),
    "linsolve": (_group("linsolve"), 1),
}


def nontrivial(ctx):
    return ctx.faults.get("preemption", 0) > 0
