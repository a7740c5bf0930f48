"""C13: iterations stop exactly when their stopping rule says so."""
import warnings

import numpy as np

from probnum import LambdaStoppingCriterion, StoppingCriterion, filtsmooth, linalg, problems, quad, randprocs, randvars
from probnum.filtsmooth.gaussian import approx
from probnum.filtsmooth.optim import FiltSmoothStoppingCriterion, GaussNewton, IteratedDiscreteComponent
from probnum.linalg import solvers
from probnum.linalg.solvers import belief_updates, beliefs, information_ops, policies
from probnum.linalg.solvers import stopping_criteria as lsc
from probnum.quad.solvers import BayesianQuadrature
from probnum.quad.solvers import stopping_criteria as qsc
from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
from probnum.quad.solvers.policies import Policy
from probnum.randprocs.kernels import ExpQuad

from .. import ref
from ..core import Discard, InjectedFault, Violation


# -- formulas over scripted verdicts ----------------------------------------------------
class Clock:
    def __init__(self):
        self.work = 0  # completed units of work
        self.consulted = []  # work count at every evaluation of the rule
        self.args = []
        self.tick = False  # no other way to observe progress: one consultation per iteration


def draw_formula(ctx, depth, nleaf):
    """Nested tuples over leaf indices."""
    if depth == 0 or ctx.flag(0.3, "leaf"):
        return ("leaf", ctx.integer(0, nleaf - 1, "which"))
    op = ctx.choice(["or", "and", "not"], "op", [3, 3, 2])
    if op == "not":
        return ("not", draw_formula(ctx, depth - 1, nleaf))
    return (op, draw_formula(ctx, depth - 1, nleaf), draw_formula(ctx, depth - 1, nleaf))


def evaluate(f, verdicts, i):
    if f[0] == "leaf":
        return verdicts[f[1]][min(i, len(verdicts[f[1]]) - 1)]
    if f[0] == "not":
        return not evaluate(f[1], verdicts, i)
    a, b = evaluate(f[1], verdicts, i), evaluate(f[2], verdicts, i)
    return (a and b) if f[0] == "and" else (a or b)


def build(f, leaves):
    if f[0] == "leaf":
        return leaves[f[1]]
    if f[0] == "not":
        return ~build(f[1], leaves)
    a, b = build(f[1], leaves), build(f[2], leaves)
    return (a & b) if f[0] == "and" else (a | b)


def show(f):
    if f[0] == "leaf":
        return f"c{f[1]}"
    if f[0] == "not":
        return f"~{show(f[1])}"
    return f"({show(f[1])}{'&' if f[0] == 'and' else '|'}{show(f[2])})"


def draw_rule(ctx, clock, horizon, base):
    """A stopping rule that is a random Boolean formula of scripted parts, true at ``horizon`` at the latest."""
    nleaf = ctx.integer(1, 4, "leaves")
    verdicts = []
    for _ in range(nleaf):
        rs = ctx.rs("verdicts")
        verdicts.append([bool(v) for v in rs.uniform(size=horizon + 1) < ctx.choice([0.5, 0.15, 0.85], "density")])
    numpy_bool = ctx.flag(0.4, "np.bool_")

    def leaf_fn(k):
        def fn(*args, **kwargs):
            v = verdicts[k][min(clock.work, horizon)]
            return np.bool_(v) if numpy_bool else v
        return fn

    class Leaf(base):
        def __init__(self, fn):
            self.fn = fn

        def __call__(self, *args, **kwargs):
            return self.fn(*args, **kwargs)

    leaves = []
    for k in range(nleaf):
        if base is qsc.BQStoppingCriterion and ctx.flag(0.1, "immediate"):
            verdicts[k] = [True] * (horizon + 1)
            leaves.append(qsc.ImmediateStop())
            continue
        leaves.append(Leaf(leaf_fn(k)) if ctx.flag(0.6, "subclass") else LambdaStoppingCriterion(leaf_fn(k)))
    f = draw_formula(ctx, 3, nleaf)
    # cap: true from the horizon on
    verdicts.append([False] * horizon + [True])
    leaves.append(Leaf(leaf_fn(nleaf)))
    f = ("or", f, ("leaf", nleaf)) if ctx.flag(0.5, "cap-last") else ("or", ("leaf", nleaf), f)
    inner = build(f, leaves)
    crash_at = ctx.integer(0, horizon, "crash-at") if ctx.flag(0.2, "crash-criterion") else None
    arm = {"crash": crash_at}

    class Outer(base):
        def __init__(self):
            pass

        def __call__(self, *args, **kwargs):
            if clock.tick:
                clock.work = len(clock.consulted)
            clock.consulted.append(clock.work)
            clock.args.append((args, kwargs))
            if arm["crash"] == clock.work:
                arm["crash"] = None
                ctx.fault("crash_criterion")
                raise InjectedFault("criterion")
            return inner(*args, **kwargs)

    stop_at = next(i for i in range(horizon + 1) if evaluate(f, verdicts, i))
    return Outer(), stop_at, show(f), arm


# -- hosts ------------------------------------------------------------------------------
class CountingPolicy(policies.LinearSolverPolicy):
    def __init__(self, clock, actions):
        self.clock, self.actions = clock, actions

    def __call__(self, solver_state, rng=None):
        return self.actions[self.clock.work % len(self.actions)]


class CountingUpdate(belief_updates.LinearSolverBeliefUpdate):
    """The real update; counts completed iterations."""

    def __init__(self, clock, inner):
        self.clock, self.inner = clock, inner

    def __call__(self, solver_state):
        out = self.inner(solver_state=solver_state)
        self.clock.work += 1
        return out


def host_linear(ctx, clock, rule, horizon):
    n = ctx.integer(2, 4, "n")
    rs = ctx.rs("system")
    M = rs.standard_normal((n, n))
    A = M @ M.T + np.eye(n)
    b = rs.standard_normal(n)
    acts = [rs.standard_normal(n) for _ in range(horizon + 1)]
    pls = solvers.ProbabilisticLinearSolver(policy=CountingPolicy(clock, acts), information_op=information_ops.ProjectedResidualInformationOp(),
                                            belief_update=CountingUpdate(clock, belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=0.1)),
                                            stopping_criterion=rule)
    prior = beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), np.eye(n)))
    prob = problems.LinearSystem(A=A, b=b)
    whole = ctx.flag(0.4, "whole")

    def run():
        if whole:
            _, st = pls.solve(prior=prior, problem=prob)
            return st.step
        k = -1
        for st in pls.solve_iterator(prior=prior, problem=prob):
            k += 1
            ctx.check(st.step == k == clock.work, "step-count", f"state {k} reports step {st.step} after {clock.work} updates")
        return k

    def judge():
        for w, (args, kw) in zip(clock.consulted, clock.args):
            st = kw.get("solver_state", args[0] if args else None)
            ctx.check(st is not None, "rule-argument", "criterion got no state")
    return run, judge


class CountingBQPolicy(Policy):
    def __init__(self, clock, nodes):
        super().__init__(batch_size=1)
        self.clock, self.nodes = clock, nodes

    @property
    def requires_rng(self):
        return False

    def __call__(self, bq_state, rng):
        return self.nodes[bq_state.nodes.shape[0] % len(self.nodes)][None, :]


def host_quad(ctx, clock, rule, horizon):
    nodes = ctx.rs("nodes").uniform(0, 1, (horizon + 1, 1))
    measure = quad.LebesgueMeasure(domain=(0.0, 1.0), input_dim=1) if hasattr(quad, "LebesgueMeasure") else quad.integration_measures.LebesgueMeasure(domain=(0.0, 1.0), input_dim=1)

    class Upd(BQStandardBeliefUpdate):
        def __call__(self, *a, **k):
            out = super().__call__(*a, **k)
            clock.work += 1
            return out

    bq = BayesianQuadrature(kernel=ExpQuad((1,)), measure=measure, policy=CountingBQPolicy(clock, nodes),
                            belief_update=Upd(jitter=1e-3, scale_estimation="mle"), stopping_criterion=rule, initial_design=None)

    def run():
        _, st, info = bq.integrate(lambda x: np.sin(x[:, 0]) + 1.5, None, None, None)
        ctx.check(info.iteration == clock.work and info.nevals == clock.work and st.nodes.shape[0] == clock.work, "step-count",
                  f"{info} after {clock.work} updates")
        ctx.check(info.has_converged, "converged-flag", f"{info}")
        return info.iteration

    def judge():
        for w, (args, kw) in zip(clock.consulted, clock.args):
            st = args[0] if args else kw["bq_state"]
            ctx.check(st.nodes.shape[0] == w, "rule-argument", f"criterion saw {st.nodes.shape[0]} nodes after {w} updates")
    return run, judge


def nonlinear_setup(ctx, npts):
    rs = ctx.rs("model")
    d = 1
    proc = randprocs.markov.integrator.IntegratedWienerProcess(initarg=0.0, num_derivatives=1, wiener_process_dimension=d,
                                                               initrv=randvars.Normal(rs.uniform(-0.5, 0.5, 2), 0.2 * np.eye(2)))
    c = float(rs.uniform(0.1, 0.6))
    model = randprocs.markov.discrete.NonlinearGaussian(
        input_dim=2, output_dim=1, transition_fun=lambda t, x: np.array([x[0] + c * np.sin(x[0])]),
        transition_fun_jacobian=lambda t, x: np.array([[1.0 + c * np.cos(x[0]), 0.0]]),
        noise_fun=lambda t: randvars.Normal(np.zeros(1), 0.1 * np.eye(1)))
    ekf = approx.DiscreteEKFComponent(model)
    locs = np.arange(npts) * 0.3
    ys = rs.uniform(-0.8, 0.8, (npts, 1))
    return proc, ekf, locs, ys


def host_smoother(kind):
    def host(ctx, clock, rule, horizon):
        proc, ekf, locs, ys = nonlinear_setup(ctx, ctx.integer(1, 3, "npts"))
        prob = problems.TimeSeriesRegressionProblem(locations=locs, observations=ys, measurement_models=ekf)
        kal = filtsmooth.gaussian.Kalman(proc)
        means = []
        whole = ctx.flag(0.3, "whole")
        init, _ = kal.filtsmooth(prob)
        gn = GaussNewton(kal, stopping_criterion=rule) if kind == "gauss-newton" else None
        given = ctx.flag(0.5, "init-given")
        kw = dict(init_posterior=init) if given else {}

        class Fixed(FiltSmoothStoppingCriterion):
            def __init__(self, n):
                super().__init__()
                self.n, self.k = n, [0]

            def __call__(self, error, reference):
                self.k[0] += 1
                return self.k[0] > self.n

        def gen(criterion):
            if kind == "gauss-newton":
                return GaussNewton(kal, stopping_criterion=criterion).solution_generator(prob, initial_guess=init)
            return kal.iterated_filtsmooth_posterior_generator(prob, stopcrit=criterion, **kw)

        if whole:
            clock.tick = True
            means.extend(np.array(p.states.mean) for p, _ in gen(Fixed(horizon)))

        def run():
            if whole:
                post, _ = gn.solve(prob, initial_guess=init) if kind == "gauss-newton" else kal.iterated_filtsmooth(prob, stopcrit=rule, **kw)
                ref.close(post.states.mean, means[clock.work], "last-iterate", f"result is not the iterate after {clock.work} passes", 1e-8, 1e-9)
                return clock.work
            means.clear()
            clock.work = 0
            for i, (p, _) in enumerate(gen(rule)):
                clock.work = i
                means.append(np.array(p.states.mean))
            return clock.work

        def judge():
            for w, (args, kw) in zip(clock.consulted, clock.args):
                refc = kw.get("reference", args[1] if len(args) > 1 else None)
                err = kw.get("error", args[0] if args else None)
                ref.close(refc, means[w], "rule-argument", f"reference after {w} passes", 1e-9, 1e-10)
                if w == 0:
                    ctx.check(np.all(np.isinf(err)), "rule-argument", "first error is not infinite")
                else:
                    ref.close(err, means[w] - means[w - 1], "rule-argument", f"error after {w} passes", 1e-6, 1e-9)
        return run, judge
    return host


def host_update(ctx, clock, rule, horizon):
    proc, ekf, locs, ys = nonlinear_setup(ctx, 1)
    means = []

    class Counting(type(ekf)):
        def backward_rv(self, *a, **k):
            out = super().backward_rv(*a, **k)
            means.append(np.array(out[0].mean))
            clock.work = len(means) - 1
            return out

    comp = Counting(ekf.non_linear_model)
    it = IteratedDiscreteComponent(comp, stopcrit=rule)
    rv = proc.initrv

    def run():
        means.clear()
        clock.work = 0
        if by_realization:
            out, _ = it.backward_realization(ys[0], rv, t=0.0)
        else:
            out, _ = it.backward_rv(randvars.Constant(ys[0]), rv, t=0.0)
        ref.close(out.mean, means[-1], "last-iterate", "returned update is not the last iterate", 1e-10, 1e-12)
        return clock.work

    by_realization = ctx.flag(0.5, "realization")

    def judge():
        for w, (args, kw) in zip(clock.consulted, clock.args):
            ref.close(kw.get("reference", args[1] if len(args) > 1 else None), means[w], "rule-argument", f"reference after {w} passes", 1e-9, 1e-10)
    return run, judge


HOSTS = {"linear": host_linear, "quad": host_quad, "ieks": host_smoother("ieks"), "gauss-newton": host_smoother("gauss-newton"), "update": host_update}


def formula(ctx):
    clock = Clock()
    kind = ctx.choice(list(HOSTS), "host", [3, 3, 2, 2, 2])
    horizon = ctx.integer(0, 6, "horizon")
    base = {"linear": lsc.LinearSolverStoppingCriterion, "quad": qsc.BQStoppingCriterion}.get(kind, ctx.choice([StoppingCriterion, FiltSmoothStoppingCriterion], "base"))
    rule, stop_at, text, arm = draw_rule(ctx, clock, horizon, base)
    run, judge = HOSTS[kind](ctx, clock, rule, horizon)
    ctx.event("formula", host=kind, rule=text, stop_at=stop_at, crash=arm["crash"])
    ctx.sched(f"{kind}{text}{stop_at}")
    for attempt in range(ctx.integer(1, 2, "repeat") + (1 if arm["crash"] is not None else 0)):
        clock.work = 0
        clock.consulted.clear(), clock.args.clear()
        armed = arm["crash"]
        try:
            n = run()
        except InjectedFault:
            ctx.check(armed is not None and clock.work == armed, "crash", "fault surfaced elsewhere")
            continue
        ctx.steps += n
        ctx.simtime += n
        ctx.check(armed is None or armed > stop_at, "rule-not-consulted", f"the rule was not consulted after {armed} iterations")
        ctx.check(n == stop_at, "stopped-early" if n < stop_at else "stopped-late",
                  f"{kind}: rule {text} holds first after {stop_at} iterations, run made {n}")
        ctx.check(set(clock.consulted) == set(range(stop_at + 1)), "rule-not-consulted", f"consulted after {clock.consulted}")
        judge()


# -- linear solvers: built-in criteria ----------------------------------------------------
def between(ctx, vals, label):
    """A tolerance strictly between two of the values that occur (or beyond them)."""
    v = sorted(x for x in vals if x > 1e-12)
    if not v:
        return 1e-3
    i = ctx.integer(0, len(v), label)
    if i == 0:
        return v[0] * 0.5
    if i == len(v):
        return v[-1] * 2.0
    return float(np.sqrt(v[i - 1] * v[i]))


def linear_tol(ctx):
    n = ctx.integer(1, 5, "n")
    rs = ctx.rs("system")
    Q = np.linalg.qr(rs.standard_normal((n, n)))[0]
    A = Q @ np.diag(np.exp(rs.uniform(-1, 1, n))) @ Q.T
    A = 0.5 * (A + A.T)
    b = rs.standard_normal(n) * ctx.choice([1.0, 30.0, 0.01], "b-scale")
    kind = ctx.choice(["bayescg", "projected", "matrix"], "method")
    prob = problems.LinearSystem(A=A, b=b)
    if kind == "matrix":
        from probnum import linops
        W = np.eye(n) * 0.7
        prior = beliefs.LinearSystemBelief(A=randvars.Normal(linops.aslinop(np.eye(n)), linops.SymmetricKronecker(A=linops.aslinop(W))),
                                           Ainv=randvars.Normal(linops.aslinop(np.eye(n)), linops.SymmetricKronecker(A=linops.aslinop(W))),
                                           b=randvars.Constant(b))
        upd = belief_updates.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate()
        info = information_ops.MatVecInformationOp()
    else:
        prior = beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), np.eye(n)))
        upd = belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=0.0)
        info = information_ops.ProjectedResidualInformationOp()
    acts = [rs.standard_normal(n) for _ in range(n)]

    class P(policies.LinearSolverPolicy):
        def __call__(self, solver_state, rng=None):
            return acts[solver_state.step]

    pol = policies.ConjugateGradientPolicy() if kind == "bayescg" else P()

    def solve(stop):
        pls = solvers.ProbabilisticLinearSolver(policy=pol, information_op=info, belief_update=upd, stopping_criterion=stop)
        out = []
        for st in pls.solve_iterator(prior=prior, problem=prob):
            x = ref.arr(st.belief.x.mean)
            tr = {q: float(np.trace(ref.arr(getattr(st.belief, q).cov))) for q in (("x", "A", "Ainv") if kind == "matrix" else ("x",))}
            out.append((float(np.linalg.norm(b - A @ x)), tr, st.step))
        return out

    N = n - 1 if kind != "projected" else n
    traj = solve(lsc.MaxIterationsStoppingCriterion(N))
    ctx.check(len(traj) == N + 1, "maxiter", f"{len(traj) - 1} iterations with a maximum of {N}")
    bn = np.linalg.norm(b)
    # draw a formula of built-in criteria
    parts, preds = [], []
    for _ in range(ctx.integer(1, 3, "parts")):
        c = ctx.choice(["resid", "contract", "maxit"], "criterion")
        if c == "maxit":
            m = ctx.integer(0, N, "maxit")
            parts.append(lsc.MaxIterationsStoppingCriterion(m))
            preds.append(lambda r, tr, s, m=m: (s >= m, 1.0))
        else:
            q = ctx.choice(list(traj[0][1]), "qoi")
            vals = [t[0] for t in traj] if c == "resid" else [np.sqrt(abs(t[1][q])) for t in traj]
            use = ctx.choice(["atol", "rtol", "both"], "which-tol")
            atol = between(ctx, vals, "atol") if use != "rtol" else 0.0
            rtol = between(ctx, vals, "rtol") / bn if use != "atol" else 0.0
            if c == "resid":
                parts.append(lsc.ResidualNormStoppingCriterion(atol=atol, rtol=rtol))
                get = lambda r, tr: r
            else:
                parts.append(lsc.PosteriorContractionStoppingCriterion(qoi=q, atol=atol, rtol=rtol))
                get = lambda r, tr, q=q: np.sqrt(abs(tr[q]))
            thr = max(atol, rtol * bn)
            preds.append(lambda r, tr, s, get=get, thr=thr: (get(r, tr) <= thr, abs(get(r, tr) - thr) / thr))
    f = draw_formula(ctx, 2, len(parts))
    rule = build(f, parts) | lsc.MaxIterationsStoppingCriterion(N)
    want = N
    for i, (r, tr, s) in enumerate(traj):
        v, margin = zip(*[p(r, tr, s) for p in preds])
        if min(margin) < 1e-5:
            raise Discard("tolerance within rounding of the value")
        if evaluate(f, [[x] for x in v], 0):
            want = i
            break
    got = len(solve(rule)) - 1
    ctx.steps += len(traj) + got
    ctx.event("linear_tol", kind=kind, n=n, rule=show(f), want=want)
    ctx.sched(f"{kind}{n}{show(f)}{want}")
    ctx.check(got == want, "stopped-early" if got < want else "stopped-late", f"{kind}: rule {show(f)} of built-in criteria holds first after {want} of {N} iterations, run made {got}")


def linear_reuse(ctx):
    """One rule object (built-in criteria, default limits included) decides runs of several systems of different size."""
    rs = ctx.rs("systems")
    systems = []
    for _ in range(ctx.integer(2, 3, "systems")):
        n = ctx.integer(1, 3, "n")
        Q = np.linalg.qr(rs.standard_normal((n, n)))[0]
        A = Q @ np.diag(np.exp(rs.uniform(-1, 1, n))) @ Q.T
        systems.append((n, 0.5 * (A + A.T), rs.standard_normal(n) * ctx.choice([1.0, 30.0, 0.01], "b-scale"), [rs.standard_normal(n) for _ in range(n)]))

    def solve(k, stop):
        n, A, b, acts = systems[k]

        class P(policies.LinearSolverPolicy):
            def __call__(self, solver_state, rng=None):
                # nothing is left to be learned after n independent actions
                return acts[solver_state.step] if solver_state.step < n else np.zeros(n)

        pls = solvers.ProbabilisticLinearSolver(policy=P(), information_op=information_ops.ProjectedResidualInformationOp(), stopping_criterion=stop,
                                                belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=0.0))
        out = []
        for st in pls.solve_iterator(prior=beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), np.eye(n))), problem=problems.LinearSystem(A=A, b=b.copy())):
            out.append((float(np.linalg.norm(b - A @ ref.arr(st.belief.x.mean))), float(np.sqrt(abs(np.trace(ref.arr(st.belief.x.cov))))), st.step))
        return out

    trajs = [solve(k, lsc.MaxIterationsStoppingCriterion(10 * systems[k][0])) for k in range(len(systems))]
    parts, preds = [], []
    for _ in range(ctx.integer(1, 3, "parts")):
        c = ctx.choice(["default", "resid", "contract", "maxit"], "criterion")
        if c == "default":
            parts.append(lsc.MaxIterationsStoppingCriterion())
            preds.append(lambda k, r, tr, s: (s >= 10 * systems[k][0], 1.0))
        elif c == "maxit":
            m = ctx.integer(0, 12, "maxit")
            parts.append(lsc.MaxIterationsStoppingCriterion(m))
            preds.append(lambda k, r, tr, s, m=m: (s >= m, 1.0))
        else:
            i = 0 if c == "resid" else 1
            src = ctx.choice(range(len(systems)), "tolerance-of")
            vals = [t[i] for t in trajs[src][: systems[src][0] + 1] if t[i] > 1e-6]
            use = ctx.choice(["atol", "rtol", "both"], "which-tol")
            atol = between(ctx, vals, "atol") if use != "rtol" else 0.0
            rtol = between(ctx, vals, "rtol") / np.linalg.norm(systems[src][2]) if use != "atol" else 0.0
            parts.append((lsc.ResidualNormStoppingCriterion if c == "resid" else lsc.PosteriorContractionStoppingCriterion)(atol=atol, rtol=rtol))

            def pred(k, r, tr, s, i=i, atol=atol, rtol=rtol):
                v, thr = (r, tr)[i], max(atol, rtol * np.linalg.norm(systems[k][2]))
                return v <= thr, abs(v - thr) / thr

            preds.append(pred)
    f = draw_formula(ctx, 2, len(parts))
    # the default limit ends every run
    rule = build(f, parts) | (lsc.MaxIterationsStoppingCriterion() if ctx.flag(0.5, "fresh-limit") or not any(
        isinstance(p, lsc.MaxIterationsStoppingCriterion) and p.maxiter is None for p in parts) else
        [p for p in parts if isinstance(p, lsc.MaxIterationsStoppingCriterion) and p.maxiter is None][0])
    order = [ctx.integer(0, len(systems) - 1, "system") for _ in range(ctx.integer(2, 4, "runs"))]
    for k in order:
        n = systems[k][0]
        ctx.check(len(trajs[k]) == 10 * n + 1, "maxiter", f"{len(trajs[k]) - 1} iterations with a maximum of {10 * n}")
        want = 10 * n
        for i, (r, tr, s) in enumerate(trajs[k]):
            v, margin = zip(*[p(k, r, tr, s) for p in preds])
            if min(margin) < 1e-5:
                raise Discard("tolerance within rounding of the value")
            if evaluate(f, [[x] for x in v], 0):
                want = i
                break
        got = len(solve(k, rule)) - 1
        ctx.steps += got
        ctx.event("reuse", system=k, n=n, rule=show(f), want=want)
        ctx.sched(f"{k}{n}{show(f)}{want}")
        ctx.check(got == want, "stopped-early" if got < want else "stopped-late",
                  f"shared rule {show(f)}|default: system {k} (size {n}) should stop after {want} iterations, made {got}")


def linear_front(ctx):
    """problinsolve / BayesCG: iteration count against their documented tolerances; exact solutions need no work."""
    n = ctx.integer(1, 5, "n")
    rs = ctx.rs("system")
    Q = np.linalg.qr(rs.standard_normal((n, n)))[0]
    A = Q @ np.diag(np.exp(rs.uniform(-1, 1, n))) @ Q.T
    A = 0.5 * (A + A.T)
    b = rs.standard_normal(n)
    bn = np.linalg.norm(b)
    which = ctx.choice(["problinsolve", "bayescg", "exact"], "front")
    ctx.steps += 1
    if which == "exact":
        A = np.eye(n) * 2.0
        x0 = np.arange(1.0, n + 1)
        b = 2.0 * x0
        stop = lsc.ResidualNormStoppingCriterion(atol=0.0, rtol=0.0) | lsc.MaxIterationsStoppingCriterion(5)
        _, st = solvers.BayesCG(stopping_criterion=stop).solve(prior=beliefs.LinearSystemBelief(x=randvars.Normal(x0.copy(), np.eye(n))), problem=problems.LinearSystem(A=A, b=b))
        calls = st.step
        ctx.check(calls == 0, "stopped-late", f"residual is exactly zero but {calls} iterations were made")
        return
    if which == "bayescg":
        maxiter = ctx.choice([None, 0, 1, 2, 3], "maxiter")
        atol = 10.0 ** -ctx.integer(1, 6, "atol")
        rtol = 10.0 ** -ctx.integer(1, 6, "rtol")
        default = ctx.flag(0.3, "default-criterion")
        if default:
            maxiter, atol, rtol = None, 1e-5, 1e-5

        def solve(maxit):
            stop = lsc.MaxIterationsStoppingCriterion(maxit) | lsc.ResidualNormStoppingCriterion(atol=atol, rtol=rtol)
            pls = solvers.BayesCG() if default and maxit is None else solvers.BayesCG(stopping_criterion=stop)
            bel, st = pls.solve(prior=beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), np.eye(n))), problem=problems.LinearSystem(A=A, b=b))
            return bel.x, st

        xr, st = solve(maxiter)
        k = st.step
        cap = 10 * n if maxiter is None else maxiter
        ctx.check(k <= cap, "stopped-late", f"{k} iterations with a maximum of {cap}")
        rn = np.linalg.norm(b - A @ ref.arr(xr.mean))
        ok = rn <= atol * (1 + 1e-6) + 1e-12 or rn <= rtol * bn * (1 + 1e-6) + 1e-12
        ctx.check(ok or k == cap, "stopped-early", f"stopped after {k} < {cap} iterations with residual {rn:.3g}")
        if k > 0:
            _, prev = solve(k - 1)
            ctx.check(prev.step == k - 1, "stopped-late", f"with a maximum of {k - 1} iterations {prev.step} were made")
            rp = np.linalg.norm(b - A @ ref.arr(prev.belief.x.mean))
            ctx.check(rp > atol * (1 - 1e-6) and rp > rtol * bn * (1 - 1e-6), "stopped-late",
                      f"iteration {k} was made although the residual {rp:.3g} was below the tolerance")
        return
    maxiter = ctx.choice([None, 0, 1, 2, 3], "maxiter")
    atol = 10.0 ** -ctx.integer(1, 6, "atol")
    rtol = 10.0 ** -ctx.integer(1, 6, "rtol")
    seen = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, _, _, info = linalg.problinsolve(A, b, maxiter=maxiter, atol=atol, rtol=rtol,
                                            callback=lambda **kw: seen.append((float(np.linalg.norm(A @ ref.arr(kw["xk"].mean).ravel() - b)), float(np.trace(ref.arr(kw["xk"].cov))))))
    cap = 10 * n if maxiter is None else maxiter
    k = info["iter"]
    ctx.check(k == len(seen) <= cap, "step-count", f"info reports {k} iterations, callback saw {len(seen)}, maximum {cap}")

    def holds(r, tr):
        vals = [(r, atol), (r, rtol * bn), (np.sqrt(max(tr, 0)), atol), (np.sqrt(max(tr, 0)), rtol * bn)]
        if any(abs(v - t) < 1e-4 * t + 1e-10 for v, t in vals) or tr < 1e-10:
            raise Discard("tolerance within rounding of the value")
        return any(v <= t for v, t in vals)

    for i, (r, tr) in enumerate(seen):
        if i + 1 >= cap:
            break
        h = holds(r, tr)
        ctx.check(h == (i + 1 == k), "stopped-late" if h else "stopped-early", f"after {i + 1} of {k} iterations: residual {r:.3g}, uncertainty {np.sqrt(max(tr, 0)):.3g}")


# -- quadrature: built-in criteria --------------------------------------------------------
def quad_tol(ctx):
    N = ctx.integer(1, 7, "N")
    nodes = ctx.rs("nodes").uniform(0, 1, (N + 1, 1))
    zero = ctx.flag(0.15, "zero-integrand")
    a = ctx.rs("f").uniform(-1.5, 1.5, 2)
    amp = ctx.choice([1.0, 2.0**-14, 1024.0], "amplitude")
    fun = (lambda x: np.zeros(len(x))) if zero else (lambda x: amp * (a[0] + np.sin(3 * a[1] * x[:, 0])))
    measure = quad.integration_measures.LebesgueMeasure(domain=(0.0, 1.0), input_dim=1)
    init = ctx.integer(0, 3, "n-init")
    X0 = ctx.rs("init").uniform(0, 1, (init, 1)) if init else None

    def integrate(stop):
        clock = Clock()
        beliefs_ = []

        class Watch(qsc.BQStoppingCriterion):
            def __call__(self, bq_state, info):
                beliefs_.append((float(bq_state.integral_belief.mean), float(bq_state.integral_belief.var), info.nevals,
                                 bool(bq_state.previous_integral_beliefs)))
                return stop(bq_state, info)

        class Pol(CountingBQPolicy):
            def __call__(self, bq_state, rng):
                k = bq_state.nodes.shape[0] - init
                return self.nodes[k][None, :]

        bq = BayesianQuadrature(kernel=ExpQuad((1,), lengthscales=0.5), measure=measure, policy=Pol(clock, nodes),
                                belief_update=BQStandardBeliefUpdate(jitter=1e-3, scale_estimation="mle"), stopping_criterion=Watch(), initial_design=None)
        bq.integrate(fun, None if X0 is None else X0.copy(), None if X0 is None else fun(X0), None)
        return beliefs_

    traj = integrate(qsc.MaxNevals(N + init))
    ctx.check(len(traj) == N + 1, "maxevals", f"{len(traj) - 1} iterations for a budget of {N} evaluations")
    parts, preds = [], []
    for _ in range(ctx.integer(1, 3, "parts")):
        c = ctx.choice(["var", "rel", "evals"], "criterion")
        if c == "evals":
            m = ctx.integer(0, N + init, "max")
            parts.append(qsc.MaxNevals(m))
            preds.append(lambda i, m=m: (traj[i][2] >= m, 1.0))
        elif c == "var":
            t = 0.0 if zero else between(ctx, [x[1] for x in traj], "var_tol")
            parts.append(qsc.IntegralVarianceTolerance(t))
            preds.append(lambda i, t=t: (traj[i][1] <= t, 1.0 if zero else abs(traj[i][1] - t) / t))
        else:
            rel = [abs(traj[i][0] - (traj[i - 1][0] if i else 0.0)) / abs(traj[i][0]) if traj[i][0] else 0.0 for i in range(len(traj))]
            t = between(ctx, rel, "rel_tol")
            parts.append(qsc.RelativeMeanChange(t))
            preds.append(lambda i, t=t, rel=rel: (traj[i][3] and rel[i] <= t, abs(rel[i] - t) / t if traj[i][3] else 1.0))
    f = draw_formula(ctx, 2, len(parts))
    want = N
    for i in range(N + 1):
        v, margin = zip(*[p(i) for p in preds])
        if min(margin) < 1e-5:
            raise Discard("tolerance within rounding of the value")
        if evaluate(f, [[bool(x)] for x in v], 0):
            want = i
            break
    got = len(integrate(build(f, parts) | qsc.MaxNevals(N + init))) - 1
    ctx.steps += len(traj) + got
    ctx.event("quad_tol", rule=show(f), want=want, N=N, init=init)
    ctx.sched(f"q{show(f)}{want}{N}")
    ctx.check(got == want, "stopped-early" if got < want else "stopped-late", f"rule {show(f)} of built-in criteria holds first after {want} of {N} iterations, run made {got}")


# -- the iterated-filter criterion ----------------------------------------------------------
def filt_history(ctx):
    """Scripted error histories through the real criterion: magnitude, counting and the iteration limit."""
    atol = ctx.choice([1e-3, 1.0, 1e-6], "atol")
    rtol = ctx.choice([1e-6, 0.0, 1e-1], "rtol")
    maxit = ctx.integer(0, 6, "maxit")
    crit = FiltSmoothStoppingCriterion(atol=atol, rtol=rtol, maxit=maxit)
    rs = ctx.rs("history")
    for run in range(ctx.integer(1, 3, "runs")):
        shape = [(3,), (2, 2), (1,)][ctx.integer(0, 2, "shape")]
        falses = 0
        for k in range(maxit + 6):
            reference = rs.uniform(-1, 1, shape) * ctx.choice([1.0, 1e3, 1e6, atol / rtol if rtol else 1.0], "ref-scale")
            if rtol and ctx.flag(0.2, "cancelling"):
                reference = np.full(shape, -atol / rtol)  # atol + rtol * reference would vanish
                ctx.fault("cancelling_reference")
            norm = atol + rtol * np.abs(reference)
            kind = ctx.choice(["large", "slightly-large", "inf", "nan", "small", "boundary"], "error", [4, 2, 1, 1, 2, 1])
            sign = np.where(rs.uniform(size=shape) < 0.5, -1.0, 1.0)
            if kind == "large":
                err = sign * norm * rs.uniform(2, 100)
            elif kind == "slightly-large":
                err = sign * norm * 1.001
            elif kind == "inf":
                err = np.full(shape, -np.inf)
            elif kind == "nan":
                err = np.full(shape, np.nan)
                ctx.fault("nan_error")
            elif kind == "small":
                err = sign * norm * rs.uniform(0.0, 0.999)
            else:
                err = sign * norm
                if not (atol == 1.0 and rtol == 0.0):
                    continue
            conv = kind in ("small", "boundary")
            ctx.steps += 1
            try:
                v = crit(error=err, reference=reference)
            except RuntimeError:
                ctx.check(falses >= maxit, "limit-early", f"gave up after {falses} iterations with a limit of {maxit}")
                crit = FiltSmoothStoppingCriterion(atol=atol, rtol=rtol, maxit=maxit)
                break
            ctx.check(falses <= maxit, "limit-late", f"no exception after {falses} iterations with a limit of {maxit}")
            ctx.check(bool(v) == conv, "tolerance", lambda: f"verdict {v} for an error of {kind} size (atol={atol}, rtol={rtol}, reference={reference})")
            if v:
                break
            falses += 1
    ctx.sched(f"h{maxit}{atol}{rtol}")


def filt_loop(ctx):
    """Real iterated smoothers/updates with the real criterion (shared by consecutive, abandoned and interleaved runs)."""
    kind = ctx.choice(["ieks", "gauss-newton", "update"], "kind")
    proc, ekf, locs, ys = nonlinear_setup(ctx, ctx.integer(1, 3, "npts"))
    prob = problems.TimeSeriesRegressionProblem(locations=locs, observations=ys, measurement_models=ekf)
    kal = filtsmooth.gaussian.Kalman(proc)
    init, _ = kal.filtsmooth(prob)

    def trajectory(crit, limit=40):
        """Means of all iterates under a criterion."""
        out = []
        if kind == "update":
            class C(type(ekf)):
                def backward_rv(self, *a, **k):
                    r = super().backward_rv(*a, **k)
                    out.append(np.array(r[0].mean))
                    return r
            it = IteratedDiscreteComponent(C(ekf.non_linear_model), stopcrit=crit)
            it.backward_realization(ys[0], proc.initrv, t=0.0)
        else:
            gen = (kal.iterated_filtsmooth_posterior_generator(prob, init_posterior=init, stopcrit=crit) if kind == "ieks"
                   else GaussNewton(kal, stopping_criterion=crit).solution_generator(prob, initial_guess=init))
            for p, _ in gen:
                out.append(np.array(p.states.mean))
        return out

    class Fixed(FiltSmoothStoppingCriterion):
        def __init__(self, n):
            super().__init__()
            self.n, self.k = n, [0]

        def __call__(self, error, reference):
            self.k[0] += 1
            return self.k[0] > self.n

    N = ctx.integer(1, 5, "N")
    traj = trajectory(Fixed(N))
    ctx.check(len(traj) == N + 1, "step-count", f"{len(traj) - 1} iterations, scripted {N}")
    rtol = ctx.choice([0.0, 1e-1, 1e-3], "rtol")
    errs = [np.sqrt(np.mean((traj[i] - traj[i - 1]) ** 2)) for i in range(1, N + 1)]
    N = next((i for i, e in enumerate(errs) if e < 1e-8), N)  # later iterates differ by rounding only
    errs = errs[:N]
    if N == 0:
        raise Discard("converges at once")
    atol = between(ctx, errs, "atol")
    mags = [np.inf] + [float(np.sqrt(np.mean(((traj[i] - traj[i - 1]) / (atol + rtol * np.abs(traj[i]))) ** 2))) for i in range(1, N + 1)]
    if any(abs(m - 1) < 1e-4 for m in mags):
        raise Discard("tolerance within rounding of the value")
    want = next((i for i, m in enumerate(mags) if m <= 1), None)
    maxit = ctx.integer(0, N - 1, "maxit") if want is None or ctx.flag(0.5, "tight-limit") else 1000
    crit = FiltSmoothStoppingCriterion(atol=atol, rtol=rtol, maxit=maxit)
    ctx.event("filt_loop", kind=kind, want=want, maxit=maxit)
    ctx.sched(f"{kind}{want}{maxit}")
    for _ in range(ctx.integer(1, 4, "runs")):
        mode = ctx.choice(["whole", "abandon"], "mode") if kind != "update" else "whole"
        if mode == "abandon":
            gen = (kal.iterated_filtsmooth_posterior_generator(prob, init_posterior=init, stopcrit=crit) if kind == "ieks"
                   else GaussNewton(kal, stopping_criterion=crit).solution_generator(prob, initial_guess=init))
            try:
                for _ in range(ctx.integer(1, N, "abandon-after")):
                    if next(gen, None) is None:
                        break
            except RuntimeError:
                pass
            gen.close()
            ctx.fault("abandoned")
            continue
        try:
            got = len(trajectory(crit)) - 1
        except RuntimeError as exc:
            ctx.check("Maximum number of iterations" in str(exc), "error", repr(exc))
            ctx.check(want is None or want > maxit, "limit-early", f"limit of {maxit} iterations reported although the rule holds after {want}")
            ctx.probe("limit_reached")
            continue
        ctx.steps += got
        ctx.check(want is not None and got == want, "stopped-early" if want is None or got < want else "stopped-late",
                  f"{kind}: rule holds first after {want}, run made {got} iterations (limit {maxit}), magnitudes {mags}")
        ctx.check(got <= maxit + 1, "limit-late", f"{got} iterations with a limit of {maxit}")


SCENARIOS = {"formula": (formula, 6), "linear_tol": (linear_tol, 3), "linear_reuse": (linear_reuse, 1), "linear_front": (linear_front, 2), "quad_tol": (quad_tol, 2),
             "filt_history": (filt_history, 2), "filt_loop": (filt_loop, 3)}


def nontrivial(ctx):
    return bool(ctx.faults) or ctx.steps > 1
