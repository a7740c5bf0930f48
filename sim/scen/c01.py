"""C01: rejected step attempts leave no trace in an ODE solution."""
import dataclasses

import numpy as np

from probnum import filtsmooth, problems, randprocs, randvars
from probnum.diffeq import callbacks as cbs
from probnum.diffeq import odefilter, perturbed, stepsize

from .. import ode, ref
from ..core import Discard

TOL = 1e-8
FACTORS = [1.0, 0.5, 0.25, 1.5, 2.0, 0.1]


def _rule(ctx, ivp, cap=0.9, factors=FACTORS, nmax=10, **kw):
    n = ctx.integer(2, nmax, "nsteps")
    base = (ivp.tmax - ivp.t0) / n
    p = ctx.choice([0.35, 0.0, 0.6], "p_reject")
    return ode.ScriptedSteps(ctx, base, cap, p, factors, **kw)


def _draw_callbacks(ctx, hook, make_rv):
    """Interventions at scripted accepted-step indices (state jump / horizon change)."""
    log = {"n": 0, "states": [], "jumps": {}, "tmax": {}}
    p = ctx.choice([0.0, 0.25], "p_jump")
    change_tmax = ctx.flag(0.15, "change-tmax?")

    def observe(state):
        log["n"] += 1
        k = log["n"]
        log["states"].append((float(state.t), state.rv))
        new = state
        if p and ctx.flag(p, "jump?"):
            rv = make_rv(ctx, state)
            new = dataclasses.replace(new, rv=rv)
            log["jumps"][k] = rv
            ctx.fault("callback_state_jump")
        if change_tmax and not log["tmax"] and k == 2:
            ivp = new.ivp
            shorter = ctx.flag(0.5, "shorter?")
            tm = float(state.t) + (ivp.tmax - float(state.t)) * (0.5 if shorter else 1.0) + (0.0 if shorter else 0.21)
            new = dataclasses.replace(new, ivp=problems.InitialValueProblem(
                t0=ivp.t0, tmax=tm, y0=ivp.y0, f=ivp.f, df=ivp.df))
            log["tmax"][k] = tm
            ctx.fault("callback_horizon_change")
        if hook is not None:
            hook.t_acc = float(state.t)
        return new

    return observe, log


class _Observer(cbs.ODESolverCallback):
    def __init__(self, fn):
        super().__init__(replace=fn, condition=lambda s: True)

    def __call__(self, state):
        return self.replace(state)


def rk(ctx):
    """(Perturbed) Runge-Kutta under a scripted accept/reject schedule == clean RK chain."""
    vec, ivp = ode.draw_ivp(ctx)
    name = ctx.choice(["RK45", "RK23"], "method")
    rule = _rule(ctx, ivp)
    pert = ctx.choice(["none", "scripted", "uniform", "lognormal"], "perturb")
    noisy = []
    inner = ode.make_rk(name, rule)
    if pert == "none":
        solver = inner
    else:
        def pf(rng, step, solver_order, noise_scale, size=()):
            if pert == "scripted":
                h = float(step) * ctx.choice([1.0, 1.1, 0.9, 1.25, 0.8], "noise")
            elif pert == "uniform":
                h = perturbed.step.perturb_uniform(rng=rng, step=step, solver_order=solver_order,
                                                   noise_scale=noise_scale, size=size)
            else:
                h = perturbed.step.perturb_lognormal(rng=rng, step=step, solver_order=solver_order,
                                                     noise_scale=noise_scale, size=size)
            noisy.append(float(h))
            ctx.fault("perturbed_step")
            return h

        solver = perturbed.step.PerturbedStepSolver(
            rng=np.random.default_rng(ctx.subseed("rng")), solver=inner,
            noise_scale=ctx.choice([1.0, 5.0], "scale"), perturb_function=pf)
    poison = ctx.choice(["off", "spike"], "poison")
    rule.last_f = {}
    rule.on_attempt = lambda i: rule.last_f.__setitem__(i, vec.last)
    hook = None
    if poison != "off":
        hook = ode.PoisonDuringRejected(ctx, rule, poison)
        hook.t_acc = ivp.t0
        vec.hook = hook
    stops = ode.draw_stops(ctx, ivp, 0.3)
    fn, log = _draw_callbacks(
        ctx, hook, lambda c, s: randvars.Constant(np.asarray(s.rv.mean) * c.choice([1.0, 0.5, -1.0], "jf") + c.choice([0.3, 0.0, -0.2], "js")))
    sol = solver.solve(ivp, stop_at=stops, callbacks=_Observer(fn))
    vec.hook = None
    t = np.asarray(sol.locations, float)
    got = ref.arr(sol.states.mean)
    ctx.simtime += float(t[-1] - t[0])
    ctx.steps += rule.attempt
    acc = [i for i, (_, a) in enumerate(rule.log) if a]
    ctx.event("schedule", attempts="".join("A" if a else "r" for _, a in rule.log))
    ctx.check(len(acc) == len(t) - 1, "grid-length", f"{len(t)-1} grid steps for {len(acc)} accepted attempts")
    if pert != "none":
        ctx.check(len(noisy) == rule.attempt, "perturbation-count",
                  f"{len(noisy)} step perturbations drawn for {rule.attempt} attempts")
    y = np.asarray(ivp.y0, float)
    ref.close(got[0], y, "state", "initial state", 1e-12)
    dense_pts, dense_ref = [], []
    stale = False
    for k in range(len(t) - 1):
        dt = rule.log[acc[k]][0]
        h = noisy[acc[k]] if pert != "none" else dt
        y_new, _, dense = ref.rk_step(name, vec.clean, t[k], y, h)
        if not np.all(np.abs(y_new) < 1e3):
            raise Discard("the drawn problem blows up")
        handed = ref.arr(log["states"][k][1].mean)
        prev = acc[k] - 1
        if prev >= 0 and not rule.log[prev][1]:
            # Known finding: after a rejected attempt the first stage re-uses the derivative at the
            # end of the rejected attempt.  Anything but exactly that stays a violation.
            alt, _, alt_dense = ref.rk_step(name, vec.clean, t[k], y, h, k0=rule.last_f[prev])
            if not np.all(np.abs(alt) < 1e6) and not np.all(np.abs(handed) < 1e6):
                stale = True
                break
            if np.max(np.abs(handed - alt)) < np.max(np.abs(handed - y_new)):
                stale = stale or not ref.same(handed, y_new, TOL)
                y_new, dense = alt, alt_dense
        ref.close(handed, y_new, "state", f"state {k+1} at t={t[k+1]:.6g} (attempt {acc[k]})", TOL)
        th = ctx.real(0.05, 0.95, "theta", 6)
        dense_pts.append(t[k] + th * (t[k + 1] - t[k]))
        dense_ref.append(dense(th))
        jump = log["jumps"].get(k + 1)
        y = np.asarray(jump.mean, float) if jump is not None else handed
        ref.close(got[k + 1], y, "state", f"reported state {k+1} at t={t[k+1]:.6g} (attempt {acc[k]})", 1e-12, 0.0)
    # dense output, scalar and vector calls (of the judged prefix)
    for p_, w in zip(dense_pts, dense_ref):
        ref.close(sol(float(p_)).mean, w, "dense", f"dense output at t={p_:.6g}", TOL)
    if len(dense_pts) > 1:
        v = sol(np.array(dense_pts))
        ref.close(v.mean, np.array(dense_ref), "dense", "vectorised dense output", TOL)
    ctx.check(not stale, "stale-derivative-after-rejection",
              "the attempt after a rejected attempt starts from the derivative at the end of the rejected one")


def _prior(ctx, ivp, d):
    q = ctx.integer(1, 3, "q")
    kind = ctx.choice(["iwp", "ioup", "matern"], "prior", [4, 1, 1])
    impl = ctx.choice(["sqrt", "classic"], "impl", [3, 1])
    # The non-square-root and the matrix-fraction code paths lose digits (or fail to factorise) for
    # high orders and short steps; that is a documented limitation, not the subject of this check.
    if kind != "iwp" or impl == "classic":
        q = 1
    kw = dict(initarg=ivp.t0, num_derivatives=q, wiener_process_dimension=d, forward_implementation=impl,
              backward_implementation=impl)
    if kind == "iwp":
        return randprocs.markov.integrator.IntegratedWienerProcess(**kw), q, kind, impl
    if kind == "ioup":
        return randprocs.markov.integrator.IntegratedOrnsteinUhlenbeckProcess(driftspeed=ctx.choice([0.2, 1.0], "drift"), **kw), q, kind, impl
    return randprocs.markov.integrator.MaternProcess(lengthscale=ctx.choice([1.0, 2.5], "ls"), **kw), q, kind, impl


def odefilter_(ctx):
    """ODE filter/smoother under a scripted schedule == naive dense Kalman recursion."""
    vec, ivp = ode.draw_ivp(ctx)
    d = vec.d
    prior, q, kind, impl = _prior(ctx, ivp, d)
    rule = _rule(ctx, ivp, cap=0.6, factors=[1.0, 0.5, 1.5, 2.0], nmax=8, shrinks=(0.5, 0.9, 0.7), streak=2)
    ek = ctx.choice(["EK0", "EK1"], "ek")
    dyn = ctx.choice(["dynamic", "constant"], "diffusion")
    smoothing = ctx.flag(0.7, "smooth?")
    diff = (randprocs.markov.continuous.PiecewiseConstantDiffusion(t0=ivp.t0) if dyn == "dynamic"
            else randprocs.markov.continuous.ConstantDiffusion())
    init = ctx.choice([
        odefilter.init_routines.Stack(scale_cholesky=1.0),
        odefilter.init_routines.NonProbabilisticFit(dt=0.05, observation_noise_std=1e-2),
    ], "init")
    solver = odefilter.ODEFilter(
        steprule=rule, prior_process=prior,
        approx_strategy=odefilter.approx_strategies.EK0() if ek == "EK0" else odefilter.approx_strategies.EK1(),
        with_smoothing=smoothing, init_routine=init, diffusion_model=diff)
    poison = ctx.choice(["off", "spike"], "poison")
    hook = None
    if poison != "off":
        hook = ode.PoisonDuringRejected(ctx, rule, poison)
        vec.hook = hook
    stops = ode.draw_stops(ctx, ivp, 0.3)

    def jump_rv(c, s):
        L = np.asarray(s.rv.cov_cholesky) * c.choice([1.0, 1.5], "jc")
        m = np.asarray(s.rv.mean) + c.choice([0.2, 0.0, -0.1], "jm")
        return randvars.Normal(m, L @ L.T, cov_cholesky=L)

    fn, log = _draw_callbacks(ctx, hook, jump_rv)
    first = []

    class _Init:
        """Seam: records the law the run starts from."""

        is_exact, requires_jax = init.is_exact, init.requires_jax

        def __call__(self, *, ivp, prior_process):
            rv = init(ivp=ivp, prior_process=prior_process)
            first.append(rv)
            if hook is not None:
                hook.t_acc = ivp.t0
            return rv

    solver.init_routine = _Init()
    try:
        sol = solver.solve(ivp, stop_at=stops, callbacks=_Observer(fn))
    except np.linalg.LinAlgError:
        if impl == "classic":  # plain covariance arithmetic may lose definiteness by rounding
            raise Discard("classic implementation lost positive definiteness") from None
        raise
    except ValueError:
        if vec.worst > 1e5:
            raise Discard("the drawn problem blows up") from None
        raise
    if vec.worst > 1e5:
        raise Discard("the drawn problem blows up")
    tol = {1: 1.0, 2: 4.0, 3: 100.0}[q] * (20.0 if impl == "classic" else 1.0)
    vec.hook = None
    t = np.asarray(sol.locations, float)
    ctx.simtime += float(t[-1] - t[0])
    ctx.steps += rule.attempt
    acc = [i for i, (_, a) in enumerate(rule.log) if a]
    ctx.event("schedule", attempts="".join("A" if a else "r" for _, a in rule.log))
    ctx.check(len(acc) == len(t) - 1, "grid-length", f"{len(t)-1} grid steps for {len(acc)} accepted attempts")

    if np.min(np.diff(t)) < {1: 1e-3, 2: 4e-3, 3: 1.2e-2}[q]:
        raise Discard("step too short for a float comparison of this order")

    # ---- reference -------------------------------------------------------------
    A, L = ref.arr(prior.transition.drift_matrix), ref.arr(prior.transition.dispersion_matrix)
    n = q + 1

    def transition(dt):
        return ref.iwp(q, d, dt) if kind == "iwp" else ref.van_loan(A, L, dt)

    E0 = np.kron(np.eye(d), np.eye(n)[[0]])
    E1 = np.kron(np.eye(d), np.eye(n)[[1]])
    m, P = ref.arr(first[0].mean), ref.arr(first[0].cov)
    ms, Ps, sig, Phis, Qs = [m], [P], [], [], []
    pre_m, pre_P = [m], [P]
    for k in range(len(t) - 1):
        dt = t[k + 1] - t[k]
        Phi, Q = transition( dt)
        mp = Phi @ m
        y = E0 @ mp
        if not np.all(np.abs(mp) < 1e4):
            raise Discard("the drawn problem blows up")
        z = E1 @ mp - vec.clean(t[k + 1], y)
        H = E1 - (vec.clean_df(t[k + 1], y) @ E0 if ek == "EK1" else 0.0)
        S0 = H @ Q @ H.T
        if dyn == "dynamic":
            s2 = float(z @ ref.eqsolve(S0, z)) / d
            Pp = Phi @ P @ Phi.T + s2 * Q
        else:
            Pp = Phi @ P @ Phi.T + Q
            s2 = float(z @ ref.eqsolve(H @ Pp @ H.T, z)) / d
        sig.append(s2)
        S = H @ Pp @ H.T
        K = ref.eqsolve(S, H @ Pp).T
        m = mp - K @ z
        I = np.eye(len(m)) - K @ H
        P = I @ Pp @ I.T
        pre_m.append(m)
        pre_P.append(P)
        jump = log["jumps"].get(k + 1)
        if jump is not None:
            # the callback's jump acts on the state the solver handed to it
            tgot, rgot = log["states"][k]
            ref.close(rgot.mean, m, "filter", f"filtered mean {k+1} before the jump", tol * 1e-5, tol * 1e-7)
            ref.close(rgot.cov, P, "filter", f"filtered cov {k+1} before the jump", tol * 1e-5, tol * 1e-8, np.max(np.abs(Pp)))
            m, P = ref.arr(jump.mean), ref.arr(jump.cov)
        ms.append(m)
        Ps.append(P)
        Phis.append(Phi)
        Qs.append(Q)
    scale = 1.0 if dyn == "dynamic" else float(np.mean(sig))
    steps_sig = sig if dyn == "dynamic" else [scale] * len(sig)
    filt = sol.filtering_solution.kalman_posterior
    Ps = [scale * P for P in Ps]
    rt, at = tol * 2e-5, tol * 1e-7
    pscale = max(1e-6, max(np.max(np.abs(P)) for P in Ps))
    for k in range(len(t)):
        rv = filt.states[k]
        ref.close(rv.mean, ms[k], "filter", f"filtered mean {k}", rt, at)
        ref.close(rv.cov, Ps[k], "calibrated-filter-cov", f"filtered cov {k}", rt, at * pscale, np.max(np.abs(Ps[k])) )
    # filtering dense output
    for _ in range(2):
        k = ctx.integer(0, len(t) - 2, "interval")
        th = ctx.real(0.1, 0.9, "theta", 4)
        tt = t[k] + th * (t[k + 1] - t[k])
        Phi, Q = transition( tt - t[k])
        rv = filt(float(tt))
        ref.close(rv.mean, Phi @ ms[k], "filter-dense", f"filtering dense mean at {tt:.6g}", rt, at)
        ref.close(rv.cov, Phi @ Ps[k] @ Phi.T + steps_sig[k] * Q, "filter-dense", f"filtering dense cov at {tt:.6g}", rt, at * pscale)
    def extrapolated():
        tt = t[-1] + ctx.real(0.05, 0.5, "beyond", 4)
        Phi, Q = transition(tt - t[-1])
        return tt, Phi @ ms[-1], Phi @ Ps[-1] @ Phi.T + steps_sig[-1] * Q

    def vectorised(post_, what, sub):
        """A vector query equals the scalar queries (grid points, in between, beyond the end)."""
        tt, me, Pe = extrapolated()
        k = ctx.integer(0, len(t) - 2, "interval")
        mid = 0.5 * (t[k] + t[k + 1])
        qs = np.array(sorted([t[0], float(t[k + 1]), mid, tt]))
        vec_ = post_(qs)
        ctx.check(len(vec_) == len(qs), what, f"{len(vec_)} answers to a query of {len(qs)} times")
        for q_, rv in zip(qs, vec_):
            one = post_(float(q_))
            ref.close(rv.mean, one.mean, what, f"vectorised vs. scalar mean at {q_:.6g}", 1e-9, 1e-12)
            ref.close(rv.cov, one.cov, what, f"vectorised vs. scalar cov at {q_:.6g}", 1e-9, 1e-12)
        ref.close(vec_[-1].mean, sub @ me, what, f"extrapolated mean at {tt:.6g}", rt, at)
        ref.close(vec_[-1].cov, sub @ Pe @ sub.T, what, f"extrapolated cov at {tt:.6g}", rt, at * pscale)

    vectorised(filt, "filter-dense", np.eye(len(m)))
    # the diffusion the solution reports at any time is that of the accepted step it falls into
    dm = getattr(filt, "diffusion_model", None)
    if dm is not None:
        k = ctx.integer(0, len(t) - 2, "interval")
        qs = np.array([t[0] - 0.1, t[0], t[k], 0.5 * (t[k] + t[k + 1]), t[-1], t[-1] + 0.3])
        want = np.array([steps_sig[i] for i in (0, 0, k, k, -1, -1)])
        ref.close(dm(qs), want, "calibrated-diffusion", "diffusion at a vector of times", rt, at)
        for q_, w in zip(qs, want):
            ref.close(dm(float(q_)), w, "calibrated-diffusion", f"diffusion at {q_:.6g}", rt, at)
    if not smoothing or log["jumps"]:
        return
    ctx.probe("smoothed_runs")
    post = sol.kalman_posterior
    sm, sP = [None] * len(t), [None] * len(t)
    sm[-1], sP[-1] = ms[-1], Ps[-1]
    for k in reversed(range(len(t) - 1)):
        sm[k], sP[k] = ref.rts(ms[k], Ps[k], Phis[k], 0.0, steps_sig[k] * Qs[k], sm[k + 1], sP[k + 1])
    rt, at = tol * 1e-4, tol * 1e-6
    for k in range(len(t)):
        ref.close(post.states[k].mean, sm[k], "smoother-mean", f"smoothed mean {k}", rt, at)
        ref.close(post.states[k].cov, sP[k], "smoother-cov", f"smoothed cov {k}", rt, at * pscale)
        ref.close(sol.states[k].mean, E0 @ sm[k], "smoother-mean", f"solution mean {k}", rt, at)
        ref.close(sol.states[k].cov, E0 @ sP[k] @ E0.T, "smoother-cov", f"solution cov {k}", rt, at * pscale)
        ref.close(sol.derivatives[k].mean, E1 @ sm[k], "smoother-mean", f"derivative mean {k}", rt, at)
        ref.close(sol.derivatives[k].cov, E1 @ sP[k] @ E1.T, "smoother-cov", f"derivative cov {k}", rt, at * pscale)
    vectorised(post, "smoother-dense", np.eye(len(m)))
    vectorised(sol, "solution-dense", E0)
    for _ in range(2):
        k = ctx.integer(0, len(t) - 2, "interval")
        th = ctx.real(0.1, 0.9, "theta", 4)
        tt = t[k] + th * (t[k + 1] - t[k])
        Phi, Q = transition( tt - t[k])
        Phi2, Q2 = transition( t[k + 1] - tt)
        mp, Pp = Phi @ ms[k], Phi @ Ps[k] @ Phi.T + steps_sig[k] * Q
        mi, Pi = ref.rts(mp, Pp, Phi2, 0.0, steps_sig[k] * Q2, sm[k + 1], sP[k + 1])
        rv = post(float(tt))
        ref.close(rv.mean, mi, "smoother-dense", f"smoothed dense mean at {tt:.6g}", rt, at)
        ref.close(rv.cov, Pi, "smoother-dense", f"smoothed dense cov at {tt:.6g}", rt, at * pscale)


SCENARIOS = {"rk": (rk, 1), "odefilter": (odefilter_, 1)}


def nontrivial(ctx):
    return ctx.faults.get("step_rejected", 0) > 0 or ctx.faults.get("callback_state_jump", 0) > 0
