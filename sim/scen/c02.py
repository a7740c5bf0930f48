"""C02: grid, stop, callback and progress contract of the ODE solver loop."""
import dataclasses

import numpy as np

from probnum import diffeq, problems, randprocs, randvars
from probnum.diffeq import callbacks as cbs
from probnum.diffeq import odefilter, perturbed, stepsize

from .. import ode, ref
from ..core import Discard, InjectedFault, Violation


class SpyAdaptive(stepsize.AdaptiveSteps):
    """The real controller, observed: every attempt's error norm, verdict and suggestion."""

    def __init__(self, *a, **k):
        self.attempts = []
        self._cur = {}
        super().__init__(*a, **k)

    def errorest_to_norm(self, errorest, reference_state):
        n = super().errorest_to_norm(errorest, reference_state)
        self._cur = dict(err=np.array(errorest, float), refstate=np.array(reference_state, float), norm=float(n))
        return n

    def is_accepted(self, scaled_error):
        ok = super().is_accepted(scaled_error)
        self._cur.update(ok=bool(ok), judged=float(scaled_error))
        return ok

    def suggest(self, laststep, scaled_error, localconvrate=None):
        self._cur.update(last=float(laststep), rate=localconvrate, seen=float(scaled_error))
        self.attempts.append(self._cur)
        s = super().suggest(laststep, scaled_error, localconvrate)
        self._cur["sugg"] = float(s)
        return s


def _stop_locations(ctx, t0, tmax, step):
    """(as passed, as floats): list / tuple / array / one-shot iterator; duplicates, t0, tmax,
    locations a hair before/after a grid point, locations beyond tmax."""
    kind = ctx.choice(["none", "list", "array", "iter", "tuple"], "stops")
    if kind == "none":
        return None, []
    n = ctx.integer(0, 5, "nstops")
    L = tmax - t0
    pts = []
    for _ in range(n):
        how = ctx.choice(["frac", "grid", "near", "tmax", "t0", "dup", "beyond"], "stop", [6, 2, 2, 1, 1, 1, 1])
        if how == "frac":
            pts.append(t0 + L * ctx.integer(1, 60, "frac") / 61.0)
        elif how == "grid":
            pts.append(t0 + step * ctx.integer(1, 6, "gridk"))
        elif how == "near":
            pts.append(t0 + step * ctx.integer(1, 6, "gridk") + ctx.choice([1e-13, -1e-13, 1e-9, -1e-9, 1e-5], "eps"))
        elif how == "tmax":
            pts.append(tmax)
        elif how == "t0":
            pts.append(t0)
        elif how == "dup" and pts:
            pts.append(pts[-1])
        elif how == "beyond":
            pts.append(tmax + 0.3)
    pts = sorted(pts)
    arg = {"list": list(pts), "array": np.array(pts), "iter": iter(list(pts)), "tuple": tuple(pts)}[kind]
    ctx.event("stops", kind=kind, n=len(pts))
    return arg, pts


def _judge_grid(ctx, t, t0, tmax, stops, what):
    t = np.asarray(t, float)
    ctx.check(len(t) >= 1 and t[0] == t0, "start", f"{what}: first location {t[0]!r}, t0={t0!r}")
    ctx.check(np.all(np.diff(t) > 0), "not-increasing", f"{what}: locations not strictly increasing: {t[:-1][np.diff(t) <= 0]}")
    eps = 1e-12 * max(1.0, abs(tmax))
    # a stop within rounding of the end of the horizon may stand for it
    ctx.check(t[-1] == tmax or abs(t[-1] - tmax) <= eps and any(abs(s - tmax) <= eps for s in stops), "end", f"{what}: last location {t[-1]!r}, tmax={tmax!r}")
    for s in stops:
        if t0 <= s <= tmax:
            gap = float(np.min(np.abs(t - s)))
            ctx.check(gap <= 1e-12 * max(1.0, abs(s)), "stop-missed", f"{what}: stop location {s!r} missed by {gap:.3e}")


def _solver(ctx, ivp, rule, log):
    """A random real solver; returns (solver, kind)."""
    kind = ctx.choice(["rk", "perturbed", "odefilter"], "solver", [3, 2, 2])
    if kind == "odefilter":
        prior = randprocs.markov.integrator.IntegratedWienerProcess(
            initarg=ivp.t0, num_derivatives=2 if isinstance(rule, SpyAdaptive) else ctx.integer(1, 2, "q"), wiener_process_dimension=len(ivp.y0),
            forward_implementation="sqrt", backward_implementation="sqrt")
        ek = ctx.choice([odefilter.approx_strategies.EK0, odefilter.approx_strategies.EK1], "ek")
        diff = (randprocs.markov.continuous.PiecewiseConstantDiffusion(t0=ivp.t0) if ctx.flag(0.5, "dyn")
                else randprocs.markov.continuous.ConstantDiffusion())
        return odefilter.ODEFilter(steprule=rule, prior_process=prior, approx_strategy=ek(),
                                   with_smoothing=ctx.flag(0.5, "smooth"), diffusion_model=diff,
                                   init_routine=odefilter.init_routines.Stack()), kind
    inner = ode.make_rk(ctx.choice(["RK45", "RK23"], "method"), rule)
    if kind == "perturbed":
        style = ctx.choice([perturbed.step.perturb_uniform, perturbed.step.perturb_lognormal], "style")
        return perturbed.step.PerturbedStepSolver(rng=np.random.default_rng(ctx.subseed("rng")), solver=inner,
                                                  noise_scale=ctx.choice([0.1, 1.0, 10.0], "scale"),
                                                  perturb_function=style), kind
    return inner, kind


def _draw_rule(ctx, ivp):
    L = ivp.tmax - ivp.t0
    kind = ctx.choice(["constant", "adaptive", "scripted"], "rule")
    step = ctx.choice([L / 5, 0.1, 0.25, L / 7.3, 0.0625, L * 2, L], "step")
    if L / step > 60:
        step = L / 60
    if kind == "constant":
        return stepsize.ConstantSteps(step), kind, step
    if kind == "adaptive":
        atol = ctx.choice([1e-4, 1e-2, 1e-6], "atol")
        rtol = ctx.choice([1e-4, 1e-2, 1e-6], "rtol")
        return SpyAdaptive(firststep=step, atol=atol, rtol=rtol,
                           limitchange=ctx.choice([(0.2, 10.0), (0.5, 2.0), (0.1, 5.0), (0.5, 1.5), (0.8, 1.1)], "limits"),
                           safetyscale=ctx.choice([0.95, 0.8], "safety")), kind, step
    return ode.ScriptedSteps(ctx, L / ctx.integer(2, 8, "n"), L * 2, ctx.choice([0.3, 0.0, 0.6], "p_rej"),
                             [1.0, 0.5, 1.5, 0.7, 3.0], shrinks=(0.5, 0.9), streak=3), kind, step


class _Budget(InjectedFault):
    pass


def grid(ctx):
    """One solve through the public loop with a random solver, rule, stop set, callback chain."""
    vec, ivp = ode.draw_ivp(ctx)
    rule, rkind, step = _draw_rule(ctx, ivp)
    solver, skind = _solver(ctx, ivp, rule, None)
    if skind == "odefilter" and rkind == "adaptive":
        # the filter's error estimate is a residual that does not vanish with the step size:
        # tight tolerances end in the documented RuntimeError or in a huge number of steps
        rule.atol, rule.rtol = max(rule.atol, 1e-3), max(rule.rtol, 1e-3)
    arg, stops = _stop_locations(ctx, ivp.t0, ivp.tmax, step)
    budget = 30000
    calls = [0]

    def hook(t, y, v):
        calls[0] += 1
        if calls[0] > budget:
            raise _Budget(f"more than {budget} evaluations")
        return v

    vec.hook = hook
    # callback chain --------------------------------------------------------------
    ncb = ctx.integer(0, 3, "ncb")
    log = []  # (cb index, t, id of state in, id of state out, fired)
    keep = []
    tmax = [ivp.tmax]
    extend = ctx.flag(0.3, "extend?")
    extra = ctx.choice([0.17, 0.25, (ivp.tmax - ivp.t0) / 3.0, 0.7], "extra")

    def make(i):
        mode = ctx.choice(["every", "time", "count"], "cond")
        thr = ivp.t0 + (ivp.tmax - ivp.t0) * ctx.choice([0.5, 0.25, 0.9], "thr")
        n = [0]

        def condition(s):
            n[0] += 1
            c = True if mode == "every" else (s.t > thr if mode == "time" else n[0] % 2 == 0)
            log.append(["cond", i, float(s.t), id(s), bool(c)])
            keep.append(s)
            return c

        def replace(s):
            log.append(["repl", i, float(s.t), id(s), None])
            keep.append(s)
            ctx.fault("callback_replaced_state")
            rv = s.rv
            if skind != "odefilter" and mode == "count":
                rv = randvars.Constant(np.asarray(rv.mean) * 0.99)
            new = dataclasses.replace(s, rv=rv)
            if extend and i == 0 and len(seen_ext) == 0 and s.t >= ivp.tmax - 1e-12:
                seen_ext.append(1)
                tmax[0] = float(ivp.tmax) + extra
                new = dataclasses.replace(new, ivp=problems.InitialValueProblem(
                    t0=ivp.t0, tmax=tmax[0], y0=ivp.y0, f=ivp.f, df=ivp.df))
                ctx.fault("callback_horizon_change")
            log[-1][4] = id(new)
            keep.append(new)
            return new

        return cbs.DiscreteCallback(replace=replace, condition=condition)

    seen_ext = []
    chain = [make(i) for i in range(ncb)]
    form = ctx.choice(["list", "single", "iter", "tuple"], "cbform")
    if form == "single" and ncb >= 1:
        chain = chain[:1]
        ncb = 1
        cb_arg = chain[0]
    elif ncb == 0:
        cb_arg = None if form != "tuple" else ()
    else:
        cb_arg = {"list": list(chain), "iter": iter(list(chain)), "tuple": tuple(chain), "single": list(chain)}[form]

    via = ctx.choice(["generator", "solve"], "via")
    states = []
    blow = False
    try:
        if via == "generator":
            for s in solver.solution_generator(ivp, stop_at=arg, callbacks=cb_arg):
                states.append(s)
                if len(states) > 5000:
                    raise Violation("no-progress", "more than 5000 accepted steps")
            locs = [float(s.t) for s in states]
        else:
            sol = solver.solve(ivp, stop_at=arg, callbacks=cb_arg)
            locs = [float(x) for x in sol.locations]
    except _Budget:
        raise Violation("no-progress", f"{skind}/{rkind}: more than {budget} evaluations of the vector field on a smooth problem") from None
    except (ValueError, RuntimeError, FloatingPointError, np.linalg.LinAlgError) as exc:
        if vec.worst > 1e5 or skind == "perturbed" and rkind == "adaptive":
            raise Discard("blow-up") from None
        if skind == "odefilter" and rkind == "adaptive" and "minimum step-size" in str(exc):
            raise Discard("documented abort of the step-size selection") from None
        if skind == "perturbed" and "Stepsize too large" in str(exc):
            raise Discard("documented precondition of the uniform perturbation") from None
        raise
    if vec.worst > 1e6:
        raise Discard("blow-up")
    ctx.simtime += locs[-1] - locs[0]
    ctx.steps += len(locs) - 1
    ctx.event("solve", solver=skind, rule=rkind, via=via, cb=form)
    _judge_grid(ctx, locs, ivp.t0, tmax[0], stops, f"{skind}/{rkind}/{via}")

    # initial value
    if via == "generator":
        m0 = np.asarray(states[0].rv.mean, float)
    else:
        m0 = np.asarray(sol.states[0].mean, float) if skind != "odefilter" else None
        ctx.check(len(sol.states) == len(locs), "solution-length", f"{len(sol.states)} states, {len(locs)} locations")
        y_first = np.asarray(sol.states[0].mean, float)
        # smoothing over (nearly) coinciding grid points is ill-conditioned: not the subject here
        if skind != "odefilter" or np.min(np.diff(locs)) > 1e-6:
            ref.close(y_first, ivp.y0, "initial-value", "first state of the solution", 1e-3 if skind == "odefilter" else 1e-12)
    if skind != "odefilter" and m0 is not None:
        ref.close(m0, ivp.y0, "initial-value", "first yielded state", 1e-12)

    # constant rule: the step size is honoured
    d = np.diff(locs)
    if rkind == "constant":
        ctx.check(np.all(d <= step * (1 + 1e-9)), "step-exceeded", f"steps {d[d > step * (1 + 1e-9)]} > {step}")
        targets = [s for s in stops if ivp.t0 < s <= tmax[0]] + [ivp.tmax, tmax[0]]
        for k in range(len(d)):
            if abs(d[k] - step) > 1e-9 * step:
                ctx.check(any(abs(locs[k + 1] - s) <= 1e-12 * max(1, abs(s)) for s in targets), "step-shortened",
                          f"step {k} of length {d[k]!r} (constant step {step!r}) does not end at a stop location or tmax")
    if rkind == "scripted":
        acc = [h for h, a in rule.log if a]
        ctx.check(len(acc) == len(d), "accepted-count", f"{len(acc)} accepted attempts, {len(d)} grid steps")
        ref.close(d, np.array(acc), "step-length", "grid increments vs accepted step sizes", 1e-9, 1e-12)
    if rkind == "adaptive":
        acc = [a for a in rule.attempts if a["ok"]]
        ctx.fault("natural_rejections", len(rule.attempts) - len(acc))
        ctx.check(len(acc) == len(d), "accepted-count", f"{len(acc)} accepted attempts, {len(d)} grid steps")
        ref.close(d, np.array([a["last"] for a in acc]), "step-length", "grid increments vs accepted step sizes", 1e-9, 1e-12)
        lo, hi = rule.limitchange
        for n, a in enumerate(rule.attempts):
            tolv = rule.atol + rule.rtol * np.abs(a["refstate"])
            want = float(np.sqrt(np.mean((a["err"] / tolv) ** 2)))
            ref.close(a["norm"], want, "error-norm", f"attempt {n}: error per tolerance", 1e-7)
            ctx.check(a["judged"] == a["norm"] == a["seen"], "error-norm", f"attempt {n}: judged {a['judged']} != norm {a['norm']}")
            ctx.check(a["ok"] == (want < 1) or abs(want - 1) < 1e-7, "tolerance", f"attempt {n} with error/tolerance {want} {'accepted' if a['ok'] else 'rejected'}")
            if "sugg" in a and a["last"] > 0:
                r = a["sugg"] / a["last"]
                ctx.check(lo * (1 - 1e-9) <= r <= hi * (1 + 1e-9), "step-change-limits", f"attempt {n}: change {r} outside {rule.limitchange}")
                if want > 0:
                    raw = rule.safetyscale * want ** (-1.0 / a["rate"])
                    ref.close(r, min(max(raw, lo), hi), "proportional-control", f"attempt {n}: step change", 1e-7)
                if not a["ok"]:
                    ctx.check(a["sugg"] < a["last"] * (1 - 1e-9), "no-shrink", f"attempt {n} rejected but not shrunk")
        # a retry never uses a larger step than suggested; the next step never exceeds the suggestion
        for a, b in zip(rule.attempts[:-1], rule.attempts[1:]):
            ctx.check(b["last"] <= a["sugg"] * (1 + 1e-8), "step-exceeded", f"attempted {b['last']} after the suggestion {a['sugg']}")
    # callbacks -------------------------------------------------------------------
    objs = {id(o): o for o in keep}

    def alike(i, j):
        """Same object, or a copy that carries the same time, law and problem."""
        if i == j:
            return True
        a_, b_ = objs.get(i), objs.get(j)
        return a_ is not None and b_ is not None and a_.t == b_.t and a_.rv is b_.rv and a_.ivp is b_.ivp

    if via == "generator":
        objs.update({id(o): o for o in states})
    conds = [e for e in log if e[0] == "cond"]
    ctx.check(len(conds) == ncb * len(d), "callback-count", f"{len(conds)} condition evaluations for {ncb} callbacks and {len(d)} accepted steps")
    pos = 0
    for k in range(len(d)):
        cur = None
        for i in range(ncb):
            e = log[pos]
            ctx.check(e[0] == "cond" and e[1] == i, "callback-order", f"step {k+1}: expected condition of callback {i}, saw {e}")
            ctx.check(e[2] == locs[k + 1], "callback-time", f"step {k+1}: callback {i} at t={e[2]!r}, accepted location {locs[k+1]!r}")
            ctx.check(cur is None or alike(e[3], cur), "callback-chain", f"step {k+1}: callback {i} did not receive the state returned by its predecessor")
            cur = e[3]
            pos += 1
            if e[4]:
                r = log[pos] if pos < len(log) else ["end", -1, 0, 0, 0]
                ctx.check(r[0] == "repl" and r[1] == i and alike(r[3], cur), "callback-chain", f"step {k+1}: condition of callback {i} true, but the state was not replaced")
                cur = r[4]
                pos += 1
        if via == "generator" and cur is not None:
            ctx.check(alike(id(states[k + 1]), cur), "callback-chain", f"step {k+1}: the yielded state is not the one the last callback returned")
    ctx.check(pos == len(log), "callback-count", f"{len(log) - pos} surplus callback events")


def hostile(ctx):
    """A vector field that turns hostile (NaN / inf / explosive / discontinuous / raising) at a
    scripted time.  Adaptive solvers stop with an exception within a bounded number of evaluations,
    never loop for ever, and never hand out a non-finite accepted state."""
    d = ctx.integer(1, 2, "dim")
    tstar = ctx.choice([0.5, 0.0, 0.25, 0.9], "tstar")
    mode = ctx.choice(["nan", "inf", "blowup", "jump", "raise", "stiff"], "mode")
    rs = ctx.rs("par")
    y0 = rs.uniform(0.5, 1.5, d)
    budget = 20000
    calls = [0]
    ctx.fault("hostile_f_" + mode)

    def f(t, y):
        calls[0] += 1
        if calls[0] > budget:
            raise _Budget("budget")
        v = -0.5 * y + 0.3
        if mode == "blowup":
            return 1.0 + y * y * 3.0
        if t > tstar:
            if mode == "nan":
                return v * np.nan
            if mode == "inf":
                return v + np.inf
            if mode == "jump":
                return v + 40.0
            if mode == "raise":
                raise InjectedFault("user vector field failed")
            if mode == "stiff":
                return -150.0 * (y - 1.0)
        return v

    def df(t, y):
        if mode == "blowup":
            return np.diag(6.0 * y)
        return -(150.0 if mode == "stiff" and t > tstar else 0.5) * np.eye(d)

    ivp = problems.InitialValueProblem(t0=0.0, tmax=1.0, y0=y0, f=f, df=df)
    kind = ctx.choice(["rk", "odefilter", "perturbed"], "solver", [3, 2, 1])
    if kind == "odefilter" and mode == "blowup":
        kind = "rk"  # legitimately takes a huge number of steps
    tol = ctx.choice([1e-3, 1e-5] if kind != "odefilter" else [1e-2, 1e-3], "tol")
    # (the filter degenerates numerically for steps near the machine precision)
    minstep = ctx.choice([1e-15, 1e-9, 1e-5] if kind != "odefilter" else [1e-7, 1e-5], "minstep")
    rule = SpyAdaptive(firststep=ctx.choice([0.1, 1e-3, 0.5], "first"), atol=tol, rtol=tol, minstep=minstep)
    if kind == "odefilter":
        prior = randprocs.markov.integrator.IntegratedWienerProcess(
            initarg=0.0, num_derivatives=2, wiener_process_dimension=d,
            forward_implementation="sqrt", backward_implementation="sqrt")
        solver = odefilter.ODEFilter(steprule=rule, prior_process=prior, approx_strategy=ctx.choice(
            [odefilter.approx_strategies.EK0, odefilter.approx_strategies.EK1], "ek")(), with_smoothing=False,
            init_routine=odefilter.init_routines.Stack())
    else:
        solver = ode.make_rk(ctx.choice(["RK45", "RK23"], "method"), rule)
        if kind == "perturbed":
            solver = perturbed.step.PerturbedStepSolver(rng=np.random.default_rng(3), solver=solver, noise_scale=1.0,
                                                        perturb_function=perturbed.step.perturb_uniform)
    states = []
    err = None
    try:
        for s in solver.solution_generator(ivp):
            states.append(s)
            if len(states) > 20000:
                raise Violation("no-progress", "more than 20000 accepted steps on [0, 1]")
    except _Budget:
        raise Violation("no-progress", f"{kind}/{mode}: more than {budget} evaluations without finishing or failing") from None
    except InjectedFault as exc:
        err = exc
        ctx.check(mode == "raise", "exception", "unexpected injected fault")
    except (RuntimeError, ValueError, np.linalg.LinAlgError, FloatingPointError, OverflowError) as exc:
        err = exc
    ctx.steps += len(rule.attempts)
    ctx.event("outcome", kind=kind, mode=mode, err=type(err).__name__)
    ts = [float(s.t) for s in states]
    ctx.check(np.all(np.diff(ts) > 0), "not-increasing", "yielded times not strictly increasing")
    for s in states:
        ctx.check(np.all(np.isfinite(np.asarray(s.rv.mean, float))), "non-finite-accepted", f"{kind}/{mode}: a non-finite state was accepted at t={s.t}")
    for n, a in enumerate(rule.attempts):
        if a.get("ok"):
            tolv = rule.atol + rule.rtol * np.abs(a["refstate"])
            want = float(np.sqrt(np.mean((a["err"] / tolv) ** 2)))
            ctx.check(want < 1 + 1e-7, "tolerance", f"{kind}/{mode}: attempt {n} accepted with error/tolerance {want}")
    if mode in ("nan", "inf", "raise"):
        ctx.check(err is not None or kind == "perturbed", "silent", f"{kind}/{mode}: the solver claims to have reached tmax although the vector field is undefined beyond {tstar}")
        ctx.check(not ts or ts[-1] <= tstar + 1e-9 or kind == "perturbed", "accepted-beyond", f"{kind}/{mode}: accepted t={ts[-1] if ts else None} beyond the last time with a defined vector field {tstar}")
    if mode == "raise" and isinstance(err, Exception):
        ctx.check(isinstance(err, InjectedFault), "exception-replaced", f"{kind}: the user's exception was replaced by {err!r}")
    if err is None:
        ctx.check(abs(ts[-1] - 1.0) <= 1e-12, "end", f"{kind}/{mode}: finished at {ts[-1]!r}")
    if isinstance(err, RuntimeError) and not isinstance(err, InjectedFault):
        # the documented reason: the next step would be smaller than the minimum step
        small = min(rule.limitchange[0], 1.0) * rule.attempts[-1]["last"]
        ctx.check(small < minstep * (1 + 1e-9), "premature-abort", f"{kind}/{mode}: gave up at step {rule.attempts[-1]['last']}, minimum {minstep}: {err}")


def frontend(ctx):
    """probsolve_ivp / perturbsolve_ivp keep the same contract for their options."""
    vec, ivp = ode.draw_ivp(ctx)
    arg, stops = _stop_locations(ctx, ivp.t0, ivp.tmax, 0.1)
    adaptive = ctx.flag(0.5, "adaptive")
    step = ctx.choice([0.1, 0.23, None, 0.5], "step")
    if not adaptive and step is None:
        step = 0.2
    kw = dict(adaptive=adaptive, step=step, time_stops=arg)
    if adaptive:
        kw.update(atol=ctx.choice([1e-2, 1e-4], "atol"), rtol=ctx.choice([1e-2, 1e-4], "rtol"))
    which = ctx.choice(["probsolve", "perturbsolve"], "which")
    calls = [0]

    def hook(t, y, v):
        calls[0] += 1
        if calls[0] > 30000:
            raise _Budget("budget")
        return v

    vec.hook = hook
    try:
        if which == "probsolve":
            sol = diffeq.probsolve_ivp(vec.f, ivp.t0, ivp.tmax, ivp.y0, df=vec.df, method=ctx.choice(["EK0", "EK1"], "m"),
                                       algo_order=2 if adaptive else ctx.integer(1, 2, "order"), dense_output=ctx.flag(0.5, "dense"),
                                       diffusion_model=ctx.choice(["dynamic", "constant"], "diff"), **kw)
        else:
            sol = diffeq.perturbsolve_ivp(vec.f, ivp.t0, ivp.tmax, ivp.y0, rng=np.random.default_rng(ctx.subseed("rng")),
                                          method=ctx.choice(["RK45", "RK23"], "m"),
                                          perturb=ctx.choice(["step-lognormal", "step-uniform"], "p"),
                                          noise_scale=ctx.choice([0.5, 10.0], "ns"), **kw)
    except _Budget:
        raise Violation("no-progress", f"{which}: more than 30000 evaluations") from None
    except (RuntimeError, ValueError) as exc:
        if which == "probsolve" and adaptive and "minimum step-size" in str(exc):
            raise Discard("documented abort of the step-size selection") from None
        if vec.worst > 1e5 or which == "perturbsolve" and adaptive:
            raise Discard("blow-up / perturbed control gave up") from None
        raise
    if vec.worst > 1e6:
        raise Discard("blow-up")
    locs = np.asarray(sol.locations, float)
    ctx.simtime += float(locs[-1] - locs[0])
    ctx.steps += len(locs) - 1
    _judge_grid(ctx, locs, ivp.t0, ivp.tmax, stops, which)
    if which == "perturbsolve" or np.min(np.diff(locs)) > 1e-6:
        ref.close(sol.states[0].mean, ivp.y0, "initial-value", "first state", 1e-3)
    ctx.check(len(sol.states) == len(locs), "solution-length", "states and locations differ in number")
    if not adaptive:
        ctx.check(np.all(np.diff(locs) <= step * (1 + 1e-9)), "step-exceeded", f"constant step {step} exceeded: {np.max(np.diff(locs))}")
    # the solution object serves its own grid
    k = ctx.integer(0, len(locs) - 1, "k")
    ref.close(sol(locs[k]).mean, np.asarray(sol.states[k].mean), "grid-evaluation", f"solution at grid point {k}", 1e-6, 1e-8)
    ref.close(sol[k].mean, np.asarray(sol.states[k].mean), "grid-evaluation", f"sol[{k}]", 1e-12)


SCENARIOS = {"grid": (grid, 3), "hostile": (hostile, 2), "frontend": (frontend, 1)}


def nontrivial(ctx):
    return bool(ctx.faults) or any(l.startswith("stop") for l, _ in ctx.decisions)
