"""C03: Gaussian filtering/smoothing == exact conditioning, for any data schedule."""
import functools
import warnings

import numpy as np

import probnum
from probnum import filtsmooth, linops, problems, randprocs, randvars
from probnum.filtsmooth.gaussian import approx

from .. import ref, ssm
from ..core import Discard, InjectedFault, Violation

mk = randprocs.markov
ABS = 1e-8


def _cmp(ctx, rv, want, cls, what, tol, scale=1.0):
    m, P = want
    ref.close(rv.mean, m, cls, what + ": mean", 1e-6 * tol, ABS * tol * scale)
    ref.close(rv.cov, P, cls, what + ": covariance", 1e-6 * tol, ABS * tol * scale)


def _queries(ctx, locs):
    """Sorted query times: inside, on-grid, beyond the last location; with repetitions."""
    q = []
    for _ in range(ctx.integer(1, 4, "nq")):
        how = ctx.choice(["inside", "grid", "right", "close"], "q", [5, 2, 2, 1])
        if how == "inside" and len(locs) > 1:
            k = ctx.integer(0, len(locs) - 2, "k")
            q.append(locs[k] + (locs[k + 1] - locs[k]) * ctx.real(0.1, 0.9, "th", 8))
        elif how == "grid":
            q.append(ctx.choice(locs, "loc"))
        elif how == "close" and len(locs) > 1:
            k = ctx.integer(0, len(locs) - 2, "k")
            q.append(locs[k] + (locs[k + 1] - locs[k]) * ctx.choice([0.02, 0.98], "th"))
        else:
            q.append(locs[-1] + ctx.choice([0.2, 1.3, 0.01], "beyond"))
    return sorted(float(x) for x in q)


def _problem(ctx, locs, ys, meas):
    """The regression problem, possibly assembled by merging split data sets."""
    same = len({len(y) for y in ys}) == 1
    obs = np.array(ys) if same and ctx.flag(0.7, "obs-array") else [np.array(y) for y in ys]
    models = [m.model for m in meas]
    if len({id(m) for m in models}) == 1 and ctx.flag(0.5, "single-model"):
        models = models[0]
    lo = np.array(locs) if ctx.flag(0.7, "loc-array") else list(locs)
    if same and len(locs) >= 2 and ctx.flag(0.3, "merge"):
        parts = ctx.integer(2, min(3, len(locs)), "parts")
        owner = [ctx.integer(0, parts - 1, "owner") for _ in locs]
        probs = []
        for p in range(parts):
            idx = [i for i, o in enumerate(owner) if o == p]
            if not idx:
                continue
            probs.append(problems.TimeSeriesRegressionProblem(
                locations=np.array([locs[i] for i in idx]), observations=np.array([ys[i] for i in idx]),
                measurement_models=[meas[i].model for i in idx], solution=np.array([ys[i] for i in idx])))
        ctx.fault("merged_data_sets", len(probs) - 1)
        order = ctx.shuffle(list(range(len(probs))), "merge-order")
        out = functools.reduce(filtsmooth.utils.merge_regression_problems, [probs[i] for i in order])
        ref.close(out.solution, np.array(ys), "merge", "solution of the merged problem", 0, 0)
        return out
    return problems.TimeSeriesRegressionProblem(locations=lo, observations=obs, measurement_models=models)


def linear(ctx):
    t0 = ctx.choice([0.0, 1.5, -2.0, 5000.0], "t0")
    prior = ssm.draw_prior(ctx, t0, weights=[4, 2, 2, 3, 1, 2, 2])
    locs = ssm.draw_locations(ctx, t0, nmax=4 if prior.kind == "linsde" else 7)
    crash = {"left": None}

    def hook():
        if crash["left"] is not None:
            crash["left"] -= 1
            if crash["left"] == 0:
                crash["left"] = None
                raise InjectedFault("user measurement model failed")

    with_crash = ctx.flag(0.3, "crash?")
    nmod = ctx.choice([1, 2, 3], "nmodels")
    varied = ctx.flag(0.25, "varied-dims")
    mdim = ctx.integer(1, 2, "m")
    pool = [ssm.draw_meas(ctx, prior.n, 1 + (mdim + i) % 2 if varied else mdim, hook if with_crash else None,
                          exact_ok=np.min(np.diag(prior.P0)) > 0.05 and not prior.kind == "linsde")
            for i in range(nmod)]
    meas = [pool[ctx.integer(0, nmod - 1, "which")] for _ in locs] if nmod > 1 else [pool[0]] * len(locs)
    all_sqrt = prior.impl == "sqrt" and prior.bimpl == "sqrt" and all(p.impl == "sqrt" for p in pool)
    rs = ctx.rs("data")
    ys = [rs.uniform(-2, 2, m.m) for m in meas]
    prob = _problem(ctx, locs, ys, meas)
    kal = filtsmooth.gaussian.Kalman(prior.process)
    ctx.event("model", kind=prior.kind, impl=prior.impl, nobs=len(locs))
    ctx.simtime += locs[-1] - t0
    ctx.steps += len(locs)
    qs = _queries(ctx, locs) if not prior.discrete else []
    qs += [x for x in qs if ctx.flag(0.1, "dup")]
    qs = sorted(qs)
    J = ssm.Joint(prior, locs + qs)
    obs = [(t,) + m.law(t) + (y,) for t, m, y in zip(locs, meas, ys)]
    tol = prior.tol
    scale = max(1.0, float(np.max(np.abs(J.m))))

    # ---- filtering, with an abandonment / crash and a restart from the last yielded state ----
    filt_states = []
    mode = ctx.choice(["filter", "restart", "split"], "mode", [3, 2, 1])
    try:
        if mode == "filter" and not with_crash:
            post, info = kal.filter(prob)
            ctx.check(len(info) == len(locs), "info-length", "one information dictionary per observation")
        else:
            post = filtsmooth.gaussian.FilteringPosterior(transition=prior.process.transition)
            done = 0
            k2 = kal
            rounds = 0
            while done < len(locs):
                rounds += 1
                ctx.check(rounds < 50, "no-progress", "restart loop")
                rest = problems.TimeSeriesRegressionProblem(
                    locations=locs[done:], observations=ys[done:], measurement_models=[m.model for m in meas[done:]])
                gen = k2.filtered_states_generator(rest)
                stop_after = ctx.integer(1, len(locs) - done, "stop-after") if mode != "filter" else len(locs)
                if with_crash and rounds == 1:
                    crash["left"] = ctx.integer(1, 4 * len(locs), "crash-at")
                got = 0
                last = None
                try:
                    for t, rv, _ in gen:
                        ctx.check(t == locs[done + got], "yield-location", f"yielded {t}, expected {locs[done+got]}")
                        post.append(location=t, state=rv)
                        got += 1
                        last = (t, rv)
                        if got >= stop_after:
                            break
                except InjectedFault:
                    ctx.fault("measurement_model_crash")
                crash["left"] = None
                gen.close()
                done += got
                ctx.sched(got)
                if done < len(locs):
                    ctx.fault("abandoned_and_resumed")
                    if last is not None:
                        k2 = filtsmooth.gaussian.Kalman(prior.restarted(last[0], last[1]))
    except np.linalg.LinAlgError:
        if not all_sqrt:
            raise Discard("factorisation of a covariance lost definiteness") from None
        raise
    crash["left"] = None
    ref.close(post.locations, np.array(locs), "locations", "posterior locations", 0, 0)
    fm = [J.given(obs[: k + 1]) for k in range(len(locs))]
    for k in range(len(locs)):
        _cmp(ctx, post.states[k], J.at(fm[k], locs[k]), "filter", f"{prior.kind}: filter state {k} at t={locs[k]:.6g}", tol, scale)
    full = fm[-1]
    # ---- filter dense output
    def filt_at(t):
        k = max(i for i, l in enumerate(locs) if l <= t)
        return J.at(fm[k], t)

    for t in qs:
        _cmp(ctx, post(t), filt_at(t), "filter-dense", f"{prior.kind}: filtering posterior at t={t:.6g}", tol, scale)
    # ---- smoothing
    try:
        if mode == "filter" and ctx.flag(0.5, "filtsmooth"):
            spost, _ = kal.filtsmooth(prob)
        else:
            spost = kal.smooth(post)
        sd = [spost(t) for t in qs]
        sv = spost(np.array(qs)) if qs else []
    except np.linalg.LinAlgError:
        if not all_sqrt:
            raise Discard("factorisation of a covariance lost definiteness") from None
        raise
    # smoothing over short gaps divides by the process noise
    gap = min(np.diff(np.unique(locs + qs))) if len(set(locs + qs)) > 1 else 1.0
    q = getattr(prior, "q", 1)
    stol = tol * (1.0 if gap > 0.04 else 30.0)
    if q == 2 and gap < 0.04:
        stol *= 30.0
    for k in range(len(locs)):
        _cmp(ctx, spost.states[k], J.at(full, locs[k]), "smoother", f"{prior.kind}: smoothed state {k} at t={locs[k]:.6g}", stol, scale)
        _cmp(ctx, spost[k], J.at(full, locs[k]), "smoother", f"{prior.kind}: posterior[{k}]", stol, scale)
    for i, t in enumerate(qs):
        _cmp(ctx, sd[i], J.at(full, t), "smoother-dense", f"{prior.kind}: smoothing posterior at t={t:.6g}", stol, scale)
        _cmp(ctx, sv[i], J.at(full, t), "smoother-dense", f"{prior.kind}: smoothing posterior at the array {qs}[{i}]", stol, scale)
    ctx.probe("prior_" + prior.kind)
    # ---- left extrapolation is refused, not invented
    if not prior.discrete and ctx.flag(0.3, "left"):
        for p in (post, spost):
            try:
                p(locs[0] - 0.1)
            except NotImplementedError:
                pass
            else:
                raise Violation("left-extrapolation", "a value to the left of the data was returned")
    # ---- the filtering posterior is not altered by smoothing / queries
    for k in range(len(locs)):
        _cmp(ctx, post.states[k], J.at(fm[k], locs[k]), "filter-changed", f"{prior.kind}: filter state {k} after smoothing", tol, scale)


def matrixfree(ctx):
    """The matrix-free mode (operators as covariances): same laws, whole or abandoned and resumed."""
    t0 = ctx.choice([0.0, 1.5, -2.0], "t0")
    rs = ctx.rs("prior-par")
    kind = ctx.choice(["iwp", "seq", "seq_tv"], "prior")
    free = lambda M: linops.aslinop(M)
    with probnum.config(matrix_free=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = d = 1
        if kind == "iwp":
            q, d = ctx.integer(1, 2, "q"), ctx.integer(1, 2, "d")
            n = d * (q + 1)
        else:
            n = ctx.integer(1, 3, "n")
        L = np.tril(rs.uniform(-0.5, 0.5, (n, n)), -1) + np.diag(rs.uniform(0.4, 1.2, n))
        initrv = randvars.Normal(rs.uniform(-1, 1, n), free(L @ L.T))
        G0, G1 = rs.uniform(-0.7, 0.7, (n, n)) + 0.3 * np.eye(n), rs.uniform(-0.3, 0.3, (n, n))
        s0 = rs.uniform(-0.5, 0.5, n)
        LQ = np.tril(rs.uniform(-0.3, 0.3, (n, n)), -1) + np.diag(rs.uniform(0.4, 0.9, n))
        k = 0.0 if kind == "seq" else 1.0
        law = lambda s: (G0 + k * np.cos(s) * G1, s0 * (1 + k * np.sin(2 * s)), (1.0 + 0.5 * k * np.sin(s)) ** 2 * (LQ @ LQ.T))
        if kind == "iwp":
            process = mk.integrator.IntegratedWienerProcess(
                initarg=t0, num_derivatives=q, wiener_process_dimension=d, initrv=initrv, forward_implementation="classic", backward_implementation="classic")
            trans = lambda s, t: ref.iwp(q, d, t - s)[:1] + (np.zeros(n),) + ref.iwp(q, d, t - s)[1:]
        else:
            if kind == "seq":
                tr = mk.discrete.LTIGaussian(transition_matrix=free(G0), noise=randvars.Normal(law(0.0)[1], free(law(0.0)[2])))
            else:
                tr = mk.discrete.LinearGaussian(input_dim=n, output_dim=n, transition_matrix_fun=lambda s: free(law(s)[0]),
                                                noise_fun=lambda s: randvars.Normal(law(s)[1], free(law(s)[2])))
            process = mk.MarkovSequence(initarg=t0, initrv=initrv, transition=tr)
            trans = lambda s, t: law(s)
        prior = ssm.Prior(process, lambda s, t: (np.eye(n), np.zeros(n), np.zeros((n, n))) if s == t else trans(s, t), n, kind, "classic",
                          discrete=kind != "iwp", tol=10.0 if q < 2 else 100.0)
        locs = ssm.draw_locations(ctx, t0, nmax=4)
        m = ctx.integer(1, 2, "m")
        H = rs.uniform(-1, 1, (m, n))
        LR = np.tril(rs.uniform(-0.2, 0.2, (m, m)), -1) + np.diag(rs.uniform(0.3, 0.8, m))
        z = rs.uniform(-0.5, 0.5, m)
        model = mk.discrete.LTIGaussian(transition_matrix=free(H), noise=randvars.Normal(z, free(LR @ LR.T)))
        ys = [rs.uniform(-2, 2, m) for _ in locs]
        qs = sorted(_queries(ctx, locs)[:2]) if kind == "iwp" else []
        J = ssm.Joint(prior, locs + qs)
        obs = [(t, H, z, LR @ LR.T, y) for t, y in zip(locs, ys)]
        ctx.event("matrix-free", kind=kind, nobs=len(locs))
        ctx.simtime += locs[-1] - t0
        ctx.steps += len(locs)
        fm = [J.given(obs[: k + 1]) for k in range(len(locs))]
        post = filtsmooth.gaussian.FilteringPosterior(transition=process.transition)
        done, proc = 0, process
        while done < len(locs):
            rest = problems.TimeSeriesRegressionProblem(locations=locs[done:], observations=ys[done:], measurement_models=[model] * (len(locs) - done))
            stop = ctx.integer(1, len(locs) - done, "stop-after") if ctx.flag(0.3, "abandon") else len(locs) - done
            gen = filtsmooth.gaussian.Kalman(proc).filtered_states_generator(rest)
            for _ in range(stop):
                t, rv, _info = next(gen)
                post.append(location=t, state=rv)
                done += 1
            gen.close()
            if done < len(locs):
                ctx.fault("abandoned_and_resumed")
                proc = prior.restarted(t, rv)
        spost = filtsmooth.gaussian.Kalman(process).smooth(post)
        for i, t in enumerate(locs):
            _cmp(ctx, post.states[i], J.at(fm[i], t), "matrix-free-filter", f"{kind}: filter state {i}", prior.tol)
            _cmp(ctx, spost.states[i], J.at(fm[-1], t), "matrix-free-smoother", f"{kind}: smoothed state {i}", 30 * prior.tol)
        for t in qs:
            k0 = max(i for i, l in enumerate(locs) if l <= t)
            _cmp(ctx, post(t), J.at(fm[k0], t), "matrix-free-filter", f"{kind}: filtering posterior at {t:.6g}", prior.tol)
            _cmp(ctx, spost(t), J.at(fm[-1], t), "matrix-free-smoother", f"{kind}: smoothing posterior at {t:.6g}", 30 * prior.tol)


# -- approximate filters ------------------------------------------------------------------
def _nonlinear(ctx, n, m):
    rs = ctx.rs("nl")
    H = rs.uniform(-1, 1, (m, n))
    B = rs.uniform(-1, 1, (m, n)) * ctx.choice([0.3, 0.0, 0.8], "nl-strength")
    w = float(rs.uniform(0.5, 2.0))
    z = rs.uniform(-0.3, 0.3, m)
    LR = np.tril(rs.uniform(-0.2, 0.2, (m, m)), -1) + np.diag(rs.uniform(0.2, 0.6, m))
    R = LR @ LR.T
    g = lambda t, x: H @ x + np.cos(w * t) * (B @ np.sin(x))
    dg = lambda t, x: H + np.cos(w * t) * (B * np.cos(x)[None, :])
    noise = lambda t: randvars.Normal(z * (1 + 0.7 * np.sin(2 * t)), R * (1 + 0.3 * np.sin(t)) ** 2)
    model = mk.discrete.NonlinearGaussian(input_dim=n, output_dim=m, transition_fun=g, noise_fun=noise, transition_fun_jacobian=dg)
    return model, g, dg, (lambda t: z * (1 + 0.7 * np.sin(2 * t))), (lambda t: R * (1 + 0.3 * np.sin(t)) ** 2)


def _lin_ekf(g, dg, z, R, t, at):
    m = at[0]
    H = dg(t, m)
    return H, g(t, m) - H @ m + z(t), R(t)


def _lin_ukf(g, dg, z, R, t, at):
    """Statistical linearisation with the 2n spherical cubature points."""
    m, P = at
    n = len(m)
    L = np.linalg.cholesky(0.5 * (P + P.T))
    X = np.concatenate([np.sqrt(n) * L.T, -np.sqrt(n) * L.T]) + m
    Y = np.array([g(t, x) for x in X])
    mu = Y.mean(0)
    S = (Y - mu).T @ (Y - mu) / (2 * n)
    C = (X - m).T @ (Y - mu) / (2 * n)
    F = np.linalg.solve(P, C).T
    return F, mu - F @ m + z(t), S - F @ P @ F.T + R(t)


def approximate(ctx):
    """EKF / UKF, plain, iterated per update, and iterated over whole trajectories."""
    t0 = ctx.choice([0.0, 1.5, 3000.0], "t0")
    prior = ssm.draw_prior(ctx, t0, kinds=("iwp", "ltisde", "seq_tv", "ioup"), dmax=1)
    if getattr(prior, "q", 1) == 2 and prior.impl == "classic":
        raise Discard("scope")
    locs = ssm.draw_locations(ctx, t0, nmax=5)
    m = ctx.integer(1, 2, "m")
    model, g, dg, z, R = _nonlinear(ctx, prior.n, m)
    method = ctx.choice(["ekf", "ukf"], "method")
    fimpl = ctx.choice(["classic", "sqrt"], "cf")
    bimpl = ctx.choice(["classic", "sqrt", "joseph"], "cb")
    comp = (approx.DiscreteEKFComponent if method == "ekf" else approx.DiscreteUKFComponent)(
        model, forward_implementation=fimpl, backward_implementation=bimpl)
    lin = _lin_ekf if method == "ekf" else _lin_ukf
    lin = functools.partial(lin, g, dg, z, R)
    ys = [ctx.rs("y").uniform(-1, 1, m) for _ in locs]
    variant = ctx.choice(["plain", "iterated-update", "ieks", "gauss-newton"], "variant")
    niter = ctx.integer(1, 3, "niter")
    tol = 100.0 * prior.tol * (10.0 if method == "ukf" else 1.0)
    it = {"n": 0}

    class Counted(filtsmooth.optim.FiltSmoothStoppingCriterion):
        """Scripted verdicts: exactly ``niter`` further iterations."""

        def __call__(self, error, reference):
            it["n"] += 1
            if it["n"] > niter:
                it["n"] = 0
                return True
            return False

    model_used = filtsmooth.optim.IteratedDiscreteComponent(comp, stopcrit=Counted()) if variant == "iterated-update" else comp
    prob = problems.TimeSeriesRegressionProblem(locations=np.array(locs), observations=np.array(ys),
                                                measurement_models=model_used)
    kal = filtsmooth.gaussian.Kalman(prior.process)

    def run(prev=None):
        """Reference filter + smoother; prev = dict t -> (m, P) to linearise at."""
        mP = (prior.m0, prior.P0)
        t_old = t0
        ms, Ps, steps = [], [], []
        for t, y in zip(locs, ys):
            if t > t_old:
                Phi, c, Q = prior.trans(t_old, t)
                mP = (Phi @ mP[0] + c, Phi @ mP[1] @ Phi.T + Q)
                steps.append((Phi, c, Q))
            else:
                steps.append(None)
            at = mP if prev is None else prev[t]
            if variant == "iterated-update":
                cur = ref.condition(mP[0], mP[1], *lin(t, at), y)
                for _ in range(niter):
                    cur = ref.condition(mP[0], mP[1], *lin(t, cur), y)
                mP = cur
            else:
                mP = ref.condition(mP[0], mP[1], *lin(t, at), y)
            if not np.all(np.abs(mP[0]) < 50):
                raise Discard("iteration diverges")
            ms.append(mP[0])
            Ps.append(mP[1])
            t_old = t
        sm, sP = [None] * len(ms), [None] * len(ms)
        sm[-1], sP[-1] = ms[-1], Ps[-1]
        for k in reversed(range(len(ms) - 1)):
            Phi, c, Q = steps[k + 1]
            sm[k], sP[k] = ref.rts(ms[k], Ps[k], Phi, c, Q, sm[k + 1], sP[k + 1])
        return ms, Ps, sm, sP

    ctx.steps += len(locs) * (1 + niter)
    ctx.simtime += locs[-1] - t0
    ctx.event("variant", method=method, variant=variant, niter=niter, prior=prior.kind)
    ctx.sched(variant + method)
    try:
        if variant in ("plain", "iterated-update"):
            post, _ = kal.filter(prob)
            spost = kal.smooth(post)
            ms, Ps, sm, sP = run()
            for k in range(len(locs)):
                _cmp(ctx, post.states[k], (ms[k], Ps[k]), "approx-filter", f"{method}/{variant} filter state {k}", tol)
                _cmp(ctx, spost.states[k], (sm[k], sP[k]), "approx-smoother", f"{method}/{variant} smoothed state {k}", 10 * tol)
            return
        if locs[0] > t0:
            # linearising at the prior's initial time needs the previous posterior left of the data
            raise Discard("left extrapolation is documented as not implemented")
        ms, Ps, sm, sP = run()
        ref_iter = [(sm, sP)]
        for _ in range(niter):
            prev = {t: (a, b) for t, a, b in zip(locs, *ref_iter[-1])}
            _, _, sm, sP = run(prev)
            ref_iter.append((sm, sP))
        if variant == "ieks":
            posts = [p for p, _ in kal.iterated_filtsmooth_posterior_generator(prob, stopcrit=Counted())]
        else:
            init, _ = kal.filtsmooth(prob)
            gn = filtsmooth.optim.GaussNewton(kal, stopping_criterion=Counted())
            posts = [p for p, _ in gn.solution_generator(prob, initial_guess=init)]
        ctx.check(len(posts) == niter + 1, "iteration-count", f"{len(posts)} posteriors for {niter} scripted iterations")
        for i, (p, (sm, sP)) in enumerate(zip(posts, ref_iter)):
            for k in range(len(locs)):
                _cmp(ctx, p.states[k], (sm[k], sP[k]), "iterated-smoother", f"{method}/{variant} iteration {i} state {k}", 50 * tol)
    except np.linalg.LinAlgError:
        raise Discard("factorisation lost definiteness") from None


def transitions(ctx):
    """The transition interface used by filters: forward/backward laws; supplying precomputed
    forward results (law, gain) does not change the backward result; realizations; diffusion."""
    t0 = ctx.choice([0.0, 1.5], "t0")
    prior = ssm.draw_prior(ctx, t0, weights=[4, 2, 2, 3, 1, 2, 2])
    tr = prior.process.transition
    rs = ctx.rs("rv")
    n = prior.n

    def rand_rv():
        L = np.tril(rs.uniform(-0.4, 0.4, (n, n)), -1) + np.diag(rs.uniform(0.3, 1.0, n))
        return randvars.Normal(rs.uniform(-1, 1, n), L @ L.T, cov_cholesky=L)

    tol = 10.0 * prior.tol
    for _ in range(ctx.integer(1, 4, "calls")):
        rv = rand_rv()
        t = t0 + ctx.real(0.0, 1.0, "t", 8)
        dt = ctx.choice([0.3, 0.1, 1.0, 0.05], "dt")
        s2 = ctx.choice([1.0, 0.25, 3.0], "diffusion")
        Phi, c, Q = prior.trans(t, t + dt)
        m, P = ref.arr(rv.mean), ref.arr(rv.cov)
        mp, Pp = Phi @ m + c, Phi @ P @ Phi.T + s2 * Q
        kw = dict(t=t, dt=dt, _diffusion=s2)
        op = ctx.choice(["forward", "backward", "forward_real", "backward_real", "backward_gain"], "op")
        ctx.sched(op)
        ctx.steps += 1
        try:
            if op == "forward":
                out, _ = tr.forward_rv(rv, **kw)
                _cmp(ctx, out, (mp, Pp), "forward", f"{prior.kind} forward dt={dt}", tol)
            elif op == "forward_real":
                if prior.kind == "linsde" and prior.impl == "sqrt":
                    continue  # a point mass has no invertible square root
                out, _ = tr.forward_realization(m, **kw)
                _cmp(ctx, out, (Phi @ m + c, s2 * Q), "forward", f"{prior.kind} forward realization dt={dt}", tol)
            else:
                got = rand_rv()
                if op == "backward_real":
                    if prior.kind == "linsde":
                        continue
                    x = ref.arr(got.mean)
                    out, _ = tr.backward_realization(x, rv, **kw)
                    want = ref.rts(m, P, Phi, c, s2 * Q, x, np.zeros((n, n)))
                else:
                    want = ref.rts(m, P, Phi, c, s2 * Q, ref.arr(got.mean), ref.arr(got.cov))
                    if op == "backward" or prior.kind == "linsde":
                        out, _ = tr.backward_rv(got, rv, **kw)
                    else:
                        fwd, info = tr.forward_rv(rv, compute_gain=True, **kw)
                        ref.close(info["crosscov"], P @ Phi.T, "crosscov", f"{prior.kind} cross covariance", 1e-6 * tol, ABS * tol)
                        ref.close(info["gain"], ref.eqsolve(Pp, Phi @ P).T, "gain", f"{prior.kind} smoothing gain", 1e-5 * tol, ABS * tol)
                        out, _ = tr.backward_rv(got, rv, rv_forwarded=fwd, gain=info["gain"], **kw)
                _cmp(ctx, out, want, op, f"{prior.kind}/{prior.impl} {op} t={t} dt={dt} diffusion={s2}", 10 * tol)
        except np.linalg.LinAlgError:
            raise Discard("factorisation lost definiteness") from None


def functions(ctx):
    """filter_kalman / smooth_rts convenience functions."""
    rs = ctx.rs("par")
    n, m = ctx.integer(1, 3, "n"), ctx.integer(1, 2, "m")
    discrete = ctx.flag(0.5, "discrete")
    t0 = ctx.choice([0.0, 2.0], "t0")
    locs = [t0]
    for _ in range(ctx.integer(0, 5, "nobs")):
        locs.append(locs[-1] + ctx.choice([0.25, 0.1, 0.7], "gap"))
    F = rs.uniform(-0.8, 0.8, (n, n)) - 0.2 * np.eye(n)
    LL = rs.uniform(-0.3, 0.3, (n, n)) + 0.7 * np.eye(n)
    L = LL @ LL.T if discrete else LL
    H = rs.uniform(-1, 1, (m, n))
    LR = np.tril(rs.uniform(-0.2, 0.2, (m, m)), -1) + 0.5 * np.eye(m)
    R = LR @ LR.T
    m0 = rs.uniform(-1, 1, n)
    LC = np.tril(rs.uniform(-0.2, 0.2, (n, n)), -1) + 0.8 * np.eye(n)
    C0 = LC @ LC.T
    ys = rs.uniform(-2, 2, (len(locs), m))
    args = dict(observations=ys, locations=np.array(locs), F=F, L=L, H=H, R=R, m0=m0, C0=C0,
                prior_model="discrete" if discrete else "continuous")

    class _P:
        pass

    p = _P()
    p.t0, p.n, p.m0, p.P0 = t0, n, m0, C0
    p.trans = (lambda s, t: (F, np.zeros(n), L)) if discrete else (lambda s, t: (ref.van_loan(F, L, t - s)[0], np.zeros(n), ref.van_loan(F, L, t - s)[1]))
    J = ssm.Joint(p, locs)
    obs = [(t, H, np.zeros(m), R, y) for t, y in zip(locs, ys)]
    f = filtsmooth.filter_kalman(**args)
    s = filtsmooth.smooth_rts(**args)
    full = J.given(obs)
    for k, t in enumerate(locs):
        _cmp(ctx, f.states[k], J.at(J.given(obs[: k + 1]), t), "filter", f"filter_kalman state {k}", 10.0)
        _cmp(ctx, s.states[k], J.at(full, t), "smoother", f"smooth_rts state {k}", 30.0)
    ctx.steps += len(locs)


SCENARIOS = {"linear": (linear, 10), "matrixfree": (matrixfree, 1), "approx": (approximate, 4), "transitions": (transitions, 4), "functions": (functions, 2)}


def nontrivial(ctx):
    return bool(ctx.faults) or len(ctx.decisions) > 20
