"""C09: particle filtering == sequential importance resampling of its own draws."""
import numpy as np
import scipy.stats

from probnum import filtsmooth, problems, randprocs, randvars
from probnum.filtsmooth.particle import effective_number_of_events

from .. import ref, ssm
from ..core import Discard, InjectedFault, Violation
from ..script import ScriptedGen, Unscriptable

mk = randprocs.markov
pfm = filtsmooth.particle


def lognorm(x, m, C):
    """log N(x; m, C), dense."""
    d = np.atleast_1d(x - m)
    w, V = np.linalg.eigh(C)
    y = V.T @ d
    return float(-0.5 * np.sum(y * y / w) - 0.5 * np.sum(np.log(w)) - 0.5 * len(d) * np.log(2 * np.pi))


def maha(x, m, C):
    return float((x - m) @ np.linalg.solve(C, x - m))


class Dyn:
    """trans(s, t, x) -> (mean, cov) of the state at t given x at s."""

    def __init__(self, process, f, n, t0, m0, P0, discrete):
        self.process, self.f, self.n, self.t0, self.m0, self.P0, self.discrete = process, f, n, t0, m0, P0, discrete


def draw_dyn(ctx, t0):
    kind = ctx.choice(["seq", "seq_tv", "ltisde", "iwp", "nonlin"], "dyn")
    if kind == "nonlin":
        rs = ctx.rs("nl")
        n = ctx.integer(1, 2, "n")
        G = rs.uniform(-0.8, 0.8, (n, n)) + 0.3 * np.eye(n)
        L = np.tril(rs.uniform(-0.3, 0.3, (n, n)), -1) + np.diag(rs.uniform(0.3, 0.9, n))
        s0 = rs.uniform(-0.3, 0.3, n)
        fun = lambda t, x: G @ np.sin(x) + 0.2 * np.cos(t) * x
        tr = mk.discrete.NonlinearGaussian(input_dim=n, output_dim=n, transition_fun=fun, noise_fun=lambda t: randvars.Normal(s0, (1 + 0.3 * np.sin(t)) ** 2 * L @ L.T))
        m0, P0 = rs.uniform(-1, 1, n), 0.5 * np.eye(n) + 0.1
        p = mk.MarkovSequence(initarg=t0, initrv=randvars.Normal(m0, P0), transition=tr)
        return Dyn(p, lambda s, t, x: (fun(s, x) + s0, (1 + 0.3 * np.sin(s)) ** 2 * L @ L.T), n, t0, m0, P0, True)
    pr = ssm.draw_prior(ctx, t0, kinds=(kind,), dmax=1)
    if np.linalg.eigvalsh(pr.P0)[0] < 1e-4 or pr.n > 2 and kind == "iwp":
        raise Discard("degenerate initial law")

    def f(s, t, x):
        Phi, c, Q = pr.trans(s, t)
        return Phi @ x + c, Q

    return Dyn(pr.process, f, pr.n, t0, pr.m0, pr.P0, pr.discrete)


class Obs:
    """h(t, x), jac(t, x), noise(t) -> (shift, R)"""


def draw_obs(ctx, n):
    o = Obs()
    o.m = m = ctx.integer(1, 2, "m")
    if ctx.flag(0.6, "linear-meas"):
        me = ssm.draw_meas(ctx, n, m)
        o.model, o.linear = me.model, True
        o.h = lambda t, x: me.law(t)[0] @ x
        o.jac = lambda t, x: me.law(t)[0]
        o.noise = lambda t: me.law(t)[1:]
        return o
    rs = ctx.rs("nlm")
    H = rs.uniform(-1, 1, (m, n))
    z = rs.uniform(-0.3, 0.3, m)
    L = ctx.choice([0.5, 0.1, 1.5], "sc") * (np.eye(m) + np.tril(rs.uniform(-0.3, 0.3, (m, m)), -1))
    o.linear = False
    o.h = lambda t, x: np.sin(H @ x) * (1 + 0.3 * np.cos(t)) + 0.2 * (H @ x)
    o.jac = lambda t, x: (np.cos(H @ x) * (1 + 0.3 * np.cos(t)) + 0.2)[:, None] * H
    o.noise = lambda t: (z, (1 + 0.2 * np.sin(t)) ** 2 * L @ L.T)
    o.model = mk.discrete.NonlinearGaussian(input_dim=n, output_dim=m, transition_fun=o.h, transition_fun_jacobian=o.jac,
                                            noise_fun=lambda t: randvars.Normal(*o.noise(t)))
    return o


class Wide(pfm.ImportanceDistribution if hasattr(pfm, "ImportanceDistribution") else object):
    """A user-written proposal: dynamics with shifted mean and inflated covariance; keeps the generic correction factor."""

    def __init__(self, dynamics_model, fac, shift):
        super().__init__(dynamics_model)
        self.fac, self.shift = fac, shift

    def _wide(self, rv):
        return randvars.Normal(rv.mean + self.shift, self.fac * rv.cov)

    def generate_importance_rv(self, particle, data, t, dt=None, measurement_model=None):
        rv, info = self.dynamics_model.forward_realization(realization=particle, t=t, dt=dt)
        return self._wide(rv), rv, info

    def process_initrv_with_data(self, initrv, data, t, measurement_model=None):
        return self._wide(initrv), initrv, {}


def particles(ctx):
    t0 = ctx.choice([0.0, 1.5], "t0")
    dyn = draw_dyn(ctx, t0)
    n = dyn.n
    N = ctx.choice([4, 1, 2, 3, 8, 15], "N", [3, 1, 2, 2, 2, 1])
    nobs = ctx.integer(1, 5, "nobs")
    t = t0 if ctx.flag(0.5, "first-at-t0") else t0 + ctx.choice([0.3, 0.01, 2**-12], "first-gap", [3, 1, 1])
    locs = [t]
    for _ in range(nobs - 1):
        t += ctx.choice([0.3, 0.5, 1.0, 0.01, 2**-12], "gap", [3, 3, 3, 1, 1])
        locs.append(t)
    mixed = ctx.flag(0.3, "mixed")
    first = draw_obs(ctx, n)
    obs = [first]
    for _ in range(nobs - 1):
        if mixed:
            o = draw_obs(ctx, n)
            obs.append(o if o.m == first.m else first)
        else:
            obs.append(first)
    ys = []
    for k in range(nobs):
        sc = ctx.choice([1.0, 5.0, 60.0], "yscale", [8, 1, 1])
        if sc > 5:
            ctx.fault("extreme_observation")
        ys.append(sc * ctx.rs("y").uniform(-1, 1, first.m))
    kind = ctx.choice(["bootstrap", "ekf", "ukf", "wide"], "importance")
    if kind == "ukf" and not all(o.linear for o in obs):
        kind = "ekf"
    tr = dyn.process.transition
    fac, shift = ctx.choice([1.5, 3.0, 0.7], "fac"), ctx.choice([0.0, 0.4], "shift")
    imp = dict(bootstrap=lambda: pfm.BootstrapImportanceDistribution(tr), wide=lambda: Wide(tr, fac, shift),
               ekf=lambda: pfm.LinearizationImportanceDistribution.from_ekf(tr), ukf=lambda: pfm.LinearizationImportanceDistribution.from_ukf(tr))[kind]()
    resampling = ctx.flag(0.8, "resampling")
    thr = ctx.choice([0.5, 0.1, 0.9, 0.0, 1.5, -1.0, 1.0], "threshold")
    nz = N * n * (nobs + 2)
    z = ctx.rs("z").standard_normal(nz) if ctx.flag(0.85, "noisy") else np.zeros(nz)
    identity = ctx.flag(0.5, "identity-resample")
    idx = np.tile(np.arange(N), nobs + 1) if identity else ctx.rs("idx").randint(0, N, N * (nobs + 1))
    gen = ScriptedGen(z=z, idx=idx)
    pf = pfm.ParticleFilter(dyn.process, imp, num_particles=N, rng=gen, with_resampling=resampling, resampling_percentage_threshold=thr)
    prob = problems.TimeSeriesRegressionProblem(locations=np.array(locs), observations=np.array(ys),
                                                measurement_models=[o.model for o in obs] if mixed else first.model)
    ctx.event("setup", N=N, nobs=nobs, imp=kind, thr=thr, resampling=resampling)
    ctx.sched(f"{kind}{N}{nobs}{thr}{resampling}")
    ctx.simtime += locs[-1] - t0
    states, marks = [], []
    try:
        it = iter(pf.filter_generator(prob))
        while True:
            c0, z0 = len(gen.choice_calls), gen.nz
            try:
                rv, _ = next(it)
            except StopIteration:
                break
            states.append(rv)
            marks.append((c0, len(gen.choice_calls), z0, gen.nz))
    except Unscriptable:
        ctx.probe("unscriptable")
        raise Discard("draws not modelled by the script") from None
    ctx.check(len(states) == nobs, "length", f"{len(states)} states for {nobs} observations")
    # whole-run entry point gives the same states from the same draws
    if ctx.flag(0.3, "whole"):
        g2 = ScriptedGen(z=z, idx=idx)
        imp2 = type(imp)(tr) if kind == "bootstrap" else imp
        pf2 = pfm.ParticleFilter(dyn.process, imp2, num_particles=N, rng=g2, with_resampling=resampling, resampling_percentage_threshold=thr)
        post, _ = pf2.filter(prob)
        ref.close(post.locations, np.array(locs), "posterior", "locations", 0, 0)
        for k in range(nobs):
            ref.close(post.states[k].support, states[k].support, "posterior", "filter() and filter_generator() disagree", 1e-12, 1e-12)
            ref.close(post.states[k].probabilities, states[k].probabilities, "posterior", "filter() and filter_generator() disagree", 1e-12, 1e-12)
        ref.close(post.states.mode, np.stack([s.support[np.argmax(s.probabilities)] for s in states]), "posterior", "modes", 1e-12, 1e-12)
    old_p, old_w = None, None
    t_old = t0
    znow = 0
    for k, (t, y, o) in enumerate(zip(locs, ys, obs)):
        rv = states[k]
        S, W = np.asarray(rv.support, float), np.asarray(rv.probabilities, float)
        c0, c1, z0, z1 = marks[k]
        ctx.check(S.shape == (N, n) and W.shape == (N,), "shape", lambda: f"step {k}: support {S.shape}, weights {W.shape}")
        ctx.check(np.all(np.isfinite(W)) and np.all(W >= 0) and abs(W.sum() - 1) < 1e-9, "weights-sum", lambda: f"step {k}: weights {W}")
        resampled = c1 > c0
        ctx.check(c1 - c0 <= 1, "resample-once", f"step {k}: resampled {c1 - c0} times")
        used = z[z0:z1]
        if k == 0 and t != t0:
            # initial particles come from the initial law; they are hidden, but equal the first N*n base variables
            if len(used) < 2 * N * n:
                raise Violation("draws", f"step 0 used {len(used)} base variables for {N} initial and {N} new particles of dimension {n}")
            init = used[:N * n].reshape(N, n)
            w_, V_ = np.linalg.eigh(dyn.P0)
            old_p = dyn.m0 + init @ ((V_ * np.sqrt(w_)) @ V_.T)
            old_w = np.full(N, 1.0 / N)
            used = used[N * n:]
        elif k == 0:
            old_w = np.full(N, 1.0 / N)
        ctx.check(len(used) == N * n, "draws", lambda: f"step {k}: {len(used)} base variables for {N} new particles of dimension {n}")
        if resampled:
            call = gen.choice_calls[c0]
            ctx.fault("resampled")
            ctx.check(call["n"] == N and call["k"] == N and call["p"] is not None and call["replace"], "resample-law", f"step {k}: resampling call {call}")
            ctx.check(np.allclose(W, 1.0 / N, atol=1e-12), "resample-weights", lambda: f"step {k}: weights after resampling {W}")
            anc = np.array(call["idx"])
            pw = call["p"]
            pre = np.full((N, n), np.nan)
            pre[anc] = S
            ctx.check(np.array_equal(pre[anc], S), "resample-support", f"step {k}: resampled particles are not copies of their ancestors")
            visible = np.unique(anc)
        else:
            pre, pw, visible = S, W, np.arange(N)
            ctx.fault("not_resampled")
        # proposal and weight of every visible particle
        lw = np.zeros(len(visible))
        mh = np.zeros(len(visible))
        for j, i in enumerate(visible):
            x = pre[i]
            if k == 0 and t == t0:
                dm, dC = dyn.m0, dyn.P0
            else:
                dm, dC = dyn.f(t_old, t, old_p[i])
            zs, R = o.noise(t)
            if kind == "bootstrap":
                pm, pC = dm, dC
            elif kind == "wide":
                pm, pC = dm + shift, fac * dC
            else:
                J = o.jac(t, dm)
                S_ = J @ dC @ J.T + R
                K = np.linalg.solve(S_, J @ dC).T
                pm, pC = dm + K @ (y - o.h(t, dm) - zs), dC - K @ S_ @ K.T
            mh[j] = maha(x, pm, pC)
            lw[j] = lognorm(y, o.h(t, x) + zs, R) + (np.log(old_w[i]) if old_w[i] > 0 else -np.inf)
            if kind != "bootstrap":
                lw[j] += lognorm(x, dm, dC) - lognorm(x, pm, pC)
            if np.linalg.cond(dC) > 1e7 or np.linalg.cond(pC) > 1e7:
                raise Discard("ill-conditioned proposal")
        zz = np.sum(used.reshape(N, n) ** 2, axis=1)
        if len(visible) == N:
            ref.close(np.sort(mh), np.sort(zz), "proposal", f"step {k} ({kind}): squared Mahalanobis distances of the new particles from their proposals", 1e-5, 1e-5)
        else:
            for v in mh:
                ctx.check(np.min(np.abs(zz - v)) <= 1e-5 * (1 + v), "proposal", lambda: f"step {k} ({kind}): a particle is not a draw from its proposal")
        # weights, up to normalisation (which is known if all particles are visible)
        if not np.isfinite(np.max(lw)):
            raise Discard("only weightless particles are visible")
        rel = lw - np.max(lw)
        want = np.exp(rel) / np.sum(np.exp(rel))
        got = pw[visible] / np.sum(pw[visible]) if np.sum(pw[visible]) > 0 else pw[visible]
        if len(visible) == N:
            ref.close(got, want, "weights", f"step {k} ({kind}): weights", 2e-6, 1e-9)
        elif np.sum(pw[visible]) > 1e-6:
            ref.close(got, want, "weights", f"step {k} ({kind}): relative weights", 1e-5, 1e-6)
        # resampling rule
        neff = 1.0 / np.sum(pw ** 2)
        if resampling:
            if abs(neff - thr * N) > 1e-7 * N or (N == 1 and pw[0] == 1.0):
                ctx.check(resampled == (neff < thr * N), "resample-rule", lambda: f"step {k}: effective number {neff:.4f}, threshold {thr * N}, resampled={resampled}")
        else:
            ctx.check(not resampled, "resample-rule", f"step {k}: resampled although resampling is off")
        ref.close(effective_number_of_events(rv), 1.0 / np.sum(W ** 2), "neff", "effective number of events", 1e-9, 1e-12)
        old_p, old_w, t_old = S, W, t
        ctx.steps += 1
    # the reported law is the weighted empirical law
    rv = states[-1]
    S, W = np.asarray(rv.support), np.asarray(rv.probabilities)
    i = ctx.integer(0, N - 1, "pmf")
    ref.close(rv.pmf(S[i]), np.sum(W[np.all(S == S[i], axis=1)]), "pmf", "probability of a support point", 1e-9, 1e-12)
    mode = np.asarray(rv.mode)
    ctx.check(any(np.array_equal(mode, S[j]) for j in range(N) if W[j] >= np.max(W) * (1 - 1e-12)), "mode", "mode is not a point of largest weight")


SCENARIOS = {"particles": (particles, 1)}


def nontrivial(ctx):
    return ctx.steps > 1 or bool(ctx.faults.get("resampled"))
