"""Random linear Gaussian state-space models with a dense reference."""
import numpy as np
import scipy.integrate

from probnum import filtsmooth, randprocs, randvars

from . import ref

mk = randprocs.markov


class Prior:
    """process: probnum Markov process; trans(s, t) -> (Phi, c, Q) reference law of x(t) given x(s)."""

    def __init__(self, process, trans, n, kind, impl, discrete=False, tol=1.0):
        self.process, self.trans, self.n, self.kind, self.impl = process, trans, n, kind, impl
        self.discrete, self.tol = discrete, tol
        self.t0 = float(process.initarg)
        self.m0 = ref.arr(process.initrv.mean)
        self.P0 = ref.arr(process.initrv.cov)
        self.bimpl = getattr(process.transition, "backward_implementation", "classic")

    def restarted(self, t, rv):
        cls = mk.MarkovSequence if self.discrete else mk.MarkovProcess
        return cls(initarg=t, initrv=rv, transition=self.process.transition)


def _initrv(ctx, rs, n, impl):
    L = np.tril(rs.uniform(-0.5, 0.5, (n, n)), -1) + np.diag(rs.uniform(0.4, 1.2, n))
    m = rs.uniform(-1, 1, n)
    form = ctx.choice(["cov", "chol", "exact", "tight"], "initrv", [4, 4, 1, 1])
    if form == "exact":  # a known initial value
        Z = np.zeros((n, n))
        return randvars.Normal(m, Z, cov_cholesky=Z)
    if form == "tight":
        L = 1e-3 * L
    if form in ("chol", "tight"):
        return randvars.Normal(m, L @ L.T, cov_cholesky=L)
    return randvars.Normal(m, L @ L.T)


def draw_prior(ctx, t0, kinds=("iwp", "ioup", "matern", "ltisde", "linsde", "seq", "seq_tv"), weights=None, dmax=2):
    kind = ctx.choice(kinds, "prior", weights)
    rs = ctx.rs("prior-par")
    impl = ctx.choice(["classic", "sqrt"], "impl")
    if kind in ("iwp", "ioup", "matern"):
        q = ctx.integer(1, 2 if kind == "iwp" else 1, "q")
        if kind == "iwp" and ctx.flag(0.1, "q0"):
            q = 0
        d = ctx.integer(1, dmax, "d")
        n = d * (q + 1)
        initrv = _initrv(ctx, rs, n, impl) if ctx.flag(0.8, "own-initrv") else None
        kw = dict(initarg=t0, num_derivatives=q, wiener_process_dimension=d, initrv=initrv,
                  forward_implementation=impl, backward_implementation=ctx.choice([impl, "joseph"], "bimpl", [5, 1]))
        F1 = np.diag(np.ones(q), 1)
        if kind == "iwp":
            p = mk.integrator.IntegratedWienerProcess(**kw)
        elif kind == "ioup":
            th = float(rs.uniform(0.1, 1.5))
            p = mk.integrator.IntegratedOrnsteinUhlenbeckProcess(driftspeed=th, **kw)
            F1[-1, -1] = -th
        else:
            ls = float(rs.uniform(0.7, 2.5))
            p = mk.integrator.MaternProcess(lengthscale=ls, **kw)
            from math import comb

            nu = q + 0.5
            lam = np.sqrt(2 * nu) / ls
            F1[-1] = [-comb(q + 1, k) * lam ** (q + 1 - k) for k in range(q + 1)]
        L1 = np.eye(q + 1)[:, [-1]]
        F, L = np.kron(np.eye(d), F1), np.kron(np.eye(d), L1)

        def trans(s, t):
            if t == s:
                return np.eye(n), np.zeros(n), np.zeros((n, n))
            if kind == "iwp":
                Phi, Q = ref.iwp(q, d, t - s)
            else:
                Phi, Q = ref.van_loan(F, L, t - s)
            return Phi, np.zeros(n), Q

        pr = Prior(p, trans, n, kind, impl, tol=1.0 if q < 2 else 10.0)
        pr.q, pr.d = q, d
        return pr
    n = ctx.integer(1, 3, "n")
    if kind == "ltisde":
        F = rs.uniform(-1, 1, (n, n)) - 0.5 * np.eye(n)
        u = rs.uniform(-1, 1, n) if ctx.flag(0.6, "force") else np.zeros(n)
        L = rs.uniform(-0.4, 0.4, (n, n)) + 0.8 * np.eye(n)
        tr = mk.continuous.LTISDE(F, u, L, forward_implementation=impl,
                                  backward_implementation=ctx.choice([impl, "joseph"], "bimpl", [5, 1]))
        p = mk.MarkovProcess(initarg=t0, initrv=_initrv(ctx, rs, n, impl), transition=tr)

        def trans(s, t):
            if t == s:
                return np.eye(n), np.zeros(n), np.zeros((n, n))
            Phi, Q = ref.van_loan(F, L, t - s)
            return Phi, ref.force(F, u, t - s), Q

        return Prior(p, trans, n, kind, impl)
    if kind == "linsde":
        n = min(n, 2)
        regular = lambda rv: rv if np.min(np.diag(rv.cov)) > 0.05 else randvars.Normal(rv.mean, 0.3 * np.eye(n))
        F0 = rs.uniform(-0.8, 0.8, (n, n)) - 0.4 * np.eye(n)
        F1 = rs.uniform(-0.5, 0.5, (n, n))
        u0, w = rs.uniform(-1, 1, n), float(rs.uniform(0.5, 2.0))
        L0 = rs.uniform(-0.3, 0.3, (n, n)) + 0.7 * np.eye(n)
        Ff = lambda t: F0 + np.sin(w * t) * F1
        uf = lambda t: u0 * np.cos(w * t)
        Lf = lambda t: L0 * (1.0 + 0.3 * np.sin(t))
        tr = mk.continuous.LinearSDE(state_dimension=n, wiener_process_dimension=n, drift_matrix_function=Ff,
                                     force_vector_function=uf, dispersion_matrix_function=Lf, mde_atol=1e-10,
                                     mde_rtol=1e-9, forward_implementation=impl)
        if ctx.flag(0.3, "cekf"):
            # the continuous EKF of a linear model is exact
            sde = mk.continuous.SDE(state_dimension=n, wiener_process_dimension=n,
                                    drift_function=lambda t, x: Ff(t) @ x + uf(t), dispersion_function=lambda t, x: Lf(t),
                                    drift_jacobian=lambda t, x: Ff(t))
            tr = filtsmooth.gaussian.approx.ContinuousEKFComponent(sde, mde_atol=1e-10, mde_rtol=1e-9, forward_implementation=impl)
        p = mk.MarkovProcess(initarg=t0, initrv=regular(_initrv(ctx, rs, n, impl)), transition=tr)
        cache = {}

        def trans(s, t):
            if t == s:
                return np.eye(n), np.zeros(n), np.zeros((n, n))
            key = (s, t)
            if key not in cache:
                def f(tt, y):
                    Phi = y[: n * n].reshape(n, n)
                    c = y[n * n: n * n + n]
                    Q = y[n * n + n:].reshape(n, n)
                    F, L = Ff(tt), Lf(tt)
                    return np.concatenate([(F @ Phi).ravel(), F @ c + uf(tt), (F @ Q + Q @ F.T + L @ L.T).ravel()])

                y0 = np.concatenate([np.eye(n).ravel(), np.zeros(n), np.zeros(n * n)])
                y = scipy.integrate.solve_ivp(f, (s, t), y0, method="DOP853", rtol=1e-11, atol=1e-12).y[:, -1]
                cache[key] = (y[: n * n].reshape(n, n), y[n * n: n * n + n], y[n * n + n:].reshape(n, n))
            return cache[key]

        return Prior(p, trans, n, kind, impl, tol=100.0)
    # discrete-time sequences
    G0 = rs.uniform(-0.7, 0.7, (n, n)) + 0.3 * np.eye(n)
    G1 = rs.uniform(-0.3, 0.3, (n, n))
    s0 = rs.uniform(-0.5, 0.5, n)
    LQ = np.tril(rs.uniform(-0.3, 0.3, (n, n)), -1) + np.diag(rs.uniform(0.4, 0.9, n))
    bimpl = ctx.choice([impl, "joseph"], "bimpl", [5, 1])
    if kind == "seq":
        tr = mk.discrete.LTIGaussian(transition_matrix=G0, noise=randvars.Normal(s0, LQ @ LQ.T),
                                     forward_implementation=impl, backward_implementation=bimpl)
        law = lambda s: (G0, s0, LQ @ LQ.T)
    else:
        sc = lambda s: 1.0 + 0.5 * np.sin(s)
        law = lambda s: (G0 + np.cos(s) * G1, s0 * np.sin(2 * s), sc(s) ** 2 * (LQ @ LQ.T))
        tr = mk.discrete.LinearGaussian(input_dim=n, output_dim=n, transition_matrix_fun=lambda s: law(s)[0],
                                        noise_fun=lambda s: randvars.Normal(law(s)[1], law(s)[2]),
                                        forward_implementation=impl, backward_implementation=bimpl)
    p = mk.MarkovSequence(initarg=t0, initrv=_initrv(ctx, rs, n, impl), transition=tr)

    def trans(s, t):
        if t == s:
            return np.eye(n), np.zeros(n), np.zeros((n, n))
        return law(s)

    return Prior(p, trans, n, kind, impl, discrete=True)


class Meas:
    """model: probnum transition; law(t) -> (H, z, R)."""

    def __init__(self, model, law, m, impl="classic"):
        self.model, self.law, self.m, self.impl = model, law, m, impl


def draw_meas(ctx, n, m, hook=None, tv=None, exact_ok=False):
    """A linear measurement model R^n -> R^m; ``hook()`` runs inside every user-supplied function call."""
    rs = ctx.rs("meas")
    H0 = rs.uniform(-1, 1, (m, n))
    H1 = rs.uniform(-0.5, 0.5, (m, n))
    z0 = rs.uniform(-0.5, 0.5, m)
    sc = ctx.choice([0.5, 0.1, 2.0], "noise-scale")
    LR = sc * (np.tril(rs.uniform(-0.4, 0.4, (m, m)), -1) + np.diag(rs.uniform(0.5, 1.0, m)))
    R0 = LR @ LR.T
    impl = ctx.choice(["classic", "sqrt", "joseph"], "meas-impl")
    fimpl = ctx.choice(["classic", "sqrt"], "meas-fimpl")
    if tv is None:
        tv = ctx.flag(0.4, "meas-tv")
    chol = ctx.flag(0.5, "meas-chol")
    if exact_ok and m <= n and ctx.flag(0.1, "noise-free"):
        R0 = np.zeros((m, m))

    def noise(z, R):
        if not np.any(R):
            return randvars.Constant(z)
        return randvars.Normal(z, R, cov_cholesky=np.linalg.cholesky(R)) if chol else randvars.Normal(z, R)

    if not tv and hook is None:
        model = mk.discrete.LTIGaussian(transition_matrix=H0, noise=noise(z0, R0), forward_implementation=fimpl,
                                        backward_implementation=impl)
        return Meas(model, lambda t: (H0, z0, R0), m, impl)
    k = 1.0 if tv else 0.0
    law = lambda t: (H0 + k * np.sin(1.3 * t) * H1, z0 * (1 + k * 0.7 * np.sin(2 * t)), R0 * (1.0 + k * 0.4 * np.cos(t)) ** 2)

    def Hf(t):
        if hook is not None:
            hook()
        return law(t)[0]

    def nf(t):
        if hook is not None:
            hook()
        return noise(law(t)[1], law(t)[2])

    model = mk.discrete.LinearGaussian(input_dim=n, output_dim=m, transition_matrix_fun=Hf, noise_fun=nf,
                                       forward_implementation=fimpl, backward_implementation=impl)
    return Meas(model, law, m, impl)


def draw_locations(ctx, t0, discrete=False, nmax=7):
    """Increasing observation times, irregular, the first one at or after t0."""
    n = ctx.integer(1, nmax, "nobs")
    t = t0 if ctx.flag(0.4, "first-at-t0") else t0 + ctx.choice([0.3, 0.05, 1.0], "lead")
    out = [t]
    for _ in range(n - 1):
        t = t + ctx.choice([0.25, 0.1, 0.5, 0.03, 1.1], "gap")
        out.append(t)
    return [float(x) for x in out]


class Joint:
    """Dense joint Gaussian of the prior at a set of times, conditioned on observations on demand."""

    def __init__(self, prior, times, grid=None):
        times = sorted(set(float(t) for t in times))
        if times[0] > prior.t0:
            times = [prior.t0] + times
        self.times, self.n = times, prior.n
        n, N = prior.n, len(times)
        m = np.zeros(n * N)
        P = np.zeros((n * N, n * N))
        m[:n], P[:n, :n] = prior.m0, prior.P0
        for k in range(1, N):
            Phi, c, Q = prior.trans(times[k - 1], times[k])
            a, b = slice((k - 1) * n, k * n), slice(k * n, (k + 1) * n)
            m[b] = Phi @ m[a] + c
            P[b, : k * n] = Phi @ P[a, : k * n]
            P[: k * n, b] = P[b, : k * n].T
            P[b, b] = Phi @ P[a, a] @ Phi.T + Q
        self.m, self.P = m, P

    def index(self, t):
        return self.times.index(float(t))

    def given(self, obs):
        """obs: list of (t, H, z, R, y).  Returns posterior (m, P) of the stacked states."""
        if not obs:
            return self.m, self.P
        n, N = self.n, len(self.times)
        H = np.zeros((sum(len(o[4]) for o in obs), n * N))
        R = np.zeros((H.shape[0],) * 2)
        r = np.zeros(H.shape[0])
        pos = 0
        for t, Hk, zk, Rk, y in obs:
            k, w = self.index(t), len(y)
            H[pos: pos + w, k * n:(k + 1) * n] = Hk
            R[pos: pos + w, pos: pos + w] = Rk
            r[pos: pos + w] = y - zk
            pos += w
        return ref.condition(self.m, self.P, H, np.zeros(len(r)), R, r)

    def at(self, mp, t):
        k, n = self.index(t), self.n
        s = slice(k * n, (k + 1) * n)
        return mp[0][s], mp[1][s, s]
