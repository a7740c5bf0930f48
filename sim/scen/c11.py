"""C11: the Bayesian-quadrature belief == the batch Gaussian-process posterior of the integral."""
import copy

import numpy as np

from probnum import quad, randprocs
from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
from probnum.quad.solvers import BayesianQuadrature, BQIterInfo, BQState
from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
from probnum.quad.solvers.initial_designs import InitialDesign, LatinDesign, MCDesign
from probnum.quad.solvers.policies import MaxAcquisitionPolicy, Policy, RandomMaxAcquisitionPolicy, RandomPolicy, VanDerCorputPolicy
from probnum.quad.solvers.acquisition_functions import IntegralVarianceReduction, MutualInformation, WeightedPredictiveVariance
from probnum.quad.solvers.stopping_criteria import BQStoppingCriterion, IntegralVarianceTolerance, MaxNevals, RelativeMeanChange
from probnum.quad.kernel_embeddings import KernelEmbedding
from probnum.randprocs.kernels import ExpQuad, Matern, ProductMatern
from probnum.randvars import Normal

from .. import ref
from ..core import Discard, InjectedFault, Violation

GL_X, GL_W = np.polynomial.legendre.leggauss(24)


# -- the integration problem and its independent model ---------------------------------
class Recording:
    """Mixin: records what the measure's sampler handed out."""

    def sample(self, n_sample, rng):
        s = super().sample(n_sample, rng=rng)
        self.log.append(np.array(s))
        return s


class RLebesgue(Recording, LebesgueMeasure):
    pass


class RGauss(Recording, GaussianMeasure):
    pass


def matern(nu, r):
    s = np.sqrt(2 * nu) * r
    if nu == 0.5:
        p = 1.0
    elif nu == 1.5:
        p = 1 + s
    elif nu == 2.5:
        p = 1 + s + s**2 / 3
    else:
        p = 1 + s + 2 * s**2 / 5 + s**3 / 15
    return p * np.exp(-s)


class Model:
    """Kernel + measure, written down independently of the library."""

    def __init__(self, kind, ell, nu, mkind, lo, hi, norm, mu, Sig, d):
        self.kind, self.ell, self.nu, self.mkind = kind, ell, nu, mkind
        self.lo, self.hi, self.norm, self.mu, self.Sig, self.d = lo, hi, norm, mu, Sig, d

    def k1(self, dim, x, y):
        r = np.abs(x - y) / self.ell[dim]
        return np.exp(-0.5 * r**2) if self.kind == "expquad" else matern(self.nu[dim], r)

    def K(self, X, Y):
        out = np.ones((len(X), len(Y)))
        for j in range(self.d):
            out = out * self.k1(j, X[:, j][:, None], Y[:, j][None, :])
        return out

    def _panels(self, a, b, splits, ell):
        """Composite Gauss-Legendre nodes/weights on [a,b] with given split points."""
        pts = np.unique(np.concatenate([[a, b], [s for s in splits if a < s < b]]))
        xs, ws = [], []
        for l, r in zip(pts[:-1], pts[1:]):
            m = max(1, int(np.ceil((r - l) / (2.0 * ell))))
            e = np.linspace(l, r, m + 1)
            for p, q in zip(e[:-1], e[1:]):
                xs.append(0.5 * (q - p) * GL_X + 0.5 * (p + q))
                ws.append(0.5 * (q - p) * GL_W)
        return np.concatenate(xs), np.concatenate(ws)

    def mean(self, X):
        if self.mkind == "gauss":
            ell2 = self.ell[0] ** 2
            M = self.Sig + ell2 * np.eye(self.d)
            D = X - self.mu
            q = np.einsum("ij,ij->i", D, np.linalg.solve(M, D.T).T)
            return np.exp(-0.5 * q) / np.sqrt(np.linalg.det(np.eye(self.d) + self.Sig / ell2))
        out = np.full(len(X), self.norm)
        for j in range(self.d):
            out = out * np.array([self._mean1(j, x) for x in X[:, j]])
        return out

    def _mean1(self, j, x):
        s, w = self._panels(self.lo[j], self.hi[j], [x], self.ell[j])
        return float(w @ self.k1(j, s, x))

    def var(self):
        if self.mkind == "gauss":
            return 1.0 / np.sqrt(np.linalg.det(np.eye(self.d) + 2 * self.Sig / self.ell[0] ** 2))
        out = self.norm**2
        for j in range(self.d):
            s, w = self._panels(self.lo[j], self.hi[j], [], self.ell[j])
            out *= float(w @ np.array([self._mean1(j, x) for x in s]))
        return out

    def density(self, X):
        if self.mkind == "gauss":
            D = X - self.mu
            q = np.einsum("ij,ij->i", D, np.linalg.solve(self.Sig, D.T).T)
            return np.exp(-0.5 * q) / np.sqrt(np.linalg.det(2 * np.pi * self.Sig))
        return np.full(len(X), self.norm)


def draw_problem(ctx, bounded=False, d=None, recording=True):
    d = ctx.choice([1, 2, 3], "dim", [5, 3, 1]) if d is None else d
    mkind = "leb" if bounded else ctx.choice(["leb", "gauss"], "measure", [3, 2])
    if mkind == "gauss":
        kind = "expquad"
    else:
        kind = ctx.choice(["expquad", "matern", "product"], "kernel") if d == 1 else ctx.choice(["expquad", "product"], "kernel")
    ell = np.full(d, ctx.choice([1.0, 0.4, 2.0, 0.7], "ell"))
    nu = np.full(d, ctx.choice([1.5, 0.5, 2.5, 3.5], "nu"))
    if kind == "product" and ctx.flag(0.6, "per-dim"):
        ell = np.array([ctx.choice([1.0, 0.4, 2.0, 0.7], "ell-j") for _ in range(d)])
        nu = np.array([ctx.choice([1.5, 0.5, 2.5, 3.5], "nu-j") for _ in range(d)])
    lo = np.array([ctx.choice([0.0, -1.0, 0.3], "lo") for _ in range(d)])
    hi = lo + np.array([ctx.choice([1.0, 2.0, 0.5], "width") for _ in range(d)])
    norm, mu, Sig = 1.0, None, None
    cls_l, cls_g = (RLebesgue, RGauss) if recording else (LebesgueMeasure, GaussianMeasure)
    if mkind == "leb":
        normalized = ctx.flag(0.3, "normalized")
        dom = (lo.copy(), hi.copy())
        if d == 1 and ctx.flag(0.4, "scalar-domain"):
            dom = (float(lo[0]), float(hi[0]))
        measure = cls_l(domain=dom, input_dim=d, normalized=normalized)
        norm = 1.0 / np.prod(hi - lo) if normalized else 1.0
    else:
        rs = ctx.rs("gauss")
        mu = rs.uniform(-1, 1, d)
        Sig = np.diag(rs.uniform(0.3, 1.2, d))
        if d > 1 and ctx.flag(0.5, "full-cov"):
            B = rs.standard_normal((d, d)) * 0.5
            Sig = B @ B.T + 0.3 * np.eye(d)
        measure = cls_g(mean=mu.copy() if d > 1 else (mu.copy() if ctx.flag(0.5, "vec") else float(mu[0])),
                        cov=Sig.copy() if d > 1 else (Sig.copy() if ctx.flag(0.5, "mat") else float(Sig[0, 0])))
    measure.log = []
    if kind == "expquad":
        kernel = ExpQuad((d,), lengthscales=ell[0])
    elif kind == "matern":
        kernel = Matern((1,), nu=nu[0], lengthscales=ell[0])
    else:
        kernel = ProductMatern((d,), lengthscales=ell.copy(), nus=nu.copy())
    return Model(kind, ell, nu, mkind, lo, hi, norm, mu, Sig, d), kernel, measure


def draw_node(ctx, mod, rs):
    if mod.mkind == "gauss":
        return mod.mu + np.linalg.cholesky(mod.Sig) @ rs.standard_normal(mod.d)
    return rs.uniform(mod.lo, mod.hi)


class Integrand:
    """User function; records every evaluation; may raise once."""

    def __init__(self, ctx, d):
        rs = ctx.rs("integrand")
        self.a, self.b, self.c = rs.uniform(-1, 1, d), rs.uniform(0.3, 2.5, d), rs.uniform(-1, 1)
        self.log, self.crash_at, self.calls = [], None, 0

    def f(self, X):
        return np.sin(X @ self.b) + X @ self.a + self.c

    def __call__(self, X):
        X = np.array(X)
        self.calls += 1
        if self.crash_at == self.calls:
            self.crash_at = None
            raise InjectedFault("integrand")
        self.log.append(X)
        if X.ndim != 2:
            raise Violation("integrand-shape", f"integrand called with an array of shape {X.shape}")
        return self.f(X)

    def seen(self, d):
        return np.concatenate(self.log, 0) if self.log else np.zeros((0, d))


class Post:
    """Batch GP posterior of the integral given all nodes at once."""

    def __init__(self, mod, X, f, jitter, scale):
        self.mod, self.X, self.f, self.n = mod, X, f, len(X)
        self.kvar = mod.var() if not hasattr(mod, "_kvar") else mod._kvar
        mod._kvar = self.kvar
        if self.n == 0:
            self.scale, self.mean, self.var, self.cond = 1.0, 0.0, self.kvar, 1.0
            return
        self.K = mod.K(X, X) + jitter * np.eye(self.n)
        w, V = np.linalg.eigh(self.K)
        if w[0] <= 0:
            raise Discard("singular Gram matrix")
        self.cond = w[-1] / w[0]
        self.Ki = (V / w) @ V.T
        self.km = mod.mean(X)
        self.wts = self.Ki @ self.km
        self.scale = float(f @ self.Ki @ f / self.n) if scale == "mle" else 1.0
        self.mean = float(self.wts @ f)
        self.var = self.scale * (self.kvar - self.wts @ self.km)
        self.wnorm = float(np.abs(self.wts) @ np.abs(f))

    def predict(self, Z):
        if self.n == 0:
            return np.zeros(len(Z)), np.ones(len(Z)), self.mod.mean(Z)
        kz = self.mod.K(self.X, Z)
        W = self.Ki @ kz
        return W.T @ self.f, self.scale * (1 - np.sum(W * kz, 0)), self.mod.mean(Z) - self.km @ W

    def acquisition(self, name, Z):
        _, v, emb = self.predict(Z)
        if name == "us":
            return v / self.scale * self.mod.density(Z) ** 2
        rho2 = (self.scale * emb) ** 2 / (self.var * v)
        return rho2 if name == "ivr" else -0.5 * np.log(np.maximum(1 - rho2, 1e-300))


def tol(post):
    return 1e-8 + 1e-14 * post.cond


def check_belief(belief, post, what):
    if post.cond > 1e11:
        raise Discard("ill-conditioned Gram matrix")
    r = tol(post)
    sf = max(abs(post.mean), getattr(post, "wnorm", 0.0), 1e-3)
    ref.close(belief.mean, np.asarray(post.mean), "integral-mean", what, r, r * sf, scale=sf)
    ref.close(belief.var, np.asarray(post.var), "integral-variance", what, r, r * post.scale * post.kvar + 1e-14, scale=post.scale * post.kvar)


def check_state(ctx, state, post, what):
    """Everything a user policy / criterion / acquisition function may read from the state."""
    d = post.mod.d
    ref.close(state.nodes, post.X, "state-nodes", what, 1e-12, 1e-12)
    ref.close(state.fun_evals, post.f, "state-evals", what, 1e-12, 1e-12)
    check_belief(state.integral_belief, post, what)
    ref.close(np.asarray(state.scale_sq, float), np.asarray(post.scale), "scale", what, tol(post), 1e-12)
    if post.n:
        ref.close(state.gram, post.mod.K(post.X, post.X), "gram", what, 1e-9, 1e-10)
        ref.close(state.kernel_means, post.km, "kernel-means", what, 1e-8, 1e-9)
    if ctx.flag(0.4, "predict"):
        rs = ctx.rs("test-points")
        Z = np.stack([draw_node(ctx, post.mod, rs) for _ in range(3)])
        m, v = BQStandardBeliefUpdate.predict_integrand(Z, state)
        wm, wv, _ = post.predict(Z)
        r = tol(post) * 100
        sf = 1 + np.max(np.abs(post.f)) if post.n else 1.0
        ref.close(m, wm, "predictive-mean", what, r, r * sf)
        ref.close(v, wv, "predictive-variance", what, r, r * post.scale, scale=post.scale)


# -- 1. step-wise loop with user policies, crashes and resumption ------------------------
class ScriptPolicy(Policy):
    def __init__(self, batches, crash_at=None):
        super().__init__(batch_size=len(batches[0]) if batches else 1)
        self.batches, self.crash_at, self.k = batches, crash_at, 0

    @property
    def requires_rng(self):
        return False

    def __call__(self, bq_state, rng):
        if self.crash_at == self.k:
            self.crash_at = None
            raise InjectedFault("policy")
        b = self.batches[self.k]
        self.k += 1
        self.batch_size = len(b)
        return b.copy()


class ScriptStop(BQStoppingCriterion):
    def __init__(self, n):
        self.n, self.seen = n, []

    def __call__(self, bq_state, info):
        self.seen.append((bq_state, info.iteration, info.nevals))
        return info.iteration >= self.n


class ScriptDesign(InitialDesign):
    def __init__(self, nodes, measure):
        super().__init__(len(nodes), measure)
        self.nodes = nodes

    @property
    def requires_rng(self):
        return False

    def __call__(self, rng):
        return self.nodes.copy()


def loop(ctx):
    mod, kernel, measure = draw_problem(ctx)
    fun = Integrand(ctx, mod.d)
    scale = ctx.choice(["mle", None], "scale")
    jitter = ctx.choice([1e-6, 1e-8, 1e-4, 1e-2, 0.0], "jitter", [3, 3, 1, 1, 1])
    nb = ctx.integer(0, 6, "batches")
    rs = ctx.rs("nodes")
    pool, batches = [], []

    def node():
        if pool and jitter >= 1e-6 and ctx.flag(0.12, "repeat"):
            ctx.fault("repeated_node")
            return pool[ctx.integer(0, len(pool) - 1, "which")].copy()
        x = draw_node(ctx, mod, rs)
        pool.append(x)
        return x

    same_batch = ctx.integer(1, 3, "batch-size")
    vary = ctx.flag(0.5, "vary-batch")
    init = np.array([node() for _ in range(ctx.integer(1, 4, "n-init"))]) if ctx.flag(0.5, "given-data") else None
    design = np.array([node() for _ in range(ctx.integer(1, 4, "n-design"))]) if ctx.flag(0.4, "design") else None
    for _ in range(nb):
        batches.append(np.array([node() for _ in range(ctx.integer(1, 3, "size") if vary else same_batch)]))
    pol = ScriptPolicy(batches)
    stop = ScriptStop(nb)
    upd = BQStandardBeliefUpdate(jitter=jitter, scale_estimation=scale)
    bq = BayesianQuadrature(kernel=kernel, measure=measure, policy=pol, belief_update=upd, stopping_criterion=stop,
                            initial_design=None if design is None else ScriptDesign(design, measure))
    ctx.event("loop", kernel=mod.kind, measure=mod.mkind, d=mod.d, batches=[len(b) for b in batches], scale=scale)
    stepwise = ctx.flag(0.6, "stepwise")
    crash = ctx.flag(0.4, "crash") and nb > 0
    f0 = None if init is None else fun.f(init)
    start = [x for x in (init, design) if x is not None]
    start = np.concatenate(start, 0) if start else np.zeros((0, mod.d))

    allX = np.concatenate([start] + batches, 0)
    if Post(mod, allX, fun.f(allX), jitter, scale).cond > 1e11:
        raise Discard("ill-conditioned Gram matrix")

    if not stepwise:
        given = ctx.flag(0.6, "evals-given") if init is not None else False
        if crash:
            k = ctx.integer(1, nb, "crash-call")
            if ctx.flag(0.5, "crash-policy"):
                pol.crash_at = k - 1
            else:
                fun.crash_at = k
            ctx.fault("crash")
            try:
                bq.integrate(fun, None if init is None else init.copy(), f0.copy() if given else None, None)
            except InjectedFault:
                pass
            fun.log.clear(), stop.seen.clear()
            fun.crash_at, pol.crash_at, pol.k = None, None, 0
        Xin = None if init is None else init.copy()
        fin = f0.copy() if given else None
        belief, state, info = bq.integrate(fun, Xin, fin, None)
        if Xin is not None:
            Xin[:] = 7.7  # the caller reuses its arrays
            if fin is not None:
                fin[:] = 9.9
        X = np.concatenate([start] + batches, 0)
        post = Post(mod, X, fun.f(X), jitter, scale)
        ctx.steps += nb
        check_state(ctx, state, post, "final state")
        check_belief(belief, post, "returned belief")
        ctx.check(info.iteration == nb and info.nevals == len(X) and info.has_converged, "info", f"{info} after {nb} iterations, {len(X)} nodes")
        want = X if not given else X[len(init):]
        got = fun.seen(mod.d)
        ctx.check(got.shape == want.shape and np.allclose(got, want), "evaluations", f"integrand evaluated at {got.shape[0]} points, selected were {want.shape[0]}")
        ctx.check(len(state.previous_integral_beliefs) == nb + (1 if len(start) else 0), "history", "number of previous beliefs")
    else:
        state = BQState(measure=measure, kernel=kernel, integral_belief=Normal(0.0, KernelEmbedding(kernel, measure).kernel_variance()))
        if len(start):
            _, state = upd(bq_state=state, new_nodes=start.copy(), new_fun_evals=fun.f(start))
        info = BQIterInfo.from_bq_state(state)
        crash_at = ctx.integer(0, nb - 1, "crash-at") if crash else None
        mode = ctx.choice(["integrand", "policy", "abandon"], "crash-mode") if crash else None
        done, seen_beliefs = 0, []
        resumed = False
        while True:
            stop.seen.clear()
            finished = False
            if crash_at is not None and not resumed:
                if mode == "policy":
                    pol.crash_at = crash_at
                elif mode == "integrand":
                    fun.crash_at = fun.calls + crash_at + 1
            gen = bq.bq_iterator(state, info, fun, None)
            first = resumed
            try:
                for belief, state_, info_ in gen:
                    X = np.concatenate([start] + batches[:done if first or not seen_beliefs else done + 1], 0)
                    if not first and seen_beliefs:
                        done += 1
                        ctx.steps += 1
                    first = False
                    post = Post(mod, X, fun.f(X), jitter, scale)
                    check_state(ctx, state_, post, f"after {done} iterations")
                    check_belief(belief, post, f"after {done} iterations")
                    ctx.check(info_.iteration == done and info_.nevals == len(X), "info", f"{info_} after {done} iterations with {len(X)} nodes")
                    ctx.check(info_.has_converged == (done >= nb), "converged-flag", f"{info_}")
                    ctx.check(stop.seen[-1][0] is state_, "stop-state", "criterion was evaluated on another state than the reported one")
                    state, info = state_, info_
                    seen_beliefs.append(belief)
                    if mode == "abandon" and not resumed and done == crash_at:
                        gen.close()
                        ctx.fault("abandoned")
                        raise InjectedFault("abandoned")
                finished = True
            except InjectedFault:
                ctx.fault("crash_" + mode)
                resumed = True
                pol.k = done
                # an integrand that is called node by node may have seen part of the lost batch
                fun.log = [fun.seen(mod.d)[:sum(len(b) for b in batches[:done])]]
            if finished:
                break
        ctx.check(done == nb, "iterations", f"{done} iterations instead of {nb}")
        want = np.concatenate(batches, 0) if batches else np.zeros((0, mod.d))
        got = fun.seen(mod.d)
        ctx.check(got.shape == want.shape and np.allclose(got, want), "evaluations", "integrand evaluated elsewhere than at the selected nodes")
    ctx.simtime += nb
    # batching and order are irrelevant
    X = np.concatenate([start] + batches, 0)
    if len(X) and ctx.flag(0.6, "permute"):
        perm = np.array(ctx.shuffle(range(len(X)), "perm"))
        F, inf2 = quad.bayesquad_from_data(X[perm].copy(), fun.f(X)[perm], kernel=kernel, measure=measure,
                                           options=dict(scale_estimation=scale, jitter=jitter))
        check_belief(F, Post(mod, X, fun.f(X), jitter, scale), "same data at once, permuted")
        ctx.check(inf2.nevals == len(X), "info", "nevals of bayesquad_from_data")


# -- 2. built-in policies, designs, criteria --------------------------------------------
def vdc(i):
    q, b = 0.0, 0.5
    while i:
        q += (i % 2) * b
        i //= 2
        b /= 2
    return q


def rerun_equal(ctx, a, b, what):
    ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9), "reproducible", what)


def policies(ctx):
    name = ctx.choice(["bmc", "vdc", "us_rand", "ivr_rand", "mi_rand", "us", "ivr", "mi"], "policy", [4, 4, 4, 4, 4, 1, 1, 1])
    opt = name in ("us", "ivr", "mi")
    mod, kernel, measure = draw_problem(ctx, bounded=name == "vdc", d=1 if name == "vdc" else (ctx.choice([1, 2], "opt-dim") if opt else None))
    jitter = ctx.choice([1e-4, 1e-3, 1e-6], "jitter") if name in ("bmc", "vdc") else ctx.choice([1e-4, 1e-3], "jitter")
    design = ctx.choice([None, "mc", "latin"], "design")
    if design == "latin" and mod.mkind == "gauss":
        design = "mc"
    scale = ctx.choice(["mle", None], "scale")
    fun = Integrand(ctx, mod.d)
    bs = ctx.integer(1, 3, "batch") if name in ("bmc", "vdc") else 1
    nd = ctx.integer(1, 5, "n-design")
    maxe = ctx.integer(1, 5 if opt else 12, "max-evals")
    o = dict(scale_estimation=scale, jitter=jitter, batch_size=bs, max_evals=maxe)
    if design:
        o["n_initial_design_nodes"] = nd
    nc = ctx.choice([5, 1, 20], "n-candidates")
    nr = ctx.integer(1, 2, "n-restarts")
    o["n_candidates"], o["n_restarts"] = nc, nr
    vt = ctx.choice([None, 1e-2, 1e-4, 0.3], "var_tol", [3, 1, 1, 1])
    rt = ctx.choice([None, 1e-1, 1e-2], "rel_tol", [4, 1, 1])
    if vt is not None:
        o["var_tol"] = vt
    if rt is not None:
        o["rel_tol"] = rt
    seed = ctx.subseed("rng")
    api = ctx.choice(["front", "class"], "api")
    ctx.event("policies", policy=name, design=design, kernel=mod.kind, measure=mod.mkind, d=mod.d, bs=bs, max_evals=maxe)

    def run():
        rng = np.random.default_rng(seed)
        before = copy.deepcopy(o)
        if api == "front":
            F, info = quad.bayesquad(fun, mod.d, kernel=kernel, measure=measure, policy=name, initial_design=design, rng=rng, options=o)
        else:
            bq = BayesianQuadrature.from_problem(mod.d, kernel=kernel, measure=measure, policy=name, initial_design=design, options=o)
            F, _, info = bq.integrate(fun, None, None, rng)
        ctx.check(o == before, "options-modified", "the options dictionary was modified")
        return F, info

    try:
        F, info = run()
    except RuntimeError as exc:
        if "could not find a suitable maximizer" in str(exc):
            raise Discard("optimizer failure")
        raise
    X = fun.seen(mod.d)
    n = len(X)
    k0 = nd if design else 0
    ctx.steps += info.iteration
    ctx.simtime += info.iteration
    # how the integrand is called (one batch at a time or node by node) is not prescribed
    ctx.check(n >= k0 and n - k0 == bs * info.iteration, "batch-size",
              f"{n} nodes evaluated: initial design {k0}, {info.iteration} batches of {bs} requested")
    its = range(info.iteration)
    ctx.check(info.nevals == n and info.has_converged, "info", f"{info}: {n} evaluations")
    posts = [Post(mod, X[:k0 + bs * i], fun.f(X[:k0 + bs * i]), jitter, scale) for i in range(len(its) + 1)]
    check_belief(F, posts[-1], "final belief")
    # stopping: exactly at the first state at which one of the requested criteria holds
    for i, p in enumerate(posts):
        last = i == len(posts) - 1
        verdict = p.n >= maxe
        near = False
        if vt is not None:
            verdict |= p.var <= vt
            near |= abs(p.var - vt) <= 1e-6 * vt
        if rt is not None and (i > 0 or design):
            prev = posts[i - 1].mean if i > 0 else 0.0
            rel = abs(p.mean - prev) / max(abs(p.mean), 1e-300)
            verdict |= rel <= rt
            near |= abs(rel - rt) <= 1e-6 * rt or abs(p.mean) < 1e-9
        if near:
            raise Discard("criterion within rounding of its tolerance")
        ctx.check(bool(verdict) == last, "stopped-early" if last else "stopped-late",
                  f"iteration {i} of {len(its)}: nevals {p.n}/{maxe}, var {p.var:.3g}/{vt}")
    # selection
    if mod.mkind == "leb":
        ctx.check(bool(np.all(X >= mod.lo - 1e-9) and np.all(X <= mod.hi + 1e-9)), "outside-domain", "a node lies outside the integration domain")
    log = list(measure.log)
    measure.log.clear()
    if design == "mc":
        ctx.check(bool(log) and np.array_equal(log.pop(0), X[:nd]), "mc-design", "initial design is not the drawn sample")
    if design == "latin":
        for j in range(mod.d):
            bins = np.floor((X[:nd, j] - mod.lo[j]) / (mod.hi[j] - mod.lo[j]) * nd).astype(int)
            ctx.check(sorted(bins) == list(range(nd)), "latin-design", f"strata {sorted(bins)} in dimension {j}")
    for i in range(len(its)):
        new = X[k0 + bs * i:k0 + bs * (i + 1)]
        p = posts[i]
        if name == "bmc":
            ctx.check(i < len(log) and np.array_equal(log[i], new), "bmc", "nodes are not the drawn sample")
        elif name == "vdc":
            want = np.array([vdc(p.n + 1 + k) for k in range(bs)]) * (mod.hi[0] - mod.lo[0]) + mod.lo[0]
            ref.close(new[:, 0], want, "vdc", f"iteration {i}", 1e-12, 1e-12)
        else:
            cand = log[i] if i < len(log) else None
            ctx.check(cand is not None and len(cand) == (nr if opt else nc), "candidates", "number of candidates drawn")
            acq = name.split("_")[0]
            both = p.acquisition(acq, np.concatenate([new, cand], 0))
            if not opt:
                ctx.check(bool(np.any(np.all(cand == new, 1))), "candidate", "the selected node is none of the candidates")
            ctx.check(both[0] >= np.max(both[1:]) * (1 - 1e-4) - 1e-6, "acquisition",
                      f"iteration {i}: selected value {both[0]:.6g}, best candidate {np.max(both[1:]):.6g}")
            ctx.probe("acquisitions_judged")
    # same generator state -> same result
    if ctx.flag(0.5, "again"):
        fun.log.clear()
        run()
        rerun_equal(ctx, fun.seen(mod.d), X, "same seed, other nodes")


# -- 3. fixed data ----------------------------------------------------------------------
def fixed(ctx):
    mod, kernel, measure = draw_problem(ctx, recording=False)
    jitter = ctx.choice([1e-8, 1e-6, 1e-3], "jitter")
    scale = ctx.choice(["mle", None], "scale")
    o = dict(scale_estimation=scale, jitter=jitter)
    if jitter == 1e-8 and ctx.flag(0.5, "default-jitter"):
        del o["jitter"]
    if scale == "mle" and ctx.flag(0.5, "default-scale"):
        del o["scale_estimation"]
    if not o and ctx.flag(0.5, "no-options"):
        o = None
    L = ctx.integer(1, 3, "levels")
    rs = ctx.rs("nodes")
    shared = ctx.flag(0.3, "shared-nodes")
    nodes, evals, posts = [], [], []
    for l in range(L):
        if l == 0 or not shared:
            X = np.stack([draw_node(ctx, mod, rs) for _ in range(ctx.integer(1, 6, "n"))])
            nodes.append(X)
        fun = Integrand(ctx, mod.d)
        evals.append(fun.f(X))
        posts.append(Post(mod, X, evals[-1], jitter, scale))
    default_kernel = mod.kind == "expquad" and mod.ell[0] == 1.0 and ctx.flag(0.7, "default-kernel")
    use_domain = mod.mkind == "leb" and not measure.normalized and ctx.flag(0.5, "use-domain")
    where = dict(domain=(mod.lo.copy(), mod.hi.copy())) if use_domain else dict(measure=measure)
    ctx.steps += L
    copies = [x.copy() for x in nodes], [e.copy() for e in evals]
    if L == 1 and ctx.flag(0.5, "plain"):
        F, info = quad.bayesquad_from_data(nodes[0], evals[0], kernel=None if default_kernel else kernel, options=o, **where)
        infos = (info,)
    else:
        kernels = None
        if not default_kernel:
            kernels = tuple(copy.deepcopy(kernel) for _ in range(L))
        F, infos = quad.multilevel_bayesquad_from_data(tuple(nodes), tuple(evals), kernels=kernels, options=o, **where)
    ctx.event("fixed", levels=L, kernel=mod.kind, measure=mod.mkind, d=mod.d)
    ctx.check(len(infos) == L and [i.nevals for i in infos] == [p.n for p in posts], "info", "evaluations per level")
    for p in posts:
        if p.cond > 1e11:
            raise Discard("ill-conditioned Gram matrix")
    r = max(tol(p) for p in posts)
    sf = sum(p.wnorm for p in posts) + 1e-3
    ref.close(F.mean, np.asarray(sum(p.mean for p in posts)), "integral-mean", "fixed data", r, r * sf, scale=sf)
    sv = sum(p.scale * p.kvar for p in posts)
    ref.close(F.var, np.asarray(sum(p.var for p in posts)), "integral-variance", "fixed data", r, r * sv + 1e-14, scale=sv)
    for a, b in zip(copies[0] + copies[1], nodes + evals):
        ctx.check(np.array_equal(a, b), "input-modified", "caller's data were modified")


SCENARIOS = {"loop": (loop, 5), "policies": (policies, 4), "fixed": (fixed, 2)}


def nontrivial(ctx):
    return bool(ctx.faults) or ctx.steps > 1
