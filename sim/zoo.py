"""A zoo of probnum value objects and the queries users make on them.

``KINDS[name] = build(rs, hook) -> (obj, queries)``; building twice from the same seed gives two
independent but equal objects.  ``queries`` is an ordered dict name -> callable() returning a list of
arrays.  ``hook()`` is called from user-supplied code (where the object has any).
"""
import numpy as np
import scipy.stats

from probnum import diffeq, filtsmooth, functions, linalg, linops, problems, quad, randprocs, randvars
from probnum.filtsmooth.gaussian import approx
from probnum.linalg.solvers import beliefs
from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
from probnum.quad.kernel_embeddings import KernelEmbedding
from probnum.randprocs import covfuncs

from . import ref

try:  # covariance operators: the supported path without the KeOps just-in-time compiler
    from probnum.randprocs.covfuncs import _covariance_linear_operator as _clo

    _clo._USE_KEOPS = False
except ImportError:
    pass

mk = randprocs.markov
KINDS = {}
GROUPS = {}


def kind(group, name):
    def deco(f):
        KINDS[name] = f
        GROUPS.setdefault(group, []).append(name)
        return f
    return deco


def A(x):
    return ref.arr(x)


def spd(rs, n, lo=0.5):
    M = rs.randn(n, n)
    return M @ M.T + lo * np.eye(n)


def rv_moments(rv):
    return [A(rv.mean), A(rv.cov)]


def sq(L):
    L = A(L)
    return L @ L.T


# -- linear operators -------------------------------------------------------------------
def op_queries(op, rs, square=True, sym=False):
    n, m = op.shape
    x, X, b = rs.randn(m), rs.randn(m, 2), rs.randn(n)
    B = rs.randn(n, 2)
    S = rs.randn(2, n, 2)
    q = {
        "matvec": lambda: [A(op @ x)],
        "matmat": lambda: [A(op @ X)],
        "call-axis": lambda: [A(op(X.T, axis=-1))],
        "rmatvec": lambda: [A(op.T @ b)],
        "rmul": lambda: [A(b @ op)],
        "todense": lambda: [A(op.todense())],
        "todense-nocache": lambda: [A(op.todense(cache=False))],
        "transpose-dense": lambda: [A(op.T.todense())],
        "rank": lambda: [A(op.rank())],
        "diagonal": lambda: [A(op.diagonal())],
        "cond": lambda: [A(op.cond())],
        "cond1": lambda: [A(op.cond(p=1))],
        "cond-inf": lambda: [A(op.cond(p=np.inf))],
        "cond-fro": lambda: [A(op.cond(p="fro"))],
        "scaled": lambda: [A((2.0 * op) @ x)],
        "negated": lambda: [A((-op).todense())],
        "sum": lambda: [A((op + op).todense())],
        "gram": lambda: [A((op.T @ op).todense())],
        "cast": lambda: [A(op.astype(np.float32).todense())],
    }
    if square:
        q.update({
            "eigvals": lambda: [np.sort(np.abs(np.asarray(op.eigvals())))],
            "det": lambda: [A(op.det())],
            "logabsdet": lambda: [A(op.logabsdet())],
            "trace": lambda: [A(op.trace())],
            "solve": lambda: [A(op.solve(b))],
            "solve-mat": lambda: [A(op.solve(B))],
            "solve-stack": lambda: [A(op.solve(S))],
            "inv": lambda: [A(op.inv() @ b)],
            "inv-dense": lambda: [A(op.inv().todense())],
            "inv-T": lambda: [A(op.inv().T @ b)],
            "symmetrize": lambda: [A(op.symmetrize().todense())],
        })
    if sym:
        q.update({
            "cholesky-lower": lambda: [A(op.cholesky(True).todense())],
            "cholesky-upper": lambda: [A(op.cholesky(False).todense())],
            "cholesky-flag": lambda: [A([float(bool(op.cholesky(True).is_lower_triangular)), float(bool(op.cholesky(False).is_upper_triangular))])],
            "cholesky-solve": lambda: [A(op.cholesky(True).solve(b))],
            "quadratic": lambda: [A(b @ op.solve(b))],
        })
    return q


def sym_op(rs, n):
    M = linops.Matrix(spd(rs, n))
    M.is_symmetric = True
    return M


@kind("linops", "matrix")
def _(rs, hook):
    op = linops.Matrix(rs.randn(3, 3) + 2.0 * np.eye(3))
    return op, op_queries(op, rs)


@kind("linops", "matrix-spd")
def _(rs, hook):
    op = sym_op(rs, 3)
    return op, op_queries(op, rs, sym=True)


@kind("linops", "matrix-indefinite")
def _(rs, hook):
    M = rs.randn(3, 3)
    op = linops.Matrix(M + M.T - 4.0 * np.eye(3) * (rs.rand() < 0.5) + np.diag([5.0, 0, -5.0]))
    op.is_symmetric = True
    return op, op_queries(op, rs, sym=True)


@kind("linops", "matrix-singular")
def _(rs, hook):
    v = rs.randn(3, 2)
    op = linops.Matrix(v @ v.T)
    q = op_queries(op, rs)
    for k in list(q):
        if "solve" in k or "inv" in k or k.startswith("cond") or k in ("logabsdet", "det"):
            del q[k]
    return op, q


@kind("linops", "matrix-exactly-singular")
def _(rs, hook):
    M = np.array(rs.randint(-3, 4, size=(3, 3)), dtype=float)
    M[rs.randint(3)] = 0.0  # the elimination meets an exact zero pivot
    op = linops.Matrix(M)
    q = op_queries(op, rs)
    for k in ("cond", "cond1", "cond-inf", "cond-fro", "rank", "eigvals"):
        del q[k]
    return op, q


@kind("linops", "matrix-rect")
def _(rs, hook):
    op = linops.Matrix(rs.randn(4, 2))
    return op, op_queries(op, rs, square=False)


@kind("linops", "matrix-triangular")
def _(rs, hook):
    op = linops.Matrix(np.tril(rs.randn(3, 3)) + 3.0 * np.eye(3))
    op.is_lower_triangular = True
    return op, op_queries(op, rs)


@kind("linops", "scaling")
def _(rs, hook):
    op = linops.Scaling(1.0 + rs.rand(), shape=(3, 3)) if rs.rand() < 0.4 else linops.Scaling(1.0 + rs.rand(3))
    return op, op_queries(op, rs, sym=True)


@kind("linops", "identity")
def _(rs, hook):
    op = linops.Identity(3)
    return op, op_queries(op, rs, sym=True)


@kind("linops", "selection")
def _(rs, hook):
    if rs.rand() < 0.5:
        op = linops.Selection(indices=(2, 0), shape=(2, 4))
    else:
        op = linops.Embedding(take_indices=(0, 1), put_indices=(3, 1), shape=(4, 2))
    q = op_queries(op, rs, square=False)
    return op, q


@kind("linops", "kronecker")
def _(rs, hook):
    if rs.rand() < 0.5:
        op = linops.Kronecker(sym_op(rs, 2), sym_op(rs, 2))
        return op, op_queries(op, rs, sym=True)
    op = linops.Kronecker(linops.Matrix(rs.randn(2, 2) + 2 * np.eye(2)), linops.Matrix(rs.randn(2, 2) + 2 * np.eye(2)))
    return op, op_queries(op, rs)


@kind("linops", "identity-kronecker")
def _(rs, hook):
    op = linops.IdentityKronecker(2, sym_op(rs, 2))
    return op, op_queries(op, rs, sym=bool(op.is_symmetric))


@kind("linops", "symmetric-kronecker")
def _(rs, hook):
    op = linops.SymmetricKronecker(sym_op(rs, 2)) if rs.rand() < 0.6 else linops.SymmetricKronecker(sym_op(rs, 2), sym_op(rs, 2))
    return op, op_queries(op, rs, square=False)


@kind("linops", "symmetrize")
def _(rs, hook):
    op = linops.Symmetrize(2)
    return op, op_queries(op, rs, square=False)


@kind("linops", "block-diagonal")
def _(rs, hook):
    op = linops.BlockDiagonalMatrix(sym_op(rs, 2), linops.Matrix(rs.randn(2, 2) + 2 * np.eye(2)))
    return op, op_queries(op, rs)


@kind("linops", "composite")
def _(rs, hook):
    P, Q = linops.Matrix(rs.randn(3, 3) + 3 * np.eye(3)), sym_op(rs, 3)
    v = rs.randint(6)
    op = [lambda: P @ Q, lambda: P + Q, lambda: 1.5 * P, lambda: -P, lambda: P.T @ Q @ P, lambda: Q + linops.Scaling(0.5 + rs.rand(3))][v]()
    return op, op_queries(op, rs)


@kind("linops", "inverse")
def _(rs, hook):
    P = sym_op(rs, 3) if rs.rand() < 0.5 else linops.Matrix(rs.randn(3, 3) + 3 * np.eye(3))
    op = P.inv()
    return op, op_queries(op, rs)


@kind("linops", "user-lambda")
def _(rs, hook):
    M = spd(rs, 3) if rs.rand() < 0.7 else rs.randn(3, 3) + 3 * np.eye(3)
    s = bool(np.allclose(M, M.T))

    def matmul(x):
        hook()
        return M @ x

    op = linops.LambdaLinearOperator((3, 3), np.float64, matmul=matmul)
    if s:
        op.is_symmetric = True
    return op, op_queries(op, rs, sym=s)


@kind("linops", "user-subclass")
def _(rs, hook):
    M = spd(rs, 3)

    class UserOp(linops.LinearOperator):
        def __init__(self):
            super().__init__((3, 3), np.float64)
            self.is_symmetric = True

        def _matmul(self, x):
            hook()
            return M @ x

        def _todense(self):
            hook()
            return M.copy()

    op = UserOp()
    return op, op_queries(op, rs, sym=True)


# -- random variables -------------------------------------------------------------------
def rv_queries(rv, rs, points, lin=None, vec=True):
    seed = rs.randint(1 << 20)
    q = {
        "mean": lambda: [A(rv.mean)], "cov": lambda: [A(rv.cov)], "var": lambda: [A(rv.var)], "std": lambda: [A(rv.std)],
        "sample": lambda: [A(rv.sample(np.random.default_rng(seed)))],
        "sample-5": lambda: [A(rv.sample(np.random.default_rng(seed + 1), size=5))],
        "shift": lambda: rv_moments(rv + 1.0), "scale": lambda: rv_moments(-2.0 * rv),
        "in-support": lambda: [A(rv.in_support(points[0]))],
    }
    return q


def normal_queries(rv, rs):
    shape = rv.shape
    x = A(rv.mean) + 0.3 * rs.randn(*shape)
    q = rv_queries(rv, rs, [x])
    q.update({
        "mode": lambda: [A(rv.mode)], "entropy": lambda: [A(rv.entropy)],
        "dense-mean": lambda: [A(rv.dense_mean)], "dense-cov": lambda: [A(rv.dense_cov)],
        "cov-cholesky": lambda: [A(rv.cov_cholesky)], "cov-cholesky-square": lambda: [sq(np.atleast_2d(A(rv.cov_cholesky)))],
        "pdf": lambda: [A(rv.pdf(x))], "logpdf": lambda: [A(rv.logpdf(x))],
        "shift-cholesky": lambda: [sq(np.atleast_2d(A((rv + 1.0).cov_cholesky)))],
        "scale-cholesky": lambda: [sq(np.atleast_2d(A((3.0 * rv).cov_cholesky)))],
        "sum-self-independent": lambda: rv_moments(rv + randvars.Normal(np.zeros(shape), np.eye(max(1, int(np.prod(shape)))) if shape else 1.0)),
        "interval": lambda: [A(rv.mean) - 2 * A(rv.std)],
    })
    if shape == ():
        q.update({"median": lambda: [A(rv.median)], "cdf": lambda: [A(rv.cdf(x))], "quantile": lambda: [A(rv.quantile(0.3))],
                  "logcdf": lambda: [A(rv.logcdf(x))]})
    elif len(shape) == 1:
        L = rs.randn(2, shape[0])
        Lop = linops.Matrix(L)
        q.update({"item": lambda: rv_moments(rv[0]), "slice": lambda: rv_moments(rv[:2]), "linmap": lambda: rv_moments(L @ rv),
                  "linmap-cholesky": lambda: [sq((L @ rv).cov_cholesky)], "linmap-op": lambda: rv_moments(Lop @ rv),
                  "reshape": lambda: rv_moments(rv.reshape((shape[0], 1)))})
    else:
        v = rs.randn(shape[1])
        q.update({"item": lambda: rv_moments(rv[0]), "entry": lambda: rv_moments(rv[0, 1]), "transpose": lambda: rv_moments(rv.transpose()),
                  "ravel": lambda: rv_moments(rv.reshape((-1,)))})
    return q


@kind("randvars", "normal-scalar")
def _(rs, hook):
    rv = randvars.Normal(rs.randn(), 0.3 + rs.rand())
    return rv, normal_queries(rv, rs)


@kind("randvars", "normal-vector")
def _(rs, hook):
    rv = randvars.Normal(rs.randn(3), spd(rs, 3))
    return rv, normal_queries(rv, rs)


@kind("randvars", "normal-linop")
def _(rs, hook):
    v = rs.randint(3)
    cov = [lambda: linops.Scaling(0.5 + rs.rand(3)), lambda: sym_op(rs, 3), lambda: linops.IdentityKronecker(1, sym_op(rs, 3))][v]()
    if v == 0 and rs.rand() < 0.5:
        cov = linops.Scaling(0.5 + rs.rand(), shape=(3, 3))
    rv = randvars.Normal(rs.randn(3), cov)
    return rv, normal_queries(rv, rs)


@kind("randvars", "normal-user-linop")
def _(rs, hook):
    M = spd(rs, 3)

    def matmul(x):
        hook()
        return M @ x

    op = linops.LambdaLinearOperator((3, 3), np.float64, matmul=matmul)
    op.is_symmetric = True
    rv = randvars.Normal(rs.randn(3), op)
    return rv, normal_queries(rv, rs)


@kind("randvars", "normal-matrix")
def _(rs, hook):
    rv = randvars.Normal(rs.randn(2, 2), spd(rs, 4))
    return rv, normal_queries(rv, rs)


@kind("randvars", "normal-kronecker")
def _(rs, hook):
    cov = linops.Kronecker(spd(rs, 2), spd(rs, 3)) if rs.rand() < 0.6 else linops.SymmetricKronecker(spd(rs, 2))
    shape = (2, 3) if cov.shape[0] == 6 else (2, 2)
    rv = randvars.Normal(rs.randn(*shape), cov)
    q = normal_queries(rv, rs)
    if cov.shape[0] == 4:  # degenerate law: no density
        for k in ("pdf", "logpdf", "entropy", "sum-self-independent"):
            q.pop(k, None)
        q.pop("cov-cholesky", None)
    else:
        x = rs.randn(3)
        q["matvec"] = lambda: rv_moments(rv @ x)
    return rv, q


@kind("randvars", "normal-linop-mean")
def _(rs, hook):
    rv = randvars.Normal(linops.Matrix(rs.randn(2, 2)), linops.Kronecker(spd(rs, 2), spd(rs, 2)))
    seed = rs.randint(1 << 20)
    x = rs.randn(2)
    q = {"mean": lambda: [A(rv.mean)], "dense-mean": lambda: [A(rv.dense_mean)], "dense-cov": lambda: [A(rv.dense_cov)],
         "sample": lambda: [A(rv.sample(np.random.default_rng(seed)))], "cov-cholesky": lambda: [A(rv.cov_cholesky)],
         "matvec": lambda: rv_moments(rv @ x), "std": lambda: [A(rv.std)]}
    return rv, q


@kind("randvars", "normal-derived")
def _(rs, hook):
    base = randvars.Normal(rs.randn(3), spd(rs, 3))
    if rs.rand() < 0.5:
        base.precompute_cov_cholesky()
    L = rs.randn(3, 3) + 2 * np.eye(3)
    rv = [lambda: L @ base, lambda: base + rs.randn(3), lambda: 2.0 * base, lambda: -base][rs.randint(4)]()
    q = normal_queries(rv, rs)
    q.pop("cov-cholesky", None)
    return rv, q


@kind("randvars", "constant")
def _(rs, hook):
    rv = randvars.Constant(rs.randn(3))
    q = rv_queries(rv, rs, [rv.support])
    return rv, q


@kind("randvars", "categorical")
def _(rs, hook):
    p = rs.rand(4) + 0.1
    rv = randvars.Categorical(p / p.sum(), support=rs.randn(4, 2))
    seed = rs.randint(1 << 20)
    q = {"mode": lambda: [A(rv.mode)], "sample": lambda: [A(rv.sample(np.random.default_rng(seed), size=6))],
         "pmf": lambda: [A(rv.pmf(rv.support[1]))], "probabilities": lambda: [A(rv.probabilities)],
         "resample": lambda: [A(rv.resample(np.random.default_rng(seed)).support)]}
    return rv, q


@kind("randvars", "user-defined")
def _(rs, hook):
    m, C = rs.randn(2), spd(rs, 2)
    seed = rs.randint(1 << 20)

    def u(v):
        def f(*a):
            hook()
            return v
        return f

    def sample(rng, size=()):
        hook()
        return m + rng.standard_normal(size + (2,))

    rv = randvars.ContinuousRandomVariable(shape=(2,), dtype=np.float64, mean=u(m.copy()), cov=u(C.copy()), mode=u(m + 1), median=None,
                                           var=u(np.diag(C).copy()), entropy=u(np.float64(1.5)), sample=sample, logpdf=lambda x: u(np.float64(-1.0))(x))
    q = {"mean": lambda: [A(rv.mean)], "cov": lambda: [A(rv.cov)], "mode": lambda: [A(rv.mode)], "var": lambda: [A(rv.var)], "std": lambda: [A(rv.std)],
         "entropy": lambda: [A(rv.entropy)], "sample": lambda: [A(rv.sample(np.random.default_rng(seed), size=3))],
         "pdf": lambda: [A(rv.pdf(m))], "logpdf": lambda: [A(rv.logpdf(m))], "sum": lambda: [A((rv + randvars.Constant(m)).mean)]}
    return rv, q


@kind("randvars", "scipy-wrapped")
def _(rs, hook):
    rv = randvars.asrandvar(scipy.stats.gamma(1.5 + rs.rand(), scale=2.0))
    seed = rs.randint(1 << 20)
    q = {"mean": lambda: [A(rv.mean)], "var": lambda: [A(rv.var)], "std": lambda: [A(rv.std)], "median": lambda: [A(rv.median)],
         "pdf": lambda: [A(rv.pdf(1.2))], "cdf": lambda: [A(rv.cdf(1.2))], "quantile": lambda: [A(rv.quantile(0.4))],
         "entropy": lambda: [A(rv.entropy)], "sample": lambda: [A(rv.sample(np.random.default_rng(seed), size=3))]}
    return rv, q


@kind("randvars", "list")
def _(rs, hook):
    from probnum.randvars import _RandomVariableList
    rv = _RandomVariableList([randvars.Normal(rs.randn(2), spd(rs, 2)) for _ in range(3)])
    q = {"mean": lambda: [A(rv.mean)], "cov": lambda: [A(rv.cov)], "var": lambda: [A(rv.var)], "std": lambda: [A(rv.std)], "mode": lambda: [A(rv.mode)],
         "item": lambda: rv_moments(rv[1]), "slice": lambda: [A(rv[:2].mean)], "cholesky": lambda: [A(rv[0].cov_cholesky)]}
    return rv, q


# -- state-space models -----------------------------------------------------------------
def _prior(rs, v, hook, impl):
    d = 1 + rs.randint(2)
    kw = dict(forward_implementation=impl, backward_implementation=impl)
    if v == 0:
        return mk.integrator.IntegratedWienerProcess(initarg=0.0, num_derivatives=1 + rs.randint(2), wiener_process_dimension=d, **kw)
    if v == 1:
        return mk.integrator.IntegratedOrnsteinUhlenbeckProcess(driftspeed=0.7, initarg=0.0, num_derivatives=1, wiener_process_dimension=d, **kw)
    if v == 2:
        return mk.integrator.MaternProcess(lengthscale=1.3, initarg=0.0, num_derivatives=1, wiener_process_dimension=d, **kw)
    n = 2
    F, L, u = 0.5 * rs.randn(n, n), rs.randn(n, 1), rs.randn(n) * (rs.rand() < 0.5)
    init = randvars.Normal(rs.randn(n), spd(rs, n))
    if v == 3:
        tr = mk.continuous.LTISDE(drift_matrix=F, force_vector=u, dispersion_matrix=L, **kw)
    else:
        def h(val):
            def f(t):
                hook()
                return val * (1.0 + 0.1 * t) if val is not L else val
            return f
        tr = mk.continuous.LinearSDE(state_dimension=n, wiener_process_dimension=1, drift_matrix_function=h(F), force_vector_function=h(u), dispersion_matrix_function=h(L))
    return mk.MarkovProcess(initarg=0.0, initrv=init, transition=tr)


def _transition_queries(tr, n, rs, discrete=False, sde=True):
    x = rs.randn(n)
    rv0, rv1 = randvars.Normal(rs.randn(n), spd(rs, n)), randvars.Normal(rs.randn(n), spd(rs, n))
    mout = tr.output_dim if discrete else n
    y = rs.randn(mout)
    rvo = randvars.Normal(rs.randn(mout), spd(rs, mout))
    kw = {} if discrete else {"dt": 0.4}
    q = {
        "forward-rv": lambda: rv_moments(tr.forward_rv(rv0, t=0.2, **kw)[0]),
        "forward-real": lambda: rv_moments(tr.forward_realization(x, t=0.2, **kw)[0]),
        "forward-rv-2": lambda: rv_moments(tr.forward_rv(rv1, t=0.2, **({} if discrete else {"dt": 0.9}))[0]),
        "forward-diffusion": lambda: rv_moments(tr.forward_rv(rv0, t=0.2, _diffusion=2.5, **kw)[0]),
        "forward-gain": lambda: (lambda r: rv_moments(r[0]) + [A(r[1].get("gain", 0.0))])(tr.forward_rv(rv0, t=0.2, compute_gain=True, **kw)),
        "backward-rv": lambda: rv_moments(tr.backward_rv(rvo, rv0, t=0.2, **kw)[0]),
        "backward-real": lambda: rv_moments(tr.backward_realization(y, rv1, t=0.2, **kw)[0]),
    }
    if discrete:
        q["predict-sample"] = lambda: [A(tr.forward_realization(x, t=0.7)[0].mean)]
    return q


@kind("markov", "sde-transition")
def _(rs, hook):
    p = _prior(rs, rs.randint(5), hook, ["classic", "sqrt", "joseph"][0] if rs.rand() < 0.5 else "sqrt")
    tr = p.transition
    n = p.initrv.shape[0]
    q = _transition_queries(tr, n, rs)
    if hasattr(tr, "discretise"):
        def disc(dt):
            d = tr.discretise(dt)
            return [A(d.transition_matrix), A(d.noise.mean), A(d.noise.cov)]
        q["discretise"] = lambda: disc(0.4)
        q["discretise-2"] = lambda: disc(0.15)
    if hasattr(tr, "proj2coord"):
        q["proj"] = lambda: [A(tr.proj2coord(0)), A(tr.proj2coord(1))]
        q["precon"] = lambda: [A(tr.precon(0.3)), A(tr.precon.inverse(0.3))]
    if hasattr(tr, "equivalent_discretisation_preconditioned"):
        q["equivalent"] = lambda: [A(tr.equivalent_discretisation_preconditioned.transition_matrix), A(tr.equivalent_discretisation_preconditioned.noise.cov)]
    return tr, q


def _disc_model(rs, hook, v):
    n, m = 2, 2
    H, R, b = rs.randn(m, n), spd(rs, m), rs.randn(m)
    if v == 0:
        return mk.discrete.LTIGaussian(transition_matrix=H, noise=randvars.Normal(b, R)), n
    if v == 1:
        def Hf(t):
            hook()
            return H * (1 + 0.1 * t)

        def nf(t):
            hook()
            return randvars.Normal(b, R * (1 + 0.1 * t))
        return mk.discrete.LinearGaussian(input_dim=n, output_dim=m, transition_matrix_fun=Hf, noise_fun=nf), n

    def g(t, x):
        hook()
        return np.tanh(H @ x) + b

    def dg(t, x):
        hook()
        return (1 - np.tanh(H @ x) ** 2)[:, None] * H

    def noise(t):
        hook()
        return randvars.Normal(np.zeros(m), R)
    m_ = mk.discrete.NonlinearGaussian(input_dim=n, output_dim=m, transition_fun=g, transition_fun_jacobian=dg, noise_fun=noise)
    if v == 2:
        return approx.DiscreteEKFComponent(m_), n
    return approx.DiscreteUKFComponent(m_), n


@kind("markov", "discrete-transition")
def _(rs, hook):
    tr, n = _disc_model(rs, hook, rs.randint(4))
    q = _transition_queries(tr, n, rs, discrete=True)
    if isinstance(tr, mk.discrete.LTIGaussian):
        q["matrix"] = lambda: [A(tr.transition_matrix), A(tr.noise.cov), A(tr.transition_matrix_fun(0.3)), A(tr.noise_fun(0.1).cov)]
        q["noise-sqrt"] = lambda: [A(tr.proc_noise_cov_cholesky)] if hasattr(tr, "proc_noise_cov_cholesky") else [A(tr.noise.cov_cholesky)]
    return tr, q


@kind("markov", "process")
def _(rs, hook):
    p = _prior(rs, rs.randint(4), hook, "classic" if rs.rand() < 0.5 else "sqrt")
    seed = rs.randint(1 << 20)
    q = {"sample": lambda: [A(p.sample(np.random.default_rng(seed), args=np.array([0.0, 0.3, 0.7])))],
         "sample-size": lambda: [A(p.sample(np.random.default_rng(seed), args=np.array([0.1, 0.4]), size=2))],
         "init": lambda: rv_moments(p.initrv), "init-cholesky": lambda: [A(p.initrv.cov_cholesky)]}
    return p, q


def _posterior(rs, hook, smooth):
    p = _prior(rs, rs.randint(5), hook, "classic" if rs.rand() < 0.5 else "sqrt")
    n = p.initrv.shape[0]
    H = rs.randn(1, n)
    meas = mk.discrete.LTIGaussian(transition_matrix=H, noise=randvars.Normal(np.zeros(1), np.array([[0.3]])))
    if rs.rand() < 0.4:
        R = spd(rs, n)
        init = randvars.Normal(rs.randn(n), R)
        p = mk.MarkovProcess(initarg=0.0, initrv=init, transition=p.transition)
    ts = np.array([0.0, 0.4, 0.9, 1.5])
    ys = rs.randn(4, 1)
    kal = filtsmooth.gaussian.Kalman(p)
    reg = problems.TimeSeriesRegressionProblem(observations=ys, locations=ts, measurement_models=[meas] * 4)
    return kal.filtsmooth(reg)[0] if smooth else kal.filter(reg)[0]


def _post_queries(post, rs):
    seed = rs.randint(1 << 20)
    q = {"states-mean": lambda: [A(post.states.mean)], "states-cov": lambda: [A(post.states.cov)], "states-std": lambda: [A(post.states.std)],
         "grid": lambda: rv_moments(post(0.4)), "between": lambda: rv_moments(post(0.6)), "beyond": lambda: rv_moments(post(1.9)),
         "vector": lambda: [A(post(np.array([0.1, 0.9, 1.2])).mean)], "item": lambda: rv_moments(post[1]),
         "locations": lambda: [A(post.locations)], "state-cholesky": lambda: [sq(post.states[2].cov_cholesky)]}
    if not isinstance(post, filtsmooth.gaussian.FilteringPosterior):
        q["sample"] = lambda: [A(post.sample(np.random.default_rng(seed)))]
        q["sample-at"] = lambda: [A(post.sample(np.random.default_rng(seed), t=np.array([0.2, 1.0])))]
        q["filtering"] = lambda: rv_moments(post.filtering_posterior(0.6))
    return q


@kind("posteriors", "filtering")
def _(rs, hook):
    post = _posterior(rs, hook, False)
    return post, _post_queries(post, rs)


@kind("posteriors", "smoothing")
def _(rs, hook):
    post = _posterior(rs, hook, True)
    return post, _post_queries(post, rs)


@kind("posteriors", "ode-solution")
def _(rs, hook):
    v = rs.randint(3)
    a = 0.5 + rs.rand()

    def f(t, y):
        return a * y * (1 - y)

    def df(t, y):
        return np.diag(a * (1 - 2 * y))
    y0 = np.array([0.2, 0.4])[: 1 + rs.randint(2)]
    seed = rs.randint(1 << 20)
    if v == 2:
        sol = diffeq.perturbsolve_ivp(f, 0.0, 1.0, y0, np.random.default_rng(3), adaptive=False, step=0.25)
    else:
        sol = diffeq.probsolve_ivp(f, 0.0, 1.0, y0, df=df, adaptive=False, step=0.25, algo_order=2, dense_output=v == 0,
                                   diffusion_model=["dynamic", "constant"][rs.randint(2)])
    q = {"states": lambda: [A(sol.states.mean)], "between": lambda: [A(sol(0.3).mean)], "grid": lambda: [A(sol(0.5).mean)],
         "vector": lambda: [A(sol(np.array([0.1, 0.6])).mean)], "item": lambda: [A(sol[1].mean)], "locations": lambda: [A(sol.locations)],
         "state-cov": lambda: [A(sol.states[2].cov)]}
    if v != 2:
        q["beyond"] = lambda: rv_moments(sol(1.2))
    if v == 0:
        q["sample"] = lambda: [A(sol.sample(np.random.default_rng(seed)))]
        q["sample-at"] = lambda: [A(sol.sample(np.random.default_rng(seed), t=np.array([0.1, 0.7])))]
    return sol, q


# -- Gaussian processes, functions, quadrature, linear solvers ----------------------------------
def _cov(rs, d=1):
    shape = () if d == 0 else (d,)
    v = rs.randint(9)
    E = covfuncs
    return [lambda: E.ExpQuad(shape, lengthscales=0.5 + rs.rand()), lambda: E.Matern(shape, nu=[0.5, 1.5, 2.5][rs.randint(3)], lengthscales=0.6 + rs.rand()),
            lambda: E.RatQuad(shape, lengthscale=0.7, alpha=1.2), lambda: E.Matern(shape, nu=3.5), lambda: E.Linear(shape, constant=0.3),
            lambda: E.Polynomial(shape, exponent=2), lambda: 1.5 * E.ExpQuad(shape) + E.WhiteNoise(shape, 0.2),
            lambda: E.Matern(shape, nu=1.7), lambda: E.Matern(shape, nu=4.5)][v]()


@kind("processes", "covfunc")
def _(rs, hook):
    d = rs.randint(3)
    k = _cov(rs, d)
    sh = () if d == 0 else (d,)
    X0, X1 = rs.randn(4, *sh), rs.randn(3, *sh)
    v = rs.randn(4)
    q = {"call": lambda: [A(k(X0, None))], "call-2": lambda: [A(k(X0[:3], X1))], "matrix": lambda: [A(k.matrix(X0))], "matrix-2": lambda: [A(k.matrix(X0, X1))],
         "linop": lambda: [A(k.linop(X0) @ v)], "linop-dense": lambda: [A(k.linop(X0, X1).todense())], "scaled": lambda: [A((2.0 * k).matrix(X0))],
         "sum": lambda: [A((k + k).matrix(X0))]}
    return k, q


@kind("processes", "product-matern")
def _(rs, hook):
    k = covfuncs.ProductMatern(input_shape=(2,), lengthscales=np.array([0.5, 1.2]), nus=np.array([0.5, 2.5]))
    X0 = rs.randn(4, 2)
    q = {"call": lambda: [A(k(X0, None))], "matrix": lambda: [A(k.matrix(X0))], "linop": lambda: [A(k.linop(X0).todense())]}
    return k, q


@kind("processes", "cov-operator")
def _(rs, hook):
    k = covfuncs.ExpQuad((2,), lengthscales=0.7) + covfuncs.WhiteNoise((2,), 0.5)
    op = k.linop(rs.randn(4, 2))
    op.is_symmetric = True
    return op, op_queries(op, rs, sym=True)


@kind("processes", "gaussian-process")
def _(rs, hook):
    d = 1 + rs.randint(2)
    k = covfuncs.ExpQuad((d,), lengthscales=0.8) + covfuncs.WhiteNoise((d,), 0.1)

    def m(x):
        hook()
        return np.sum(x, axis=-1)
    gp = randprocs.GaussianProcess(functions.LambdaFunction(m, input_shape=(d,), output_shape=()), k)
    X = rs.randn(3, d)
    seed = rs.randint(1 << 20)
    q = {"call": lambda: rv_moments(gp(X)), "mean": lambda: [A(gp.mean(X))], "cov": lambda: [A(gp.cov(X, None))], "std": lambda: [A(gp.std(X))],
         "var": lambda: [A(gp.var(X))], "sample": lambda: [A(gp.sample(np.random.default_rng(seed), X))],
         "sample-size": lambda: [A(gp.sample(np.random.default_rng(seed), X, size=2))]}
    return gp, q


@kind("processes", "function")
def _(rs, hook):
    c = rs.randn(3)

    def f(x):
        hook()
        return np.sin(x) * c

    F = functions.LambdaFunction(f, input_shape=(3,), output_shape=(3,))
    G = functions.LambdaFunction(lambda x: x**2, input_shape=(3,), output_shape=(3,))
    H = [lambda: F + G, lambda: 2.0 * F, lambda: F - G, lambda: -F + 3.0 * G][rs.randint(4)]()
    X = rs.randn(4, 3)
    q = {"call": lambda: [A(H(X[0]))], "batch": lambda: [A(H(X))], "derived": lambda: [A((H + F)(X[1]))]}
    return H, q


@kind("processes", "kernel-embedding")
def _(rs, hook):
    d = 1 + rs.randint(2)
    v = rs.randint(3)
    if v == 2:
        k = covfuncs.ProductMatern(input_shape=(d,), lengthscales=0.8, nus=1.5)
    else:
        k = covfuncs.ExpQuad((d,), lengthscales=0.8)
    meas = GaussianMeasure(rs.randn(d), spd(rs, d), input_dim=d) if v == 0 else LebesgueMeasure(domain=(0.0, 1.5), input_dim=d)
    emb = KernelEmbedding(k, meas)
    X = rs.rand(4, d)
    q = {"mean": lambda: [A(emb.kernel_mean(X))], "variance": lambda: [A(emb.kernel_variance())], "measure": lambda: [A(meas(X))],
         "measure-sample": lambda: [A(meas.sample(n_sample=3, rng=np.random.default_rng(2)))]}
    return emb, q


@kind("linsolve", "belief")
def _(rs, hook):
    n = 3
    Ainv = randvars.Normal(np.linalg.inv(spd(rs, n)), linops.SymmetricKronecker(spd(rs, n)) if rs.rand() < 0.5 else linops.Kronecker(spd(rs, n), spd(rs, n)))
    bel = beliefs.LinearSystemBelief(A=randvars.Normal(spd(rs, n), linops.Kronecker(spd(rs, n), spd(rs, n))), Ainv=Ainv, x=None, b=randvars.Constant(rs.randn(n)))
    x = rs.randn(n)
    q = {"x": lambda: rv_moments(bel.x), "x-std": lambda: [A(bel.x.std)], "Ainv-mean": lambda: [A(bel.Ainv.mean)], "A-mean": lambda: [A(bel.A.mean)],
         "b": lambda: [A(bel.b.mean)], "A-x": lambda: rv_moments(bel.A @ x), "x-sample": lambda: [A(bel.x.mean)]}
    return bel, q


@kind("linsolve", "solution")
def _(rs, hook):
    n = 3
    M = spd(rs, n, 1.0)
    b = rs.randn(n)
    x, Am, Ainv, _ = linalg.problinsolve(M, b)
    v = rs.randn(n)
    q = {"x": lambda: rv_moments(x), "Ainv": lambda: [A(Ainv.mean)], "A": lambda: [A(Am.mean)], "Ainv-v": lambda: [A((Ainv @ v).mean)],
         "x-std": lambda: [A(x.std)], "A-cov": lambda: [A(Am.cov)], "Ainv-dense": lambda: [A(Ainv.dense_mean)]}
    return x, q


def outcome(fn):
    """('ok', arrays) or ('raises', exception type name)."""
    try:
        return ("ok", [np.array(a, dtype=float, copy=True) for a in fn()])
    except (NotImplementedError, ValueError, TypeError, AttributeError, np.linalg.LinAlgError, IndexError, KeyError, AssertionError, RuntimeError, ArithmeticError) as exc:
        return ("raises", type(exc).__name__ + ": " + str(exc)[:120])


def build(name, seed, hook=lambda: None):
    rs = np.random.RandomState(seed)
    return KINDS[name](rs, hook)


def compare(got, want, rtol=1e-7):
    """None if equal, else a description."""
    if got[0] != want[0]:
        return f"{got[0]} {got[1] if got[0] == 'raises' else ''} instead of {want[0]} {want[1] if want[0] == 'raises' else ''}"
    if got[0] == "raises":
        return None if got[1].split(":")[0] == want[1].split(":")[0] else f"raises {got[1]} instead of {want[1]}"
    if len(got[1]) != len(want[1]):
        return "different number of outputs"
    for g, w in zip(got[1], want[1]):
        if g.shape != w.shape:
            return f"shape {g.shape} instead of {w.shape}"
        if g.size == 0:
            continue
        s = np.max(np.abs(np.where(np.isfinite(w), w, 0.0)))
        with np.errstate(all="ignore"):
            ok = (np.abs(g - w) <= 1e-9 + rtol * s) | (g == w) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            return f"got {ref._short(g)} instead of {ref._short(w)}"
    return None
