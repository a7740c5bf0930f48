"""C04: random draws follow the object's law and depend only on the given generator."""
import numpy as np
import scipy.stats

from probnum import diffeq, filtsmooth, functions, linops, problems, randprocs, randvars
from probnum.diffeq import odefilter, perturbed
from probnum.problems.zoo import filtsmooth as fz
from probnum.problems.zoo import linalg as lz

from .. import ode, ref, seams, ssm
from ..core import Discard, Violation
from ..script import ScriptedGen, Unscriptable, affine

mk = randprocs.markov
SIZES = [(), 3, (2,), (2, 3), 1, (1, 2), (2, 1, 2)]


def _as_shape(size):
    return (int(size),) if np.ndim(size) == 0 else tuple(size)


def _law(ctx, draw, size, out_shape, mean, cov, what, tol=1.0, exact_shape=True):
    """draw(rng) must be an affine image of iid standard normals with law N(1 x mean, I x cov)."""
    size = _as_shape(size)
    base = seams.global_rng_state()
    probe = np.asarray(draw(np.random.default_rng(5)), float)
    want = size + tuple(out_shape)
    if exact_shape:
        ctx.check(probe.shape == want, "shape", lambda: f"{what}: sample has shape {probe.shape}, wanted {want}")
    else:  # dimensions of length one in ``size`` may be dropped (pinned by the existing tests)
        squeezed = tuple(s for s in size if s != 1) + tuple(out_shape)
        ctx.check(probe.shape in (want, squeezed), "shape", lambda: f"{what}: sample has shape {probe.shape}, wanted {want}")
    try:
        a, B = affine(lambda g: draw(g))
        z = ctx.rs("z").standard_normal(B.shape[1])
        x = np.asarray(draw(ScriptedGen(z=z)), float).ravel()
    except Unscriptable:
        ctx.probe("unscriptable")
        raise Discard("draws base variables the script does not model") from None
    k = int(np.prod(size)) if size else 1
    mean = np.ravel(ref.arr(mean))
    cov = ref.arr(cov).reshape(mean.size, mean.size)
    ref.close(a, np.tile(mean, k), "mean", what + ": centre of the draws", 1e-6 * tol, 1e-8 * tol)
    C = B @ B.T
    ref.close(C, np.kron(np.eye(k), cov), "covariance", what + f": covariance of {k} draws", 2e-6 * tol, 1e-8 * tol)
    ref.close(x, a + B @ z, "affine", what + ": draw is not an affine function of the base randomness", 1e-6 * tol, 1e-8 * tol)
    ctx.check(seams.global_rng_state() == base, "global-rng", what + ": the global random state was touched")
    ctx.check(not ctx.probes.get("ambient_entropy_requests"), "fresh-entropy", what + ": fresh entropy was requested")
    ctx.steps += B.shape[1] + 3


def _spd(rs, n, rank=None):
    A = rs.uniform(-0.6, 0.6, (n, n))
    A = A @ A.T + 0.2 * np.eye(n)
    if rank is not None and rank < n:
        U = rs.uniform(-1, 1, (n, rank))
        return U @ U.T
    return A


def _symmetrised(rv, C):
    """A variable with covariance A (x)_s A lives on symmetric matrices (documented): law Gamma C Gamma."""
    cov = getattr(rv, "cov", None)
    if not (isinstance(cov, linops.SymmetricKronecker) and cov.identical_factors):
        return C
    n = int(round(np.sqrt(C.shape[0])))
    G = np.zeros((n * n, n * n))
    for i in range(n):
        for j in range(n):
            G[i * n + j, i * n + j] += 0.5
            G[i * n + j, j * n + i] += 0.5
    return G @ C @ G


def draw_normal(ctx, depth=0):
    """(rv, mean array, dense cov) -- the reference law is computed independently with numpy."""
    rs = ctx.rs("rv")
    kind = ctx.choice(["vector", "scalar", "matrix", "linop-cov", "kron", "symkron", "symkron2", "one", "singular", "given-chol", "linop-mean"],
                      "kind", [4, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1])
    if kind == "scalar":
        m, v = float(rs.uniform(-2, 2)), float(rs.uniform(0.1, 2))
        return randvars.Normal(m, v), np.array(m), np.array([[v]])
    if kind in ("vector", "one", "singular", "given-chol"):
        n = 1 if kind == "one" else ctx.integer(2, 4, "n")
        m = rs.uniform(-2, 2, n)
        C = _spd(rs, n, n - 1 if kind == "singular" else None)
        if kind == "given-chol":
            return randvars.Normal(m, C, cov_cholesky=np.linalg.cholesky(C)), m, C
        return randvars.Normal(m, C), m, C
    if kind == "matrix":
        sh = ctx.choice([(2, 2), (1, 3), (3, 1), (2, 3)], "shape")
        m = rs.uniform(-2, 2, sh)
        C = _spd(rs, m.size)
        return randvars.Normal(m, C), m, C
    if kind == "linop-mean":
        m = rs.uniform(-1, 1, (2, 2))
        C = _spd(rs, 4)
        return randvars.Normal(linops.aslinop(m), linops.aslinop(C)), m, C
    if kind == "linop-cov":
        n = ctx.integer(1, 4, "n")
        m = rs.uniform(-2, 2, n)
        how = ctx.choice(["dense", "diag", "scaled", "sum", "block"], "op")
        if how == "block" and n < 2:
            how = "dense"
        C = _spd(rs, n)
        if how == "dense":
            op = linops.aslinop(C)
        elif how == "diag":
            C = np.diag(rs.uniform(0.1, 2, n))
            op = linops.aslinop(C)
        elif how == "scaled":
            op = 2.5 * linops.Identity(n)
            C = 2.5 * np.eye(n)
        elif how == "sum":
            op = linops.aslinop(C) + 0.5 * linops.Identity(n)
            C = C + 0.5 * np.eye(n)
        else:
            A, Bm = _spd(rs, 1), _spd(rs, n - 1)
            op = linops.BlockDiagonalMatrix(linops.aslinop(A), linops.aslinop(Bm))
            C = np.zeros((n, n))
            C[:1, :1], C[1:, 1:] = A, Bm
        return randvars.Normal(m, op), m, C
    if kind == "kron":
        p, q = ctx.integer(1, 2, "p"), ctx.integer(1, 3, "q")
        A, Bm = _spd(rs, p), _spd(rs, q)
        mat = ctx.flag(0.6, "matrix-mean")
        m = rs.uniform(-1, 1, (p, q)) if mat else rs.uniform(-1, 1, p * q)
        return randvars.Normal(m, linops.Kronecker(A, Bm)), m, np.kron(A, Bm)
    n = ctx.integer(1, 3, "n")
    A = _spd(rs, n)
    Bm = A if kind == "symkron" else _spd(rs, n)
    m = rs.uniform(-1, 1, (n, n))
    # the operator acts as X -> (A X B^T + B X A^T) / 2
    C = 0.5 * (np.kron(A, Bm) + np.kron(Bm, A))
    op = linops.SymmetricKronecker(A) if kind == "symkron" else linops.SymmetricKronecker(A, Bm)
    return randvars.Normal(m, op), m, C


def _derive(ctx, rv, m, C):
    """A random derived variable together with its law (numpy only)."""
    rs = ctx.rs("derive")
    ops = ["none", "neg", "shift", "scale", "sum", "diff"]
    if m.ndim == 1:
        ops += ["matmul", "slice", "index", "mask", "reshape"]
    if m.ndim == 2:
        ops += ["slice2", "transpose", "reshape2", "matmul2"]
    op = ctx.choice(ops, "derive", [4] + [1] * (len(ops) - 1))
    n = m.size
    structured = not isinstance(rv.cov, np.ndarray) and m.ndim > 0 and not np.isscalar(rv.cov)
    if op == "neg":
        return -rv, -m, C, op
    if op == "shift":
        c = rs.uniform(-1, 1, m.shape) if m.ndim else float(rs.uniform(-1, 1))
        return rv + c, m + c, C, op
    if op == "scale":
        s = float(rs.uniform(-2, 2))
        return s * rv, s * m, s * s * C, op
    if op in ("sum", "diff"):
        m2 = rs.uniform(-1, 1, m.shape)
        C2 = _spd(rs, n)
        if structured or isinstance(rv.mean, linops.LinearOperator):
            return rv, m, C, "none"
        other = randvars.Normal(m2 if m.ndim else float(m2), C2 if m.ndim else float(C2[0, 0]))
        return (rv + other, m + m2, C + C2, op) if op == "sum" else (rv - other, m - m2, C + C2, op)
    if op == "matmul":
        A = rs.uniform(-1, 1, (ctx.integer(1, 3, "rows"), n))
        if structured:
            return linops.aslinop(A) @ rv, A @ m, A @ C @ A.T, op
        return A @ rv, A @ m, A @ C @ A.T, op
    if op == "slice":
        s = slice(ctx.integer(0, n - 1, "a"), None)
        return rv[s], m[s], C[s, s], op
    if op == "index":
        i = ctx.integer(0, n - 1, "i")
        return rv[i], np.array(m[i]), C[i:i + 1, i:i + 1], op
    if op == "mask":
        mask = np.array([ctx.flag(0.6, "keep") for _ in range(n)])
        if not mask.any():
            mask[0] = True
        return rv[mask], m[mask], C[np.ix_(mask, mask)], op
    if op == "reshape":
        sh = (1, n) if n % 2 else (2, n // 2)
        return rv.reshape(sh), m.reshape(sh), C, op
    idx = np.arange(n).reshape(m.shape)
    if op == "slice2":
        key = (slice(None), slice(0, 1)) if ctx.flag(0.5, "col") else (0,)
        sub = idx[key].ravel()
        return rv[key], m[key], C[np.ix_(sub, sub)], op
    if op == "transpose":
        sub = idx.T.ravel()
        return rv.T, m.T, C[np.ix_(sub, sub)], op
    if op == "reshape2":
        return rv.reshape((n,)), m.ravel(), C, op
    if op == "matmul2" and not structured and not isinstance(rv.mean, linops.LinearOperator):
        A = rs.uniform(-1, 1, (m.shape[0], m.shape[0]))
        K = np.kron(A, np.eye(m.shape[1]))
        return A @ rv, A @ m, K @ C @ K.T, op
    return rv, m, C, "none"


def normal(ctx):
    """Gaussian random variables of all structures, and variables derived from them."""
    rv, m, C = draw_normal(ctx)
    try:
        rv, m, C, op = _derive(ctx, rv, m, C)
    except (NotImplementedError, TypeError, ValueError):
        raise Discard("operation not supported for this structure") from None
    size = ctx.choice(SIZES, "size")
    ctx.event("normal", op=op, shape=m.shape, size=size)
    ctx.sched(f"{op}{m.shape}{size}{type(rv.cov).__name__}")
    ctx.check(rv.shape == m.shape, "shape", f"{op}: variable has shape {rv.shape}, wanted {m.shape}")
    # the reported moments are the reference law
    dense = lambda x: np.asarray(x.todense()) if isinstance(x, linops.LinearOperator) else np.asarray(x)
    ref.close(dense(rv.mean), m, "reported-mean", f"{op}: reported mean", 1e-8, 1e-10)
    ref.close(dense(rv.cov).reshape(C.shape), C, "reported-cov", f"{op}: reported covariance", 1e-8, 1e-10)
    warm = ctx.choice(["none", "chol", "sample", "var"], "warm")
    if warm == "chol" and hasattr(rv, "cov_cholesky"):
        try:
            L = dense(rv.cov_cholesky).reshape(C.shape)
            if type(rv.cov) is not linops.SymmetricKronecker:
                ref.close(L @ L.T, C, "cholesky", f"{op}: Cholesky factor", 1e-6, 1e-8)
        except np.linalg.LinAlgError:
            pass
    elif warm == "sample":
        rv.sample(np.random.default_rng(3), size=2)
    elif warm == "var":
        ref.close(np.ravel(dense(rv.var)), np.diag(C), "var", "reported variance", 1e-8, 1e-10)
    ctx.fault("warm_" + warm)
    _law(ctx, lambda g: rv.sample(g, size=size), size, m.shape, m, _symmetrised(rv, C), f"Normal/{op}", exact_shape=False)


def generic(ctx):
    """Variables built by arithmetic, indexing and reshaping of others: every draw is the same function of independent draws
    of the operands, and every one of ``size`` draws uses its own."""
    rs = ctx.rs("gen")
    sh = ctx.choice([(2,), (2, 3), (), (3, 1)], "shape")
    n = int(np.prod(sh))

    def operand(tag):
        m = rs.uniform(0.5, 2, sh) if sh else float(rs.uniform(0.5, 2))
        C = _spd(rs, n)
        return randvars.Normal(m, C if sh else float(C[0, 0]))

    a, b = operand("a"), operand("b")
    op = ctx.choice(["mul", "div", "add", "sub", "abs", "mulc", "pow"], "op")
    c = rs.uniform(0.5, 2, sh) if sh else float(rs.uniform(0.5, 2))
    two = op in ("mul", "div", "add", "sub")
    f = dict(mul=lambda x, y: x * y, div=lambda x, y: x / y, add=lambda x, y: x + y, sub=lambda x, y: x - y,
             abs=lambda x, y: abs(x), mulc=lambda x, y: x * c, pow=lambda x, y: x ** 2)[op]
    try:
        rv = f(a, b)
    except (TypeError, NotImplementedError):
        raise Discard("unsupported") from None
    posts = []
    for _ in range(ctx.integer(0, 2, "npost")):
        posts.append(ctx.choice(["neg", "transpose", "index", "reshape", "slice", "mask"], "post"))
    idx = np.arange(n).reshape(sh)
    sign = 1.0
    for q in posts:
        cur = idx.shape
        if q == "neg":
            rv, sign = -rv, -sign
        elif q == "transpose":
            rv = rv.T if ctx.flag(0.5, "prop") else rv.transpose()
            idx = idx.T
        elif q == "index" and cur:
            k = ctx.integer(0, cur[0] - 1, "k")
            rv, idx = rv[k], np.asarray(idx[k])
        elif q == "slice" and cur:
            key = (slice(None),) * (len(cur) - 1) + (slice(0, 1),)
            rv, idx = rv[key], idx[key]
        elif q == "mask" and cur:
            mask = np.zeros(cur, bool)
            mask.flat[0] = mask.flat[-1] = True
            rv, idx = rv[mask], idx[mask]
        elif q == "reshape":
            rv, idx = rv.reshape((idx.size,)), idx.reshape((idx.size,))
    size = ctx.choice(SIZES, "size")
    shape = _as_shape(size)
    k = int(np.prod(shape)) if shape else 1
    ctx.sched(f"{op}{posts}{sh}{size}")
    ctx.event("generic", op=op, posts=posts, shape=sh, size=size)
    ctx.check(rv.shape == idx.shape, "shape", f"variable has shape {rv.shape}, wanted {idx.shape}")
    base = seams.global_rng_state()
    z = ctx.rs("z").standard_normal(2 * n * k)
    gaussian = isinstance(rv, randvars.Normal)  # closed form: checked by law
    try:
        g = ScriptedGen(z=z)
        out = np.asarray(rv.sample(g, size=size), float)
    except Unscriptable:
        raise Discard("unscriptable") from None
    ctx.steps += 5
    want_shape = shape + idx.shape
    squeezed = tuple(s for s in shape if s != 1) + idx.shape
    ctx.check(out.shape in (want_shape, squeezed), "shape", lambda: f"{op}{posts}: sample of shape {out.shape}, wanted {want_shape}")
    ctx.check(seams.global_rng_state() == base, "global-rng", "the global random state was touched")
    if gaussian:
        return
    ctx.check(g.nz == (2 if two else 1) * n * k, "independent", lambda: f"{op}: {g.nz} base variables for {k} draws of {n} entries")

    def sel(x, y):
        v = np.reshape(np.asarray(f(x, y), float), (k, n))
        return (sign * v[:, idx.ravel()]).reshape(out.shape)

    def draws(r, zz):
        return np.reshape(np.asarray(r.sample(ScriptedGen(z=zz), size=shape), float), (k, n) if sh else (k, 1)).reshape((k,) + sh)

    one = sel(draws(a, z[:n * k]), draws(b, z[n * k:]) if two else None)
    alt = sel(draws(a, z[n * k:]), draws(b, z[:n * k])) if two else one
    if not np.allclose(out, one, rtol=1e-9, atol=1e-11) and not np.allclose(out, alt, rtol=1e-9, atol=1e-11):
        raise Violation("function-of-draws", f"{op}{posts} size={size}: draws\n{out}\nwanted\n{one}")


def discrete(ctx):
    """Categorical: draws are support points selected with the reported probabilities."""
    rs = ctx.rs("cat")
    k = ctx.integer(1, 5, "k")
    p = rs.uniform(0.05, 1, k)
    if k > 1 and ctx.flag(0.3, "zero-prob"):
        p[0] = 0.0
    p = p / p.sum()
    sh = ctx.choice([(), (2,), (2, 2)], "shape")
    support = rs.uniform(-1, 1, (k,) + sh) if ctx.flag(0.8, "support") else None
    rv = randvars.Categorical(p, support=support)
    sup = np.arange(k) if support is None else support
    size = ctx.choice(SIZES, "size")
    shape = _as_shape(size)
    g = ScriptedGen(idx=ctx.rs("idx").randint(0, k, 50))
    try:
        out = rv.sample(g, size=size)
    except Unscriptable:
        raise Discard("choice not used") from None
    if len(g.choice_calls) != 1:
        raise Discard("choice not used once")
    call = g.choice_calls[0]
    ctx.check(call["p"] is not None and call["replace"], "law", "draws are not with replacement and the given probabilities")
    ref.close(call["p"], p, "law", "selection probabilities", 1e-12, 1e-14)
    want = sup[np.asarray(call["idx"]).reshape(shape)]
    ctx.check(np.shape(out) == np.shape(want), "shape", f"categorical sample of shape {np.shape(out)}, wanted {np.shape(want)}")
    ref.close(out, want, "support", "drawn support points", 0, 0)
    # resampling keeps the number of points, equal weights, points from the support
    g = ScriptedGen(idx=ctx.rs("idx2").randint(0, k, 50))
    new = rv.resample(g)
    ctx.check(len(new.probabilities) == k, "resample", "number of points changed")
    ref.close(new.probabilities, np.full(k, 1.0 / k), "resample", "weights after resampling", 1e-12, 1e-14)
    if len(g.choice_calls) == 1:
        ref.close(new.support, sup[np.asarray(g.choice_calls[0]["idx"])], "resample", "resampled points", 0, 0)
    ref.close(rv.probabilities, p, "unchanged", "probabilities after sampling", 0, 0)
    ctx.steps += 2
    ctx.sched(f"cat{k}{size}{sh}")
    c = randvars.Constant(sup[0])
    ref.close(c.sample(ScriptedGen(), size=size), np.broadcast_to(sup[0], shape + np.shape(sup[0])), "constant", "samples of a constant", 0, 0)


def gp(ctx):
    """Gaussian processes: samples at inputs have the process' mean and covariance there."""
    rs = ctx.rs("gp")
    d = ctx.choice([(), (1,), (2,)], "input")
    cf = randprocs.covfuncs
    kind = ctx.choice(["expquad", "matern", "linear", "white", "rq", "sum", "scaled"], "cov")
    k0 = cf.ExpQuad(input_shape=d, lengthscales=float(rs.uniform(0.4, 1.5)))
    if kind == "matern":
        k = cf.Matern(input_shape=d, nu=ctx.choice([0.5, 1.5, 2.5], "nu"), lengthscales=float(rs.uniform(0.4, 1.5)))
    elif kind == "linear":
        k = cf.Linear(input_shape=d, constant=0.3)
    elif kind == "white":
        k = cf.WhiteNoise(input_shape=d, sigma_sq=0.4)
    elif kind == "rq":
        k = cf.RatQuad(input_shape=d, lengthscale=1.0, alpha=1.3)
    elif kind == "sum":
        k = k0 + cf.WhiteNoise(input_shape=d, sigma_sq=0.1)
    elif kind == "scaled":
        k = 2.0 * k0
    else:
        k = k0
    if ctx.flag(0.5, "zero-mean"):
        mean = functions.Zero(input_shape=d, output_shape=())
        mf = lambda x: 0.0
    else:
        mf = lambda x: float(np.sum(np.sin(x)))
        mean = functions.LambdaFunction(lambda x: np.sum(np.sin(x), axis=tuple(range(-len(d), 0))) if d else np.sin(x),
                                        input_shape=d, output_shape=())
    proc = randprocs.GaussianProcess(mean=mean, cov=k)
    n = ctx.integer(1, 4, "n")
    X = rs.uniform(-2, 2, (n,) + d)
    size = ctx.choice(SIZES, "size")
    Kij = np.array([[float(k(X[i], X[j])) for j in range(n)] for i in range(n)])
    m = np.array([mf(x) for x in X])
    try:
        proc.sample(np.random.default_rng(0), args=X, size=())
    except (NotImplementedError, np.linalg.LinAlgError):
        raise Discard("unsupported") from None
    ctx.sched(f"{kind}{d}{n}{size}")
    _law(ctx, lambda g: proc.sample(g, args=X, size=size), size, (n,), m, Kij, f"GP/{kind}", exact_shape=False)


def _joint_block(J, mp, times):
    n = J.n
    idx = np.concatenate([np.arange(J.index(t) * n, (J.index(t) + 1) * n) for t in times]) if len(times) else np.zeros(0, int)
    return mp[0][idx], mp[1][np.ix_(idx, idx)]


def markov(ctx):
    """Sample paths of Markov processes and sequences have the joint law of the model."""
    t0 = ctx.choice([0.0, 1.5, -1.0], "t0")
    prior = ssm.draw_prior(ctx, t0, kinds=("iwp", "ioup", "matern", "ltisde", "seq", "seq_tv"))
    nt = ctx.integer(1, 4, "nt")
    t = t0 + (0.0 if ctx.flag(0.5, "at-t0") else 0.4)
    times = [t]
    for _ in range(nt - 1):
        t = t + ctx.choice([0.3, 0.05, 1.0], "gap")
        times.append(t)
    size = ctx.choice([(), 2, (2, 2), (1,)], "size")
    J = ssm.Joint(prior, times)
    if prior.discrete:
        # a sequence starts at its first argument
        p2 = type("P", (), dict(t0=times[0], n=prior.n, m0=prior.m0, P0=prior.P0, trans=staticmethod(prior.trans)))
        J = ssm.Joint(p2, times)
    m, P = _joint_block(J, (J.m, J.P), times)
    ctx.sched(f"{prior.kind}{nt}{size}")
    try:
        _law(ctx, lambda g: prior.process.sample(g, args=np.array(times), size=size), size, (nt, prior.n), m, P,
             f"{prior.kind} sample path", tol=3 * prior.tol)
    except np.linalg.LinAlgError:
        raise Discard("factorisation lost definiteness") from None
    if ctx.flag(0.3, "artificial") and prior.kind != "linsde":
        mm = ctx.integer(1, 2, "m")
        meas = ssm.draw_meas(ctx, prior.n, mm)
        H = np.zeros((nt * mm, nt * prior.n))
        z = np.zeros(nt * mm)
        R = np.zeros((nt * mm,) * 2)
        for k, t in enumerate(times):
            Hk, zk, Rk = meas.law(t)
            H[k * mm:(k + 1) * mm, k * prior.n:(k + 1) * prior.n] = Hk
            z[k * mm:(k + 1) * mm] = zk
            R[k * mm:(k + 1) * mm, k * mm:(k + 1) * mm] = Rk
        mo = np.concatenate([m, H @ m + z])
        Po = np.block([[P, P @ H.T], [H @ P, H @ P @ H.T + R]])

        def draw(g):
            s, o = mk.utils.generate_artificial_measurements(g, prior_process=prior.process, measmod=meas.model, times=np.array(times))
            return np.concatenate([np.ravel(s), np.ravel(o)])

        _law(ctx, draw, (), (len(mo),), mo, Po, f"{prior.kind} artificial measurements", tol=3 * prior.tol)


def posterior(ctx):
    """Samples of smoothing posteriors have the exact joint posterior law."""
    t0 = ctx.choice([0.0, 1.5], "t0")
    prior = ssm.draw_prior(ctx, t0, kinds=("iwp", "ioup", "matern", "ltisde", "seq_tv"), dmax=1)
    locs = ssm.draw_locations(ctx, t0, nmax=4)
    meas, obs, ys = [], [], []
    m = ctx.integer(1, 2, "m")
    model = ssm.draw_meas(ctx, prior.n, m)
    for t in locs:
        y = ctx.rs("y").uniform(-1, 1, m)
        ys.append(y)
        obs.append((t,) + tuple(model.law(t)) + (y,))
    qs = None
    if not prior.discrete and ctx.flag(0.7, "queries"):
        qs = []
        for _ in range(ctx.integer(1, 3, "nq")):
            how = ctx.choice(["inside", "grid", "beyond"], "q")
            if how == "inside" and len(locs) > 1:
                k = ctx.integer(0, len(locs) - 2, "k")
                qs.append(locs[k] + (locs[k + 1] - locs[k]) * ctx.choice([0.5, 0.25, 0.8], "th"))
            elif how == "grid":
                qs.append(ctx.choice(locs, "loc"))
            else:
                qs.append(locs[-1] + ctx.choice([0.3, 1.0], "ext"))
        order = ctx.choice(["sorted", "as-is"], "order")
        if order == "sorted":
            qs = sorted(qs)
    size = ctx.choice([(), 2, (2, 2), (1,)], "size")
    J = ssm.Joint(prior, locs + (qs or []))
    full = J.given(obs)
    targets = qs if qs is not None else locs
    mj, Pj = _joint_block(J, full, targets)
    prob = problems.TimeSeriesRegressionProblem(locations=np.array(locs), observations=np.array(ys), measurement_models=model.model)
    kal = filtsmooth.gaussian.Kalman(prior.process)
    ctx.sched(f"{prior.kind}{len(locs)}{size}{None if qs is None else len(qs)}")
    ctx.event("targets", n=len(targets), sorted=qs is None or qs == sorted(qs), dup=len(set(targets)) < len(targets))
    try:
        post, _ = kal.filtsmooth(prob)
        if ctx.flag(0.3, "query-before"):
            post(locs[0])
            post.sample(np.random.default_rng(1))
        t_arg = None if qs is None else np.array(qs)
        _law(ctx, lambda g: post.sample(g, t=t_arg, size=size), size, (len(targets), prior.n), mj, Pj,
             f"{prior.kind}/{prior.impl} posterior sample at {targets}", tol=20 * prior.tol)
    except np.linalg.LinAlgError:
        raise Discard("factorisation lost definiteness") from None


def odesol(ctx):
    """Samples of ODE-filter solutions: joint law of the calibrated smoother, for every diffusion model."""
    vec, ivp = ode.draw_ivp(ctx)
    q = ctx.integer(1, 2, "q")
    n = ctx.integer(2, 3, "nsteps")
    rule = ode.ScriptedSteps(ctx, (ivp.tmax - ivp.t0) / n, 0.9, ctx.choice([0.0, 0.3], "p_reject"), [1.0, 0.5, 1.5])
    prior = mk.integrator.IntegratedWienerProcess(initarg=ivp.t0, num_derivatives=q, wiener_process_dimension=vec.d,
                                                  forward_implementation="sqrt", backward_implementation="sqrt")
    diff = ctx.choice(["dynamic", "constant"], "diff")
    dm = (mk.continuous.PiecewiseConstantDiffusion(t0=ivp.t0) if diff == "dynamic" else mk.continuous.ConstantDiffusion())
    strat = odefilter.approx_strategies.EK0() if ctx.flag(0.5, "ek0") else odefilter.approx_strategies.EK1()
    solver = odefilter.ODEFilter(steprule=rule, prior_process=prior, approx_strategy=strat, diffusion_model=dm, with_smoothing=True)
    sol = solver.solve(ivp)
    locs = [float(x) for x in sol.locations]
    if len(locs) > 6 or vec.worst > 50:
        raise Discard("too long")
    qs = None
    if ctx.flag(0.6, "queries"):
        qs = []
        for _ in range(ctx.integer(1, 2, "nq")):
            k = ctx.integer(0, len(locs) - 1, "k")
            if k == len(locs) - 1:
                qs.append(locs[-1] + ctx.choice([0.1, 0.4], "ext"))
            else:
                qs.append(locs[k] + (locs[k + 1] - locs[k]) * ctx.choice([0.5, 0.2], "th"))
    targets = qs if qs is not None else locs
    kp = sol.kalman_posterior
    fp = kp.filtering_posterior
    T = sorted(set(locs + targets))
    d = vec.d
    N = d * (q + 1)

    reported = {}

    def s2(t):  # diffusion on the interval that starts at t, read off the reported filtering law
        k = max(i for i, l in enumerate(locs) if l <= t)
        if k not in reported:
            h = 0.5 * (locs[k + 1] - locs[k]) if k + 1 < len(locs) else 0.3
            Phi, Q = ref.iwp(q, d, h)
            D = ref.arr(fp(locs[k] + h).cov) - Phi @ ref.arr(fp.states[k].cov) @ Phi.T
            w = 1.0 / np.sqrt(np.diag(Q))
            Qw, Dw = Q * w * w[:, None], D * w * w[:, None]
            reported[k] = float(np.sum(Qw * Dw) / np.sum(Qw * Qw))
        return reported[k]

    laws = {}
    for t in T:
        if t > locs[-1]:
            break
        k = max(i for i, l in enumerate(locs) if l <= t)
        mk_, Pk = ref.arr(fp.states[k].mean), ref.arr(fp.states[k].cov)
        if t > locs[k]:
            Phi, Q = ref.iwp(q, d, t - locs[k])
            mk_, Pk = Phi @ mk_, Phi @ Pk @ Phi.T + s2(locs[k]) * Q
        laws[t] = (mk_, Pk)
    inner = [t for t in T if t <= locs[-1]]
    # joint law: backward chain from the last location, forward chain beyond it
    M = np.zeros(N * len(T))
    C = np.zeros((N * len(T),) * 2)
    sl = lambda k: slice(k * N, (k + 1) * N)
    K = len(inner) - 1
    M[sl(K)], C[sl(K), sl(K)] = laws[inner[K]]
    for k in range(K - 1, -1, -1):
        m0, P0 = laws[T[k]]
        Phi, Q = ref.iwp(q, d, T[k + 1] - T[k])
        Pp = Phi @ P0 @ Phi.T + s2(T[k]) * Q
        G = ref.eqsolve(Pp, Phi @ P0).T
        done = slice((k + 1) * N, (K + 1) * N)
        M[sl(k)] = m0 + G @ (M[sl(k + 1)] - Phi @ m0)
        C[sl(k), done] = G @ C[sl(k + 1), done]
        C[done, sl(k)] = C[sl(k), done].T
        C[sl(k), sl(k)] = P0 - G @ Pp @ G.T + G @ C[sl(k + 1), sl(k + 1)] @ G.T
    for k in range(K + 1, len(T)):
        Phi, Q = ref.iwp(q, d, T[k] - T[k - 1])
        before = slice(0, k * N)
        M[sl(k)] = Phi @ M[sl(k - 1)]
        C[sl(k), before] = Phi @ C[sl(k - 1), before]
        C[before, sl(k)] = C[sl(k), before].T
        C[sl(k), sl(k)] = Phi @ C[sl(k - 1), sl(k - 1)] @ Phi.T + s2(locs[-1]) * Q
    E0 = np.kron(np.eye(d), np.eye(q + 1)[:1])
    idx = [T.index(t) for t in targets]
    S = np.zeros((len(targets) * d, N * len(T)))
    for r, k in enumerate(idx):
        S[r * d:(r + 1) * d, sl(k)] = E0
    mj, Pj = S @ M, S @ C @ S.T
    size = ctx.choice([(), 2, (1, 2)], "size")
    ctx.simtime += locs[-1] - locs[0]
    ctx.sched(f"{diff}{len(locs)}{size}")
    t_arg = None if qs is None else np.array(qs)
    # ODE covariances are small: compare relative to their scale
    sc = max(float(np.max(np.abs(Pj))), 1e-30)
    if sc < 1e-9:
        raise Discard("degenerate covariance")
    scale = 1.0 / np.sqrt(sc)

    def draw(g):
        return np.asarray(sol.sample(g, t=t_arg, size=size)) * scale

    try:
        _law(ctx, draw, size, (len(targets), d), mj * scale, Pj / sc, f"ODE solution sample ({diff}, q={q})", tol=3e3)
    except np.linalg.LinAlgError:
        raise Discard("factorisation lost definiteness") from None


def perturbation(ctx):
    """Step perturbations: the documented laws (uniform around the step; log-normal with mean = the step)."""
    step = ctx.choice([0.1, 0.5, 0.01], "step")
    order = ctx.integer(1, 5, "order")
    ns = ctx.choice([1.0, 5.0, 0.1], "scale")
    size = ctx.choice([(), 3, (2, 2)], "size")
    shape = _as_shape(size)
    k = int(np.prod(shape)) if shape else 1
    kw = dict(step=step, solver_order=order, noise_scale=ns, size=size)
    try:
        if ctx.flag(0.5, "uniform"):
            u = ctx.rs("u").uniform(0, 1, k)
            got = perturbed.step.perturb_uniform(rng=ScriptedGen(u=u), **kw)
            w = ns * step ** (order + 0.5)
            want = (step - w + 2 * w * u).reshape(shape)
        else:
            z = ctx.rs("z").standard_normal(k)
            got = perturbed.step.perturb_lognormal(rng=ScriptedGen(z=z), **kw)
            s = 0.5 * np.log(1 + ns * step ** (2 * order))
            want = np.exp(np.log(step) - s + np.sqrt(2 * s) * z).reshape(shape)
    except Unscriptable:
        raise Discard("unscriptable") from None
    ref.close(np.asarray(got).reshape(shape), want, "perturbation", f"perturbed steps {kw}", 1e-9, 1e-12)
    ctx.steps += 1


# ---- several generators, interleaved -------------------------------------------------------------
def _samplers(ctx):
    """name -> factory() -> f(rng) -> array.  Every factory builds fresh objects."""
    p = ctx.subseed("params")

    def rs():
        return np.random.RandomState(p)

    def nrm():
        r = rs()
        return randvars.Normal(r.uniform(-1, 1, 3), _spd(r, 3))

    def cat():
        return randvars.Categorical(np.array([0.2, 0.5, 0.3]), support=np.arange(6.0).reshape(3, 2))

    def gpf():
        g = randprocs.GaussianProcess(mean=functions.Zero((), ()), cov=randprocs.covfuncs.ExpQuad(()))
        return lambda rng: g.sample(rng, args=np.linspace(0, 1, 3), size=2)

    def mkv():
        pr = mk.integrator.IntegratedWienerProcess(initarg=0.0, num_derivatives=1, wiener_process_dimension=1)
        return lambda rng: pr.sample(rng, args=np.array([0.0, 0.4, 1.0]), size=2)

    def regression(rng):
        pr = mk.MarkovProcess(initarg=0.0, initrv=randvars.Normal(np.ones(1), np.eye(1)),
                              transition=mk.continuous.LTISDE(np.array([[-0.5]]), np.zeros(1), np.eye(1)))
        mm = mk.discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), 0.1 * np.eye(1)))
        prob = problems.TimeSeriesRegressionProblem(locations=np.array([0.0, 0.5, 1.2]), observations=np.array([[0.1], [0.4], [-0.2]]),
                                                    measurement_models=mm)
        return pr, mm, prob

    def post():
        pr, mm, prob = regression(None)
        s, _ = filtsmooth.gaussian.Kalman(pr).filtsmooth(prob)
        return lambda rng: s.sample(rng, t=np.array([0.2, 0.5, 2.0]), size=2)

    def pf():
        pr, mm, prob = regression(None)
        imp = filtsmooth.particle.BootstrapImportanceDistribution(pr.transition)

        def run(rng):
            f = filtsmooth.particle.ParticleFilter(pr, imp, num_particles=5, rng=rng, resampling_percentage_threshold=0.7)
            pst, _ = f.filter(prob)
            return np.concatenate([np.ravel(s.support) for s in pst.states] + [np.ravel(s.probabilities) for s in pst.states])

        return run

    def odes():
        s = diffeq.probsolve_ivp(lambda t, y: -y, 0.0, 1.0, np.array([1.0]), adaptive=False, step=0.25)
        return lambda rng: s.sample(rng, t=np.array([0.3, 1.0]), size=2)

    def pert():
        def run(rng):
            s = diffeq.perturbsolve_ivp(lambda t, y: -y, 0.0, 1.0, np.array([1.0]), rng=rng, adaptive=False, step=0.25, method="RK45",
                                        perturb=ctx_pert)
            return s.states.mean
        return run

    ctx_pert = ctx.choice(["step-lognormal", "step-uniform"], "pert")

    def bq(policy, design):
        def make():
            from probnum.quad import bayesquad

            def run(rng):
                seen = []
                rv, info = bayesquad(fun=lambda x: (seen.append(np.array(x)), np.sin(x[:, 0]))[1], input_dim=1, domain=(0.0, 1.0), policy=policy, rng=rng,
                                         initial_design=design,
                                         options=dict(max_evals=7, n_initial_design_nodes=3, n_candidates=5, n_restarts=1))
                return np.concatenate([np.ravel(np.concatenate(seen)), [rv.mean, rv.cov]])
            return run
        return make

    def meas(kind):
        def make():
            from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure

            m = GaussianMeasure(mean=np.zeros(2), cov=np.diag([0.5, 1.0])) if kind == "gauss" else LebesgueMeasure(domain=(0.0, 2.0), input_dim=2)
            return lambda rng: m.sample(4, rng)
        return make

    def pls():
        from probnum.linalg.solvers import ProbabilisticLinearSolver, belief_updates, beliefs, information_ops, policies, stopping_criteria
        r = rs()
        A = _spd(r, 4) + np.eye(4)
        b = r.uniform(-1, 1, 4)
        sys_ = problems.LinearSystem(A, b)
        repl, prob = p % 2 == 0, ["uniform", "rownorm"][(p // 2) % 2]

        def run(rng):
            s = ProbabilisticLinearSolver(
                policy=policies.RandomUnitVectorPolicy(probabilities=prob, replace=repl),
                information_op=information_ops.ProjectedResidualInformationOp(),
                belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(),
                stopping_criterion=stopping_criteria.MaxIterationsStoppingCriterion(3))
            bel = beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(4), np.eye(4)), A=randvars.Constant(A), b=randvars.Constant(b))
            out, st = s.solve(bel, sys_, rng=rng)
            return np.concatenate([np.ravel(out.x.mean), np.ravel([a for a in st.actions if a is not None])])
        return run

    S = {
        "normal": lambda: (lambda rv: (lambda rng: rv.sample(rng, size=2)))(nrm()),
        "symkron": lambda: (lambda rv: (lambda rng: rv.sample(rng, size=2)))(randvars.Normal(np.eye(2), linops.SymmetricKronecker(_spd(rs(), 2)))),
        "categorical": lambda: (lambda rv: (lambda rng: rv.sample(rng, size=3)))(cat()),
        "resample": lambda: (lambda rv: (lambda rng: rv.resample(rng).support))(cat()),
        "scipy": lambda: (lambda rv: (lambda rng: rv.sample(rng, size=3)))(randvars.asrandvar(scipy.stats.gamma(a=2.0))),
        "scipy-discrete": lambda: (lambda rv: (lambda rng: rv.sample(rng, size=3)))(randvars.asrandvar(scipy.stats.binom(n=5, p=0.4))),
        "sum": lambda: (lambda rv: (lambda rng: rv.sample(rng, size=2)))(nrm() + 1.0),
        "product": lambda: (lambda rv: (lambda rng: rv.sample(rng, size=2)))(randvars.asrandvar(scipy.stats.gamma(a=2.0)) + randvars.asrandvar(scipy.stats.gamma(a=3.0))),
        "gp": gpf, "markov": mkv, "posterior": post, "particle": pf, "ode": odes, "perturbed": pert,
        "bq-bmc": bq("bmc", None), "bq-latin": bq("bmc", "latin"), "bq-mc-vdc": bq("vdc", "mc"), "bq-us-rand": bq("us_rand", None),
        "measure-gauss": meas("gauss"), "measure-lebesgue": meas("lebesgue"), "pls": pls,
        "spd": lambda: (lambda rng: lz.random_spd_matrix(rng, dim=3)),
        "sparse-spd": lambda: (lambda rng: lz.random_sparse_spd_matrix(rng, dim=4, density=0.5).toarray()),
        "linsys": lambda: (lambda rng: lz.random_linear_system(rng, lz.random_spd_matrix, dim=3).b),
        "car": lambda: (lambda rng: np.ravel(fz.car_tracking(rng=rng, timespan=(0.0, 1.0), step=0.5)[0].observations)),
        "pendulum": lambda: (lambda rng: np.ravel(fz.pendulum(rng=rng, timespan=(0.0, 0.05), step=0.01)[0].observations)),
        "ou": lambda: (lambda rng: np.ravel(fz.ornstein_uhlenbeck(rng=rng, time_grid=np.array([0.0, 0.5, 1.0]))[0].observations)),
    }
    return S


def streams(ctx):
    """Draws of several objects from several generators, interleaved arbitrarily: each generator's sequence of
    draws equals what it gives alone with fresh objects; nothing else random is read or advanced."""
    S = _samplers(ctx)
    names = sorted(S)
    used = [ctx.choice(names, "obj") for _ in range(ctx.integer(1, 3, "nobj"))]
    G = ctx.integer(1, 3, "ngen")
    seeds = [ctx.subseed("gen") for _ in range(G)]
    plan = [[] for _ in range(G)]
    shared = {n: S[n]() for n in set(used)}
    gens = [np.random.default_rng(s) for s in seeds]
    outs = [[] for _ in range(G)]
    base = seams.global_rng_state()
    for _ in range(ctx.integer(2, 7, "ndraw")):
        g, n = ctx.integer(0, G - 1, "g"), ctx.choice(used, "o")
        states = [repr(r.bit_generator.state) for r in gens]
        x = np.array(shared[n](gens[g]), float)
        ctx.sched(f"{g}{n}")
        ctx.steps += 1
        outs[g].append(x)
        plan[g].append(n)
        ctx.check(seams.global_rng_state() == base, "global-rng", f"{n}: the global random state was read or advanced")
        ctx.check(not ctx.probes.get("ambient_entropy_requests"), "fresh-entropy", f"{n}: fresh entropy was requested")
        for i, r in enumerate(gens):
            if i != g:
                ctx.check(repr(r.bit_generator.state) == states[i], "other-generator", f"{n}: a generator that was not passed in was advanced")
    if G > 1:
        ctx.fault("interleaved_generators")
    ctx.fault("shared_object_reuse")
    for g in range(G):
        rng = np.random.default_rng(seeds[g])
        for k, n in enumerate(plan[g]):
            y = np.array(S[n]()(rng), float)
            ref.close(outs[g][k], y, "reproducible", f"draw {k} of generator {g} ({n}) depends on the history of shared objects", 1e-7, 1e-9)
    ctx.event("plan", plan=";".join(",".join(p) for p in plan))


SCENARIOS = {"normal": (normal, 4), "discrete": (discrete, 1), "generic": (generic, 2), "gp": (gp, 1), "markov": (markov, 2), "posterior": (posterior, 3),
             "odesol": (odesol, 2), "perturbation": (perturbation, 1), "streams": (streams, 2)}


def nontrivial(ctx):
    return ctx.steps > 3
