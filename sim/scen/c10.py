"""C10: the belief of a probabilistic linear solver == exact Gaussian conditioning after every step."""
import numpy as np
import scipy.sparse

from probnum import linalg, linops, problems, randvars
from probnum.linalg import solvers
from probnum.linalg.solvers import belief_updates, beliefs, information_ops, policies, stopping_criteria
from probnum.utils.linalg import double_gram_schmidt, gram_schmidt, modified_gram_schmidt

from .. import ref
from ..core import Discard, InjectedFault, Violation


# -- systems --------------------------------------------------------------------------
def draw_matrix(ctx, n, sym):
    rs = ctx.rs("A")
    lam = np.exp(rs.uniform(-1.2, 1.2, n))
    Q = np.linalg.qr(rs.standard_normal((n, n)))[0]
    if sym:
        A = Q @ np.diag(lam) @ Q.T
        return 0.5 * (A + A.T)
    Q2 = np.linalg.qr(rs.standard_normal((n, n)))[0]
    return Q @ np.diag(lam) @ Q2


def draw_spd(ctx, n, label, lo=0.3, hi=1.5):
    rs = ctx.rs(label)
    Q = np.linalg.qr(rs.standard_normal((n, n)))[0]
    C = Q @ np.diag(rs.uniform(lo, hi, n)) @ Q.T
    return 0.5 * (C + C.T)


def wrap(ctx, A, label, kinds=("array", "linop", "sparse")):
    k = ctx.choice(kinds, label)
    if k == "linop":
        return linops.aslinop(A.copy())
    if k == "sparse":
        return scipy.sparse.csr_matrix(A)
    return A.copy()


# -- scripted components --------------------------------------------------------------
class Scripted(policies.LinearSolverPolicy):
    """User-written policy: a given sequence of actions; optionally crashes."""

    def __init__(self, actions, crash_at=None):
        self.actions, self.crash_at, self.calls, self.offset = actions, crash_at, 0, 0

    def __call__(self, solver_state, rng=None):
        if self.crash_at == self.calls + self.offset:
            self.crash_at = None
            raise InjectedFault("policy")
        a = self.actions[self.calls + self.offset]
        self.calls += 1
        return a


class Noisy(information_ops.LinearSolverInformationOp):
    """User-written information operator: another one plus scripted noise; optionally crashes."""

    def __init__(self, inner, noise, crash_at=None):
        self.inner, self.noise, self.crash_at, self.k = inner, noise, crash_at, 0

    def __call__(self, solver_state):
        if self.crash_at == self.k:
            self.crash_at = None
            raise InjectedFault("information operator")
        self.k += 1
        return self.inner(solver_state) + self.noise[self.k - 1]


class Watch(stopping_criteria.LinearSolverStoppingCriterion):
    """Stops after a number of steps; records the belief it was shown."""

    def __init__(self, maxiter):
        self.maxiter, self.seen = maxiter, []

    def __call__(self, solver_state):
        self.seen.append((solver_state.step, solver_state.belief))
        return solver_state.step >= self.maxiter


def draw_actions(ctx, n, k):
    rs = ctx.rs("actions")
    out = []
    for i in range(k):
        kind = ctx.choice(["random", "unit", "repeat", "zero", "scaled"], "action", [6, 3, 1, 1, 1])
        if kind == "unit":
            a = np.zeros(n)
            a[ctx.integer(0, n - 1, "unit")] = 1.0
        elif kind == "repeat" and out:
            a = out[ctx.integer(0, len(out) - 1, "which")].copy()
        elif kind == "zero":
            a = np.zeros(n)
        elif kind == "scaled":
            a = ctx.choice([30.0, 2.0**-24, 2.0**-13, 2.0**-34], "scale") * rs.standard_normal(n)
        else:
            a = rs.standard_normal(n)
        if kind in ("repeat", "zero"):
            ctx.fault("uninformative_action")
        out.append(a)
    return out


def crash_plan(ctx, k):
    """None, or (component, step) of an injected crash after which the run is resumed from the last belief."""
    if k > 0 and ctx.flag(0.3, "crash"):
        return ctx.choice(["policy", "info", "abandon"], "crash-kind"), ctx.integer(0, k - 1, "crash-at")
    return None


def drive(ctx, make, prior, problem, k, plan, policy, info, rng=None):
    """Run (with one crash + resume) and return the per-step records [(belief, action, observation, residual)]."""
    recs = []
    done = 0
    resumed = False
    while True:
        stop = Watch(k - done)
        pls = make(stop)
        base = done
        first = True
        fresh = True
        try:
            for state in pls.solve_iterator(prior=prior, problem=problem, rng=rng):
                ctx.check(state.step == len(stop.seen), "stop-evaluated", f"step {state.step} reported after {len(stop.seen)} evaluations of the criterion")
                if first:
                    if not resumed:
                        recs.append((state.belief, None, None, residual_of(ctx, state)))
                    first = False
                else:
                    done += 1
                    ctx.steps += 1
                    recs.append((state.belief, np.asarray(state.actions[state.step - 1]), state.observations[state.step - 1], residual_of(ctx, state)))
                    ctx.check(len([a for a in state.actions if a is not None]) == state.step, "history", "number of recorded actions")
                if plan and plan[0] == "abandon" and done == plan[1] and not resumed:
                    ctx.fault("abandoned")
                    raise InjectedFault("abandoned")
            fresh = False
        except InjectedFault:
            ctx.fault("crash_" + plan[0])
        if not fresh:
            break
        if resumed:
            raise Violation("crash", "run ended twice")
        resumed = True
        prior = recs[-1][0]
        if isinstance(policy, Scripted):
            policy.offset, policy.calls = done, 0
        if isinstance(info, Noisy):
            info.k = done
    ctx.check(done == k, "steps", f"{done} steps instead of {k}")
    for s, b in stop.seen:
        want = recs[base + s][0] if base + s < len(recs) else None
        ctx.check(want is b, "stop-belief", f"criterion at step {s} was evaluated on another belief than the reported one")
    return recs


def residual_of(ctx, state):
    """The residual is a lazily computed attribute: consult it at some steps only."""
    return np.array(state.residual) if ctx.flag(0.6, "consult-residual") else None


def check_residuals(recs, A, b):
    for i, (bel, _, _, r) in enumerate(recs):
        if r is not None:
            ref.close(r, b - A @ ref.arr(bel.x.mean), "residual", f"residual after {i} steps", 1e-9, 1e-10, scale=np.linalg.norm(b))


def gauss(m, P, H, z, R):
    """Condition N(m,P) on z = H x + N(0,R) (pseudo-inverse of the Gram matrix)."""
    if len(z) == 0:
        return m, P, 1.0
    S = H @ P @ H.T + R
    S = 0.5 * (S + S.T)
    d = np.sqrt(np.maximum(np.diag(S), 1e-300))
    w, V = np.linalg.eigh(S / np.outer(d, d))
    keep = w > 1e-9
    amb = np.any((w > 1e-13) & (w < 1e-7))
    Si = (V[:, keep] / w[keep]) @ V[:, keep].T / np.outer(d, d)
    G = P @ H.T @ Si
    return m + G @ (z - H @ m), P - G @ H @ P, (np.inf if amb else w[keep].max() / w[keep].min() if keep.any() else 1.0)


def dependent(V, W):
    """Are the non-zero rows of V numerically dependent in the inner product W?  (the updates then divide by roundoff)"""
    V = np.array([v for v in V if np.any(v)])
    if not len(V):
        return False
    G = V @ W @ V.T
    d = np.sqrt(np.maximum(np.diag(G), 1e-300))
    return np.linalg.eigvalsh(G / np.outer(d, d))[0] < 1e-7


# -- 1. solution-based view -----------------------------------------------------------
def projected(ctx):
    n = ctx.choice([3, 2, 1, 4, 5], "n")
    sym = ctx.flag(0.5, "sym")
    A = draw_matrix(ctx, n, sym)
    b = ctx.rs("b").uniform(-2, 2, n)
    m0 = np.zeros(n) if ctx.flag(0.5, "zero-mean") else ctx.rs("m0").uniform(-1, 1, n)
    pc = ctx.choice(["spd", "identity", "Ainv", "singular", "linop"], "prior-cov")
    P0 = {"identity": lambda: np.eye(n), "Ainv": lambda: np.linalg.inv(A) if sym else np.eye(n)}.get(pc, lambda: draw_spd(ctx, n, "P0"))()
    if pc == "singular" and n > 1:
        u = np.eye(n)[0] if ctx.flag(0.5, "axis") else np.linalg.qr(ctx.rs("u").standard_normal((n, 1)))[0][:, 0]
        T = np.eye(n) - np.outer(u, u)
        P0 = T @ P0 @ T
    P0 = 0.5 * (P0 + P0.T)
    noise_var = ctx.choice([0.0, 0.01, 0.5], "noise_var", [3, 1, 1])
    k = ctx.integer(0, n + 2 if noise_var else n, "k")
    if pc == "singular" and noise_var == 0.0:
        k = min(k, n - 1)  # one direction more, and the data contradict the prior
    pol = ctx.choice(["scripted", "cg", "cg-reorth", "unit", "unit-norepl"], "policy")
    rng = np.random.default_rng(ctx.subseed("rng"))
    plan = crash_plan(ctx, k)
    if pol == "scripted":
        policy = Scripted(draw_actions(ctx, n, k), plan[1] if plan and plan[0] == "policy" else None)
    elif pol == "cg":
        policy = policies.ConjugateGradientPolicy()
    elif pol == "cg-reorth":
        fn = ctx.choice([gram_schmidt, modified_gram_schmidt, double_gram_schmidt], "reorth-fn")
        which = ctx.choice(["residual", "action", "both"], "reorth")
        policy = policies.ConjugateGradientPolicy(reorthogonalization_fn_residual=fn if which != "action" else None,
                                                  reorthogonalization_fn_action=fn if which != "residual" else None)
    else:
        policy = policies.RandomUnitVectorPolicy(probabilities=ctx.choice(["uniform", "rownorm"], "probs") if pol == "unit" else "uniform", replace=pol == "unit")
        if not policy.replace and k > n:
            k = n
    noisy = ctx.flag(0.3, "noisy-obs")
    eps = ctx.rs("eps").uniform(-0.3, 0.3, k + 1) if noisy and noise_var > 0 else np.zeros(k + 1)
    info = Noisy(information_ops.ProjectedResidualInformationOp(), eps, plan[1] if plan and plan[0] == "info" else None)
    Aobj = wrap(ctx, A, "A-type", ("array", "linop") if not (pol.startswith("unit") and getattr(policy, "probabilities", "") == "rownorm") else ("array",))
    prior = beliefs.LinearSystemBelief(x=randvars.Normal(m0.copy(), linops.aslinop(P0.copy()) if pc == "linop" else P0.copy()))
    ctx.event("setup", n=n, sym=sym, prior=pc, policy=pol, k=k, noise=noise_var, plan=plan)
    ctx.sched(f"{n}{sym}{pc}{pol}{k}{plan}")
    make = lambda stop: solvers.ProbabilisticLinearSolver(policy=policy, information_op=info, stopping_criterion=stop,
                                                          belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=noise_var))
    if noise_var == 0 and pol in ("cg", "unit") and (not plan or plan[0] == "abandon") and getattr(policy, "probabilities", "uniform") == "uniform" and ctx.flag(0.4, "ready-made"):
        make = lambda stop: (solvers.BayesCG if pol == "cg" else solvers.ProbabilisticKaczmarz)(stopping_criterion=stop)
    recs = drive(ctx, make, prior, problems.LinearSystem(A=Aobj, b=b.copy()), k, plan, policy, info, rng)
    check_residuals(recs, A, b)
    H, z = np.zeros((0, n)), np.zeros(0)
    for i, (bel, act, obs, _) in enumerate(recs):
        if act is not None:
            ctx.check(act.shape == (n,), "action-shape", f"action has shape {act.shape}")
            mprev = ref.arr(recs[i - 1][0].x.mean)
            want = act @ (b - A @ mprev) + eps[i - 1]
            ref.close(obs, want, "observation", f"observation {i}", 1e-8, 1e-9, scale=np.linalg.norm(act) * np.linalg.norm(b))
            # the observation is s'(b - A x_i) = s'A (x - x_i): a measurement of s'A x
            H = np.vstack([H, act @ A])
            z = np.append(z, act @ A @ mprev + float(obs))
            if pol.startswith("unit"):
                ctx.check(np.count_nonzero(act) == 1 and act.sum() == 1.0, "unit-action", lambda: f"action {act} is not a unit vector")
        m, P, cond = gauss(m0, P0, H, z, noise_var * np.eye(len(z)))
        if noise_var == 0 and dependent(H, P0):
            ctx.probe("dependent_tail")
            break
        if cond > 1e5:
            ctx.probe("ill_conditioned_tail")
            break
        ref.close(bel.x.mean, m, "belief-mean", f"mean of x after {i} steps ({pol})", 1e-8 * max(1, cond), 1e-9, scale=1 + np.abs(z).max(initial=0))
        ref.close(bel.x.cov, P, "belief-cov", f"covariance of x after {i} steps ({pol})", 1e-8 * max(1, cond), 1e-9, scale=np.abs(P0).max())
        if i > 0 and not plan and bel.Ainv is not None:
            # the estimate of the inverse is the covariance explained so far (it becomes inv(A) for the prior covariance inv(A))
            ref.close(bel.Ainv.mean, P0 - P, "inverse-estimate", f"estimate of the inverse after {i} steps ({pol})", 1e-8 * max(1, cond), 1e-9, scale=np.abs(P0).max())
    acts = [r[1] for r in recs if r[1] is not None]
    if pol == "unit-norepl" and not plan:
        ctx.check(len({int(np.argmax(a)) for a in acts}) == len(acts), "unit-replacement", "an action was repeated without replacement")
    if pol.startswith("cg") and sym and not plan and noise_var == 0 and pc != "singular":
        ip = A @ P0 @ A.T
        for i in range(len(acts)):
            for j in range(i):
                ni, nj = np.sqrt(acts[i] @ ip @ acts[i]), np.sqrt(acts[j] @ ip @ acts[j])
                if min(ni, nj) > 1e-4 * np.linalg.norm(b):
                    ctx.check(abs(acts[i] @ ip @ acts[j]) <= 1e-5 * ni * nj, "conjugacy", lambda: f"actions {j} and {i} are not conjugate: {acts[i] @ ip @ acts[j] / ni / nj:.2e}")
        if pc == "Ainv":
            for i, x in enumerate(cg(A, b, m0, k)):
                ref.close(recs[i][0].x.mean, x, "cg-iterates", f"iterate {i} differs from the conjugate gradient method", 1e-5, 1e-6)


def cg(A, b, x, k):
    out = [x]
    r = b - A @ x
    p = r
    for _ in range(k):
        if np.linalg.norm(r) < 1e-6 * np.linalg.norm(b):
            break
        a = (r @ r) / (p @ A @ p)
        x = x + a * p
        out.append(x)
        rn = r - a * A @ p
        p = rn + (rn @ rn) / (r @ r) * p
        r = rn
    return out


# -- 2./3. matrix-based view ----------------------------------------------------------
def symkron(W):
    n = len(W)
    K = np.kron(W, W).reshape(n, n, n, n)
    return 0.5 * (K + K.transpose(0, 1, 3, 2)).reshape(n * n, n * n)


def symproj(C, symm=True):
    """Covariance of the symmetric part (symmetric Kronecker products act on symmetric matrices)."""
    C = ref.arr(C)
    if not symm:
        return C
    n = int(round(np.sqrt(len(C))))
    T = C.reshape(n, n, n, n)
    T = 0.5 * (T + T.transpose(1, 0, 2, 3))
    T = 0.5 * (T + T.transpose(0, 1, 3, 2))
    return T.reshape(n * n, n * n)


def x_cov(got, B, PH, Hcov, symm, what, rtol, atol, scale):
    """Cov(H b).  True iff it is exactly the known defect (symmetric Kronecker product taken as the covariance on all matrices)."""
    try:
        ref.close(got, B @ PH @ B.T, "x-cov", what, rtol, atol, scale=scale)
    except Violation:
        if symm and ref.same(got, B @ ref.arr(Hcov) @ B.T, rtol, atol, scale=scale):
            return True
        raise
    return False


def cond_matrix(M0, C0, S, Y):
    """Condition vec(M) ~ N(vec M0, C0) (row-major) on M s_i = y_i for all i."""
    n = len(M0)
    if not S:
        return M0, C0, 1.0
    H = np.vstack([np.kron(np.eye(n), s[None, :]) for s in S])
    m, C, c = gauss(M0.ravel(), C0, H, np.concatenate(Y), np.zeros((n * len(S),) * 2))
    return m.reshape(n, n), C, c


def matrixview(ctx):
    n = ctx.choice([3, 2, 4, 1], "n")
    symm = ctx.flag(0.6, "symmetric-update")
    A = draw_matrix(ctx, n, symm or ctx.flag(0.5, "sym"))
    b = ctx.rs("b").uniform(-2, 2, n)
    given_b = True

    def prior_matrix(label):
        rs = ctx.rs(label)
        mean = np.eye(n) * rs.uniform(0.5, 1.5) if ctx.flag(0.5, label + "-scaled") else None
        if mean is None:
            mean = draw_spd(ctx, n, label + "m") if symm else np.eye(n) + 0.3 * rs.standard_normal((n, n))
        W = draw_spd(ctx, n, label + "W")
        if symm:
            rv = randvars.Normal(linops.aslinop(mean.copy()), linops.SymmetricKronecker(A=linops.aslinop(W.copy())))
            return rv, mean, symkron(W), W
        V = draw_spd(ctx, n, label + "V")
        rv = randvars.Normal(linops.aslinop(mean.copy()), linops.Kronecker(A=linops.aslinop(V.copy()), B=linops.aslinop(W.copy())))
        return rv, mean, np.kron(V, W), W

    Arv, A0, CA, WA = prior_matrix("pA")
    Hrv, H0, CH, WH = prior_matrix("pH")
    k = ctx.integer(0, n, "k")
    pol = ctx.choice(["scripted", "unit", "cg"], "policy")
    plan = crash_plan(ctx, k)
    policy = {"scripted": lambda: Scripted(draw_actions(ctx, n, k), plan[1] if plan and plan[0] == "policy" else None),
              "unit": lambda: policies.RandomUnitVectorPolicy(replace=False), "cg": policies.ConjugateGradientPolicy}[pol]()
    info = Noisy(information_ops.MatVecInformationOp(), np.zeros(k + 1), plan[1] if plan and plan[0] == "info" else None)
    upd = (belief_updates.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate if symm else belief_updates.matrix_based.MatrixBasedLinearBeliefUpdate)()
    front = ctx.flag(0.4, "front-end") and plan is None
    cls = solvers.SymMatrixBasedPLS if symm else solvers.MatrixBasedPLS
    kwp = {} if pol == "cg" and ctx.flag(0.5, "default-policy") else dict(policy=policy)
    make = (lambda stop: cls(stopping_criterion=stop, **kwp)) if front else (
        lambda stop: solvers.ProbabilisticLinearSolver(policy=policy, information_op=info, belief_update=upd, stopping_criterion=stop))
    # b: given as a constant, or only through an initial belief about x (the update then takes it from the problem)
    hasb = ctx.choice(["constant", "problem"], "b-belief")
    if hasb == "constant":
        prior = beliefs.LinearSystemBelief(A=Arv, Ainv=Hrv, b=randvars.Constant(b.copy()))
    else:
        prior = beliefs.LinearSystemBelief(A=Arv, Ainv=Hrv, x=randvars.Constant(H0 @ b))
    ctx.event("setup", n=n, symm=symm, policy=pol, k=k, plan=plan, front=front, b=hasb)
    ctx.sched(f"{n}{symm}{pol}{k}{plan}{front}{hasb}")
    rng = np.random.default_rng(ctx.subseed("rng"))
    Aobj = wrap(ctx, A, "A-type")
    recs = drive(ctx, make, prior, problems.LinearSystem(A=Aobj, b=b.copy()), k, plan, policy, info, rng)
    check_residuals(recs, A, b)
    S, Y = [], []
    unsym = False
    for i, (bel, act, obs, _) in enumerate(recs):
        if act is not None:
            ref.close(obs, A @ act, "observation", f"observation {i}", 1e-9, 1e-9, scale=np.linalg.norm(act))
            if pol != "scripted" and np.linalg.norm(act) < 1e-5 * np.linalg.norm(b):
                ctx.probe("converged_tail")
                break
            S.append(act)
            Y.append(A @ act)
        if dependent(S, WA) or dependent(Y, WH):
            ctx.probe("dependent_tail")
            break
        mA, PA, c1 = cond_matrix(A0, CA, S, Y)
        mH, PH, c2 = cond_matrix(H0, CH, Y, S)
        c = max(c1, c2)
        if c > 1e5:
            ctx.probe("ill_conditioned_tail")
            break
        tol = 1e-8 * max(1, c)
        what = f"after {i} steps ({pol}, symmetric={symm})"
        ref.close(bel.A.mean, mA, "A-mean", "mean of A " + what, tol, 1e-9, scale=3)
        ref.close(bel.Ainv.mean, mH, "Ainv-mean", "mean of the inverse " + what, tol, 1e-9, scale=3)
        ref.close(symproj(bel.A.cov, symm), PA, "A-cov", "covariance of A " + what, tol, 1e-9, scale=np.abs(CA).max())
        ref.close(symproj(bel.Ainv.cov, symm), PH, "Ainv-cov", "covariance of the inverse " + what, tol, 1e-9, scale=np.abs(CH).max())
        if i > 0 or hasb == "constant":
            ref.close(ref.arr(bel.b.mean), b, "b", "right-hand side " + what, 1e-12, 1e-12)
            B = np.kron(np.eye(n), b[None, :])
            ref.close(bel.x.mean, mH @ b, "x-mean", "mean of x " + what, tol, 1e-9, scale=3)
            unsym |= x_cov(bel.x.cov, B, PH, bel.Ainv.cov, symm, "covariance of x " + what, tol, 1e-8, np.abs(CH).max() * (1 + b @ b))
    if unsym:
        raise Violation("x-cov-unsymmetrised", "covariance of x = H b uses the Kronecker factors of a symmetric H without symmetrising")


# -- 4. problinsolve ------------------------------------------------------------------
def frontend(ctx):
    n = ctx.choice([3, 2, 4, 5], "n")
    A = draw_matrix(ctx, n, True)
    nrhs = 1
    b = ctx.rs("b").uniform(-2, 2, n)
    if np.linalg.norm(b) < 1e-2:
        raise Discard("zero right-hand side")
    kind = ctx.choice(["default", "x0", "Ainv0-rv", "A0-rv", "both", "Ainv0-mat"], "prior")
    kw = {}
    I = np.eye(n)

    def rv(label):
        mean, W = draw_spd(ctx, n, label + "m"), draw_spd(ctx, n, label + "W")
        return randvars.Normal(linops.aslinop(mean.copy()), linops.SymmetricKronecker(A=linops.aslinop(W.copy()))), mean, W

    A0m = A0W = H0m = H0W = None
    if kind == "default":
        A0m, A0W, H0m, H0W = I, A, I, I
    elif kind == "x0":
        x0 = np.linalg.solve(A, b) + 0.3 * ctx.rs("x0").uniform(-1, 1, n)
        if abs(x0 @ b) < 1e-2 * np.linalg.norm(x0) * np.linalg.norm(b):
            raise Discard("initial guess almost orthogonal to the right-hand side")
        turn = ctx.choice(["same", "negative", "zero"], "x0-side")
        x0 = x0 * np.sign(x0 @ b) * {"same": 1, "negative": -1, "zero": 0}[turn]
        kw["x0"] = x0.copy()
        # a guess in the wrong half space is reflected, a zero one replaced (documented)
        x0 = np.abs(np.sign(x0 @ b)) * x0 * np.sign(x0 @ b) if turn != "zero" else (b @ b) / (b @ A @ b) * b
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            xp, Ap, Hp, _ = linalg.problinsolve(A.copy(), b.copy(), x0=kw["x0"].copy(), maxiter=0)
        H0m, A0m = np.array(ref.arr(Hp.mean)), np.array(ref.arr(Ap.mean))
        H0W, A0W = H0m, A
        sc = 1 + np.abs(H0m).max()
        ref.close(H0m, H0m.T, "prior-x0", "prior mean of the inverse is not symmetric", 1e-9, 1e-10, scale=sc)
        ref.close(H0m @ b, x0, "prior-x0", "the prior built from an initial guess does not predict it (H0 b = x0)", 1e-8, 1e-10, scale=sc)
        ref.close(np.asarray(xp.mean).ravel(), x0, "prior-x0", "without iterations the initial guess is returned", 1e-8, 1e-10, scale=sc)
        ref.close(A0m @ H0m, np.eye(n), "prior-x0", "prior means of the matrix and of its inverse are not inverse to each other", 1e-7, 1e-9, scale=np.linalg.cond(H0m))
        ctx.check(np.linalg.eigvalsh((H0m + H0m.T) / 2)[0] > 0, "prior-x0", "prior mean of the inverse is not positive definite")
    elif kind == "Ainv0-mat":
        H0m = draw_spd(ctx, n, "H0")
        kw["Ainv0"] = wrap(ctx, H0m, "H0-type", ("linop", "array")) if False else linops.aslinop(H0m.copy())
        A0m, A0W, H0W = np.linalg.inv(H0m), A, H0m
    else:
        if kind in ("A0-rv", "both"):
            kw["A0"], A0m, A0W = rv("A0")
        if kind in ("Ainv0-rv", "both"):
            kw["Ainv0"], H0m, H0W = rv("H0")
        if H0m is None:
            H0m = H0W = np.linalg.inv(A0m)
        if A0m is None:
            A0m, A0W = np.linalg.inv(H0m), A
    if kind not in ("default", "x0") and ctx.flag(0.25, "x0-too"):
        kw["x0"] = ctx.rs("x0").uniform(-2, 2, n)  # documented to be ignored next to a matrix prior
    maxiter = ctx.integer(0, n, "maxiter")
    tol = ctx.choice([1e-6, 1e-2, 0.3], "tol")
    hist = []
    crash = ctx.integer(0, maxiter, "crash-at") if ctx.flag(0.2, "crash") else None

    def callback(xk, Ak, Ainvk, sk, yk, alphak, resid):
        hist.append((np.array(xk.mean), xk, Ak, Ainvk, np.array(sk).ravel(), np.array(yk).ravel(), float(np.squeeze(alphak)), np.array(resid).ravel()))
        if crash is not None and len(hist) == crash + 1:
            raise InjectedFault("callback")

    ctx.event("setup", n=n, prior=kind, maxiter=maxiter, tol=tol, crash=crash)
    ctx.sched(f"{n}{kind}{maxiter}{tol}")
    Aobj = wrap(ctx, A, "A-type", ("array", "linop"))
    shape2 = ctx.flag(0.3, "b-column")
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            x, Ak, Hk, info = linalg.problinsolve(Aobj, b[:, None].copy() if shape2 else b.copy(), maxiter=maxiter, atol=tol, rtol=tol, callback=callback, **kw)
        except InjectedFault:
            ctx.fault("crash_callback")
            x = None
    x0 = H0m @ b
    cur, r = x0, A @ x0 - b
    S, Y = [], []
    for i, (xm, xk, Abel, Hbel, s, y, a, resid) in enumerate(hist):
        ctx.steps += 1
        ref.close(y, A @ s, "observation", "observation is A times the action", 1e-7, 1e-9, scale=np.linalg.norm(s))
        if np.linalg.norm(r) < 1e-5 * np.linalg.norm(b):
            ctx.probe("converged_tail")
            break
        S.append(s)
        Y.append(y)
        cur = cur + a * s
        ref.close(xm, cur, "step", f"solution estimate {i + 1} is not the previous one plus the step", 1e-7, 1e-9, scale=1)
        r = A @ cur - b
        ref.close(resid, r, "residual", f"residual {i + 1}", 1e-6, 1e-8, scale=np.linalg.norm(b))
        ctx.check(abs(s @ r) <= 1e-5 * np.linalg.norm(s) * (np.linalg.norm(b) + 1), "line-search", lambda: f"step {i + 1} does not minimise along the action: s'r={s @ r:.2e}")
        if True:
            mA, PA, c1 = cond_matrix(A0m, symkron(A0W), S, Y)
            mH, PH, c2 = cond_matrix(H0m, symkron(H0W), Y, S)
            if max(c1, c2) < 1e4:
                t = 1e-7 * max(1, c1, c2)
                ref.close(Abel.mean, mA, "A-mean", f"mean of A after {i + 1} steps ({kind})", t, 1e-8, scale=3)
                ref.close(Hbel.mean, mH, "Ainv-mean", f"mean of the inverse after {i + 1} steps ({kind})", t, 1e-8, scale=3)
                ref.close(symproj(Abel.cov), PA, "A-cov", f"covariance of A after {i + 1} steps ({kind})", t, 1e-8, scale=3)
                ref.close(symproj(Hbel.cov), PH, "Ainv-cov", f"covariance of the inverse after {i + 1} steps ({kind})", t, 1e-8, scale=3)
                B = np.kron(np.eye(n), b[None, :])
                ref.close(xk.cov, B @ PH @ B.T, "x-cov", f"covariance of x after {i + 1} steps ({kind})", t, 1e-7, scale=3 * (1 + b @ b))
    if kind in ("default",):
        for i, xc in enumerate(cg(A, b, x0, len(hist))[1:]):
            if i < len(hist):
                ref.close(hist[i][0], xc, "cg-iterates", f"iterate {i + 1} differs from the conjugate gradient method", 1e-5, 1e-6)
    if x is None:
        return
    ctx.check(info["iter"] == len(hist) <= maxiter, "iterations", f"{info['iter']} iterations reported, {len(hist)} made, {maxiter} allowed")
    if hist:
        ref.close(np.asarray(x.mean).ravel(), hist[-1][0].ravel(), "result", "returned solution is the last iterate", 1e-12, 1e-12)
        ref.close(info["resid_l2norm"], np.linalg.norm(hist[-1][7]), "info", "residual norm", 1e-9, 1e-12)
    rn = [np.linalg.norm(A @ x0 - b)] + [np.linalg.norm(h[7]) for h in hist]
    thr = max(tol, tol * np.linalg.norm(b))
    for i, v in enumerate(rn[:-1]):
        ctx.check(v > thr * (1 - 1e-6), "continued", f"continued although the residual {v:.2e} was within the tolerance {thr:.2e} after {i} steps")
    if info["conv_crit"] == "maxiter":
        ctx.check(len(hist) == maxiter, "stopped", "stopped for maxiter too early")
    elif info["conv_crit"].startswith("resid"):
        ctx.check(rn[-1] <= thr * (1 + 1e-6), "stopped", lambda: f"stopped ({info['conv_crit']}) with residual {rn[-1]:.2e} > {thr:.2e}")


def multirhs(ctx):
    """Several right-hand sides: the posterior of one is the prior of the next."""
    n = ctx.choice([3, 4, 5], "n")
    nrhs = ctx.integer(2, 3, "nrhs")
    A = draw_matrix(ctx, n, True)
    b = ctx.rs("b").uniform(-2, 2, (n, nrhs))
    kw = {}
    A0m, A0W, H0m, H0W = np.eye(n), A, np.eye(n), np.eye(n)
    if ctx.flag(0.5, "prior"):
        A0m, A0W, H0m, H0W = (draw_spd(ctx, n, l) for l in ("A0m", "A0W", "H0m", "H0W"))
        kw = dict(A0=randvars.Normal(linops.aslinop(A0m.copy()), linops.SymmetricKronecker(A=linops.aslinop(A0W.copy()))),
                  Ainv0=randvars.Normal(linops.aslinop(H0m.copy()), linops.SymmetricKronecker(A=linops.aslinop(H0W.copy()))))
    S, Y = [], []

    def callback(xk, Ak, Ainvk, sk, yk, alphak, resid):
        S.append(np.array(sk).ravel())
        Y.append(np.array(yk).ravel())

    ctx.event("setup", n=n, nrhs=nrhs, prior=bool(kw))
    ctx.sched(f"{n}{nrhs}{bool(kw)}")
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        x, Ak, Hk, info = linalg.problinsolve(wrap(ctx, A, "A-type", ("array", "linop")), b.copy(), maxiter=ctx.integer(1, 2, "maxiter"), atol=1e-6, rtol=1e-6, callback=callback, **kw)
    ctx.steps += len(S)
    for s, y in zip(S, Y):
        ref.close(y, A @ s, "observation", "observation is A times the action", 1e-7, 1e-9, scale=np.linalg.norm(s))
    mA, PA, c1 = cond_matrix(A0m, symkron(A0W), S, Y)
    mH, PH, c2 = cond_matrix(H0m, symkron(H0W), Y, S)
    c = max(c1, c2)
    if c > 1e4 or min(np.linalg.norm(s) for s in S) < 1e-4:
        raise Discard("ill-conditioned information")
    t = 1e-7 * max(1, c)
    ref.close(Ak.mean, mA, "A-mean", "mean of A after all right-hand sides", t, 1e-8, scale=3)
    ref.close(Hk.mean, mH, "Ainv-mean", "mean of the inverse after all right-hand sides", t, 1e-8, scale=3)
    ref.close(symproj(Ak.cov), PA, "A-cov", "covariance of A after all right-hand sides", t, 1e-8, scale=3)
    ref.close(symproj(Hk.cov), PH, "Ainv-cov", "covariance of the inverse after all right-hand sides", t, 1e-8, scale=3)
    ref.close(x.mean, mH @ b, "x-mean", "solutions are the inverse times the right-hand sides", t, 1e-8, scale=3)
    B = np.kron(np.eye(n), b.T)
    if x_cov(x.cov, B, PH, Hk.cov, True, "covariance of the solutions", t, 1e-7, 10):
        raise Violation("x-cov-unsymmetrised", "covariance of the solutions uses the Kronecker factors of a symmetric inverse without symmetrising")


SCENARIOS = {"multirhs": (multirhs, 1), "projected": (projected, 4), "matrixview": (matrixview, 4), "frontend": (frontend, 2)}


def nontrivial(ctx):
    return ctx.steps > 1
