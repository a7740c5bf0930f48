"""Small, independent reference models (dense linear algebra only; no probnum code)."""
import numpy as np
import scipy.linalg as sla

from .core import Discard, Violation


def arr(x):
    """Dense float array of anything array-like (incl. probnum linear operators)."""
    if hasattr(x, "todense") and not isinstance(x, np.ndarray):
        x = x.todense()
    return np.asarray(x, dtype=float)


def close(got, want, cls, what="", rtol=1e-6, atol=1e-9, scale=None):
    """Raise Violation(cls) unless got == want up to scale-relative tolerance."""
    try:
        g = arr(got)
    except Exception as exc:  # noqa: BLE001
        raise Violation(cls, f"{what}: output is not numeric: {exc!r}") from None
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(cls, f"{what}: shape {g.shape}, expected {w.shape}")
    if g.size == 0:
        return
    if not np.all(np.isfinite(w)):
        raise Discard("reference produced non-finite values: " + what)
    s = np.max(np.abs(w)) if scale is None else max(float(scale), float(np.max(np.abs(w))))
    err = np.max(np.abs(g - w)) if np.all(np.isfinite(g)) else np.inf
    if not err <= atol + rtol * s:
        raise Violation(cls, f"{what}: deviates by {err:.3e} (scale {s:.3e})\n got={_short(g)}\nwant={_short(w)}")


def same(got, want, rtol=1e-6, atol=1e-9, scale=None):
    try:
        close(got, want, "x", "", rtol, atol, scale)
    except (Violation, Discard):
        return False
    return True


def _short(a):
    return np.array2string(np.asarray(a), precision=6, threshold=40, max_line_width=160)


# -- Gaussians -----------------------------------------------------------------------
def van_loan(A, L, dt):
    """Transition matrix and process noise covariance of dx = A x dt + L dW."""
    n = A.shape[0]
    M = np.zeros((2 * n, 2 * n))
    M[:n, :n] = A
    M[:n, n:] = L @ L.T
    M[n:, n:] = -A.T
    E = sla.expm(M * dt)
    Phi = E[:n, :n]
    Q = E[:n, n:] @ Phi.T
    return Phi, 0.5 * (Q + Q.T)


def force(A, u, dt):
    """Shift of dx = (A x + u) dt over dt."""
    n = A.shape[0]
    M = np.zeros((n + 1, n + 1))
    M[:n, :n] = A
    M[:n, n] = u
    return sla.expm(M * dt)[:n, n]


def iwp(q, d, dt):
    """Exact transition matrix and noise of the d-dim. q-times integrated Wiener process.

    State order: all derivatives of coordinate 1, then of coordinate 2, ...
    """
    from math import factorial

    Phi = np.zeros((q + 1, q + 1))
    Q = np.zeros((q + 1, q + 1))
    for i in range(q + 1):
        for j in range(i, q + 1):
            Phi[i, j] = dt ** (j - i) / factorial(j - i)
        for j in range(q + 1):
            k = 2 * q + 1 - i - j
            Q[i, j] = dt**k / (k * factorial(q - i) * factorial(q - j))
    I = np.eye(d)
    return np.kron(I, Phi), np.kron(I, Q)


def eqsolve(S, B):
    """S^{-1} B for a symmetric positive (semi)definite S, diagonally equilibrated."""
    S = 0.5 * (S + S.T)
    s = np.sqrt(np.maximum(np.diag(S), 1e-300))
    C = S / np.outer(s, s)
    try:
        X = np.linalg.solve(C, (B.T / s).T)
        if np.linalg.cond(C) < 1e12:
            return (X.T / s).T
    except np.linalg.LinAlgError:
        pass
    X = np.linalg.lstsq(C, (B.T / s).T, rcond=1e-13)[0]
    return (X.T / s).T


def condition(m, P, H, z, R, y):
    """Posterior of x ~ N(m, P) given y = H x + z + N(0, R)."""
    S = H @ P @ H.T + R
    S = 0.5 * (S + S.T)
    C = P @ H.T
    K = eqsolve(S, C.T).T
    m2 = m + K @ (y - H @ m - z)
    IKH = np.eye(len(m)) - K @ H
    P2 = IKH @ P @ IKH.T + K @ R @ K.T
    return m2, 0.5 * (P2 + P2.T)


def rts(m, P, Phi, c, Q, ms, Ps):
    """One smoothing step: x' = Phi x + c + N(0,Q), x ~ N(m,P), x' ~ N(ms,Ps) smoothed."""
    Pp = Phi @ P @ Phi.T + Q
    G = eqsolve(Pp, Phi @ P).T
    m2 = m + G @ (ms - Phi @ m - c)
    P2 = P + G @ (Ps - Pp) @ G.T
    return m2, 0.5 * (P2 + P2.T)


# -- Runge-Kutta ----------------------------------------------------------------------
_RK = {
    "RK23": dict(
        C=[0, 1 / 2, 3 / 4],
        A=[[0, 0, 0], [1 / 2, 0, 0], [0, 3 / 4, 0]],
        B=[2 / 9, 1 / 3, 4 / 9],
        E=[5 / 72, -1 / 12, -1 / 9, 1 / 8],
        P=[[1, -4 / 3, 5 / 9], [0, 1, -2 / 3], [0, 4 / 3, -8 / 9], [0, -1, 1]],
    ),
    "RK45": dict(
        C=[0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1],
        A=[
            [0, 0, 0, 0, 0, 0],
            [1 / 5, 0, 0, 0, 0, 0],
            [3 / 40, 9 / 40, 0, 0, 0, 0],
            [44 / 45, -56 / 15, 32 / 9, 0, 0, 0],
            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0, 0],
            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656, 0],
        ],
        B=[35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84],
        E=[-71 / 57600, 0, 71 / 16695, -71 / 1920, 17253 / 339200, -22 / 525, 1 / 40],
        P=[
            [1, -8048581381 / 2820520608, 8663915743 / 2820520608, -12715105075 / 11282082432],
            [0, 0, 0, 0],
            [0, 131558114200 / 32700410799, -68118460800 / 10900136933, 87487479700 / 32700410799],
            [0, -1754552775 / 470086768, 14199869525 / 1410260304, -10690763975 / 1880347072],
            [0, 127303824393 / 49829197408, -318862633887 / 49829197408, 701980252875 / 199316789632],
            [0, -282668133 / 205662961, 2019193451 / 616988883, -1453857185 / 822651844],
            [0, 40617522 / 29380423, -110615467 / 29380423, 69997945 / 29380423],
        ],
    ),
}


def rk_step(name, f, t, y, h, k0=None):
    """Textbook embedded RK step.  Returns y_new, error estimate, dense(theta)."""
    tab = _RK[name]
    A, B, C = (np.array(tab[k], float) for k in "ABC")
    K = []
    for s in range(len(C)):
        yi = y + h * sum((A[s, j] * K[j] for j in range(s)), np.zeros_like(y))
        K.append(np.asarray(k0 if s == 0 and k0 is not None else f(t + C[s] * h, yi), float))
    y_new = y + h * sum(B[j] * K[j] for j in range(len(C)))
    K.append(np.asarray(f(t + h, y_new), float))
    K = np.array(K)
    err = h * (np.array(tab["E"]) @ K)
    Q = K.T @ np.array(tab["P"], float)

    def dense(theta):
        p = np.cumprod(np.full(Q.shape[1], theta))
        return y + h * (Q @ p)

    return y_new, err, dense


RK_ORDER = {"RK23": 2, "RK45": 4}
