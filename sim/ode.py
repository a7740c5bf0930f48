"""ODE workload pieces: problems, the scripted step rule (seam), fault hooks."""
import numpy as np

from probnum import problems, randprocs, randvars
from probnum.diffeq import callbacks as cbs
from probnum.diffeq import odefilter, perturbed, stepsize
from scipy.integrate._ivp import rk as scipy_rk


class Vec:
    """User vector field with a fault hook; counts calls."""

    def __init__(self, f, df, d, name):
        self._f, self._df, self.d, self.name = f, df, d, name
        self.calls = 0
        self.worst = 0.0  # largest magnitude returned so far (blow-up detector)
        self.hook = None  # callable(t, y, value) -> value ; may raise

    def f(self, t, y):
        self.calls += 1
        v = np.asarray(self._f(t, np.asarray(y, float)), float)
        if self.hook is not None:
            v = self.hook(t, y, v)
        self.last = np.array(v)
        m = float(np.max(np.abs(v)))
        if not m <= self.worst:
            self.worst = m if m == m else float("inf")
        return v

    def df(self, t, y):
        return np.asarray(self._df(t, np.asarray(y, float)), float)

    def clean(self, t, y):
        return np.asarray(self._f(t, np.asarray(y, float)), float)

    def clean_df(self, t, y):
        return np.asarray(self._df(t, np.asarray(y, float)), float)


def draw_ivp(ctx, autonomous=False, max_len=1.6, signed=True):
    kind = ctx.choice(["linear", "logistic", "lotka", "pendulum", "forced", "vdp"], "ivp")
    if autonomous and kind == "forced":
        kind = "linear"
    rs = ctx.rs("ivp-par")
    tref = [0.0]
    if kind == "linear":
        d = ctx.integer(1, 3, "dim")
        A = rs.uniform(-1.2, 1.2, (d, d)) - 0.3 * np.eye(d)
        b = rs.uniform(-1, 1, d)
        f = lambda t, y: A @ y + b
        df = lambda t, y: A
        y0 = rs.uniform(-2, 2, d)
    elif kind == "logistic":
        d = 1
        a = rs.uniform(0.5, 3.0)
        f = lambda t, y: a * y * (1 - y)
        df = lambda t, y: np.array([[a * (1 - 2 * y[0])]])
        y0 = rs.uniform(0.05, 0.6, 1)
    elif kind == "lotka":
        d = 2
        a, b, c, e = rs.uniform(0.3, 1.2, 4)
        f = lambda t, y: np.array([a * y[0] - b * y[0] * y[1], -c * y[1] + e * y[0] * y[1]])
        df = lambda t, y: np.array([[a - b * y[1], -b * y[0]], [e * y[1], -c + e * y[0]]])
        y0 = rs.uniform(0.5, 2, 2)
    elif kind == "pendulum":
        d = 2
        w = rs.uniform(0.5, 3.0)
        f = lambda t, y: np.array([y[1], -w * np.sin(y[0]) - 0.1 * y[1]])
        df = lambda t, y: np.array([[0.0, 1.0], [-w * np.cos(y[0]), -0.1]])
        y0 = rs.uniform(-1.5, 1.5, 2)
    elif kind == "forced":
        d = 2
        w = rs.uniform(1.0, 4.0)
        a = rs.uniform(0.2, 1.5, 2)
        f = lambda t, y: np.array([-a[0] * y[0] + np.sin(w * t), y[0] - a[1] * y[1] + (t - tref[0]) ** 2])
        df = lambda t, y: np.array([[-a[0], 0.0], [1.0, -a[1]]])
        y0 = rs.uniform(-1, 1, 2)
    else:
        d = 2
        mu = rs.uniform(0.2, 1.5)
        f = lambda t, y: np.array([y[1], mu * (1 - y[0] ** 2) * y[1] - y[0]])
        df = lambda t, y: np.array([[0.0, 1.0], [-2 * mu * y[0] * y[1] - 1.0, mu * (1 - y[0] ** 2)]])
        y0 = rs.uniform(-1.5, 1.5, 2)
    t0 = ctx.choice([0.0, 1.0, -0.75, 10.3, 1024.0, -2500.3], "t0")
    tref[0] = 0.0 if abs(t0) < 5 else t0 - 1.0
    length = ctx.real(0.3, max_len, "length", 13)
    vec = Vec(f, df, d, kind)
    ivp = problems.InitialValueProblem(t0=t0, tmax=t0 + length, y0=y0, f=vec.f, df=vec.df)
    ctx.event("ivp", kind=kind, d=d, t0=t0, length=round(length, 6))
    return vec, ivp


class ScriptedSteps(stepsize.StepRule):
    """Seeded scheduler in place of error control: accept/reject and the next step size
    are simulator decisions, one per attempt."""

    def __init__(self, ctx, base, max_step, p_reject, factors, max_attempts=70, shrinks=(0.5, 0.9, 0.25), streak=4):
        self.shrinks, self.streak = list(shrinks), streak
        self.ctx, self.base, self.max_step = ctx, base, max_step
        self.p_reject, self.factors = p_reject, factors
        self.max_attempts = max_attempts
        self.attempt = 0
        self.consecutive = 0
        self.log = []  # (laststep, accepted)
        self._decision = None
        super().__init__(firststep=min(max_step, base * ctx.choice(factors, "first")))

    def current(self):
        """Decision for the attempt in progress (drawn lazily, fixed until suggest())."""
        if self._decision is None:
            if self.attempt >= self.max_attempts or self.consecutive >= self.streak:
                rej = False
            else:
                rej = self.ctx.flag(self.p_reject, "reject?")
            self._decision = rej
        return self._decision

    on_attempt = None

    def errorest_to_norm(self, errorest, reference_state):
        if self.on_attempt is not None:
            self.on_attempt(self.attempt)
        return 2.0 if self.current() else 0.5

    def is_accepted(self, scaled_error):
        return scaled_error < 1

    def suggest(self, laststep, scaled_error, localconvrate=None):
        rejected = self.current()
        self._decision = None
        self.log.append((float(laststep), not rejected))
        self.attempt += 1
        if rejected:
            self.consecutive += 1
            self.ctx.fault("step_rejected")
        else:
            self.consecutive = 0
        self.ctx.sched("R" if rejected else "A")
        if self.attempt >= self.max_attempts and not rejected:
            return self.max_step
        if rejected:  # a rejection means "too large": the retry is always smaller
            return float(laststep) * self.ctx.choice(self.shrinks, "shrink")
        return min(self.base * self.ctx.choice(self.factors, "dt"), self.max_step)


class PoisonDuringRejected:
    """Garbage vector-field values during attempts that will be rejected, only at times
    strictly beyond the last accepted state (so the accepted state is never evaluated wrongly)."""

    def __init__(self, ctx, rule, mode):
        self.ctx, self.rule, self.mode = ctx, rule, mode
        self.t_acc = None

    def __call__(self, t, y, v):
        if self.t_acc is not None and self.rule.current() and t > self.t_acc + 1e-12:
            self.ctx.fault("poisoned_f_" + self.mode)
            if self.mode == "nan":
                return np.full_like(v, np.nan)
            return v * 1.5 + 2.0
        return v


def draw_stops(ctx, ivp, p=0.5):
    """Sorted stop locations inside (t0, tmax], possibly close together / off any grid."""
    if not ctx.flag(p, "stops?"):
        return None
    n = ctx.integer(1, 4, "nstops")
    L = ivp.tmax - ivp.t0
    pts = sorted(ivp.t0 + L * ctx.integer(1, 40, "stop") / 40.0 for _ in range(n))
    out = []
    for p_ in pts:
        if not out or p_ > out[-1] + 1e-9:
            out.append(p_)
    if ctx.flag(0.2, "stop-t0"):
        out = [ivp.t0] + out
    return out


def make_rk(name, steprule):
    cls = {"RK23": scipy_rk.RK23, "RK45": scipy_rk.RK45}[name]
    return perturbed.scipy_wrapper.WrappedScipyRungeKutta(cls, steprule=steprule)
