"""C08: configuration changes are scoped."""

import numpy as np

import probnum
from probnum import diffeq, linops, randprocs, randvars

from .. import ref
from ..core import InjectedFault, Violation

CFG = probnum.config
CLS = type(CFG)
GLOBAL_KEYS = {"covariance_inversion_damping": [1e-12, 1e-3, 0.5, 0.0], "matrix_free": [False, True], "lazy_matrix_matrix_matmul": [True, False]}
VALUES = [0, None, False, "", 1, 2.5, "x", (), [1], {"a": 1}]


class Model:
    """The reference: a dictionary; contexts remember what they replaced."""

    def __init__(self, init):
        self.v = dict(init)


class _Run:
    def __init__(self, ctx, cfg, model, keys, values, can_register):
        self.ctx, self.cfg, self.m, self.keys, self.values, self.reg = ctx, cfg, model, list(keys), values, can_register
        self.budget = ctx.integer(3, 25, "nops")
        self.count = 0
        self.gens = []
        self.nreg = 0

    def val(self, key):
        return self.ctx.choice(self.values(key), "value")

    def compare(self, where):
        ctx = self.ctx
        for k, v in self.m.v.items():
            try:
                got = getattr(self.cfg, k)
            except Exception as exc:  # noqa: BLE001
                raise Violation("lost-option", f"{where}: reading {k} raised {exc!r}") from None
            ctx.check(got is v or got == v, "value", lambda: f"{where}: option {k} is {got!r}, wanted {v!r}")
        ctx.steps += 1

    def kwargs(self):
        ks = [k for k in self.keys if self.ctx.flag(0.5, "use")]
        ks = self.ctx.shuffle(ks) if len(ks) > 1 else ks
        return {k: self.val(k) for k in ks}

    def block(self, depth):
        """One indented block of a random program.  Raises InjectedFault / returns early at random."""
        ctx = self.ctx
        while self.count < self.budget:
            self.count += 1
            op = ctx.choice(["assign", "enter", "read-unknown", "assign-unknown", "enter-unknown", "register", "register-twice", "generator",
                             "gen-step", "gen-close", "gen-throw", "raise", "return", "observe", "library"], "op",
                            [3, 6, 1, 1, 2, 1, 1, 2, 2, 1, 1, 1.5, 1.5, 3, 1])
            ctx.sched(op[:6] + str(depth))
            ctx.event(op, depth=depth)
            if op == "assign":
                k = ctx.choice(self.keys, "key")
                v = self.val(k)
                setattr(self.cfg, k, v)
                self.m.v[k] = v
            elif op == "enter" and depth < 5:
                kw = self.kwargs()
                old = {k: self.m.v[k] for k in kw}
                try:
                    with self.cfg(**kw):
                        self.m.v.update(kw)
                        self.compare("inside a context")
                        self.block(depth + 1)
                        ctx.fault("leave_normal")
                except InjectedFault:
                    ctx.fault("leave_exception")
                    self.m.v.update(old)
                    self.compare("after a context left by an exception")
                    if ctx.flag(0.4, "reraise"):
                        raise
                else:
                    self.m.v.update(old)
                self.compare("after leaving a context")
            elif op == "read-unknown":
                try:
                    self.cfg.no_such_option
                except AttributeError:
                    ctx.fault("rejected")
                else:
                    raise Violation("unknown", "reading an unknown option did not raise")
            elif op == "assign-unknown":
                try:
                    self.cfg.no_such_option = 1
                except AttributeError:
                    ctx.fault("rejected")
                else:
                    raise Violation("unknown", "assigning an unknown option did not raise")
            elif op == "enter-unknown":
                kw = list(self.kwargs().items())
                kw.insert(ctx.integer(0, len(kw), "pos"), ("no_such_option", 3))
                entered = False
                try:
                    with self.cfg(**dict(kw)):
                        entered = True
                except AttributeError:
                    ctx.fault("rejected")
                ctx.check(not entered, "unknown", "a context with an unknown option was entered")
                self.compare("after a rejected context")
            elif op == "register" and self.reg:
                k = f"opt{self.nreg}"
                self.nreg += 1
                v = ctx.choice(VALUES, "value")
                self.cfg.register(k, v, "a description")
                self.keys.append(k)
                self.m.v[k] = v
            elif op == "register-twice":
                k = ctx.choice(self.keys, "key")
                try:
                    self.cfg.register(k, "other", "again")
                except KeyError:
                    ctx.fault("rejected")
                else:
                    raise Violation("double-registration", f"{k} was registered twice")
            elif op == "generator":
                kw = self.kwargs()
                cfg = self.cfg

                def gen(kw=kw):
                    with cfg(**kw):
                        while True:
                            yield {k: getattr(cfg, k) for k in kw}

                self.gens.append([gen(), kw, None])
            elif op == "gen-step" and self.gens:
                g = ctx.choice(self.gens, "gen")
                if g[2] is None:
                    g[2] = {k: self.m.v[k] for k in g[1]}
                    self.m.v.update(g[1])
                next(g[0])
            elif op in ("gen-close", "gen-throw") and self.gens:
                g = ctx.choice(self.gens, "gen")
                if op == "gen-close":
                    g[0].close()
                    ctx.fault("leave_generator_closed")
                else:
                    try:
                        g[0].throw(InjectedFault("thrown in"))
                    except InjectedFault:
                        ctx.fault("leave_generator_thrown")
                    else:
                        raise Violation("swallowed", "an exception thrown into a context was swallowed")
                if g[2] is not None:
                    self.m.v.update(g[2])
                self.gens.remove(g)
            elif op == "raise" and depth > 0:
                raise InjectedFault("planned")
            elif op == "return" and depth > 0:
                ctx.fault("leave_return")
                return
            elif op == "observe":
                if self.cfg is CFG:
                    observe(ctx, self.m.v)
            elif op == "library":
                if self.cfg is CFG:
                    library(ctx, self.m.v)
            self.compare(op)

    def finish(self):
        for g in list(self.gens)[::-1]:
            g[0].close()
            if g[2] is not None:
                self.m.v.update(g[2])
        self.compare("end")


def observe(ctx, v):
    """Results computed on fresh objects reflect the options in force."""
    rs = ctx.rs("obs")
    n = ctx.integer(1, 3, "n")
    A, B = rs.uniform(-1, 1, (n, n)), rs.uniform(-1, 1, (n, n))
    P = linops.Matrix(A) @ linops.Matrix(B)
    ctx.check((type(P) is linops.Matrix) == (not v["lazy_matrix_matrix_matmul"]), "lazy",
              lambda: f"product is {type(P).__name__} with lazy_matrix_matrix_matmul={v['lazy_matrix_matrix_matmul']}")
    ref.close(P.todense(), A @ B, "product", "matrix product", 1e-9, 1e-12)
    C = A @ A.T + np.eye(n)
    d = v["covariance_inversion_damping"]
    how = ctx.choice(["dense", "linop", "kron"], "cov")
    if how == "kron":
        C2 = B @ B.T + np.eye(n)
        rv = randvars.Normal(np.zeros((n, n)), linops.Kronecker(C, C2))
        want = np.kron(np.linalg.cholesky(C + d * np.eye(n)), np.linalg.cholesky(C2 + d * np.eye(n)))
    else:
        rv = randvars.Normal(np.zeros(n), C if how == "dense" else linops.aslinop(C))
        want = np.linalg.cholesky(C + d * np.eye(n))
    if ctx.flag(0.3, "precompute"):
        if ctx.flag(0.3, "explicit"):
            rv.precompute_cov_cholesky(damping_factor=d)
        else:
            rv.precompute_cov_cholesky()
    L = rv.cov_cholesky
    L = L.todense() if isinstance(L, linops.LinearOperator) else L
    ref.close(L, want, "damping", f"Cholesky factor ({how}) under damping {d}", 1e-8, 1e-10)
    iwp = randprocs.markov.integrator.IntegratedWienerTransition(num_derivatives=1, wiener_process_dimension=2)
    M = iwp.drift_matrix
    ctx.check(isinstance(M, linops.LinearOperator) == bool(v["matrix_free"]), "matrix-free",
              lambda: f"drift matrix is {type(M).__name__} with matrix_free={v['matrix_free']}")
    tr = iwp.discretise(0.3)
    ctx.check(isinstance(tr.transition_matrix, linops.LinearOperator) == bool(v["matrix_free"]), "matrix-free",
              lambda: f"transition matrix is {type(tr.transition_matrix).__name__} with matrix_free={v['matrix_free']}")
    T = tr.transition_matrix
    ref.close(T.todense() if isinstance(T, linops.LinearOperator) else T, ref.iwp(1, 2, 0.3)[0], "matrix-free", "transition matrix", 1e-9, 1e-12)
    ctx.probe("observed")


def library(ctx, v):
    """Library calls, including failing ones, leave the options alone."""
    what = ctx.choice(["ode", "ode-fail", "gp", "bq"], "lib")
    if v["matrix_free"] and what.startswith("ode"):
        return
    boom = ctx.integer(1, 20, "boom")
    calls = [0]

    def f(t, y):
        calls[0] += 1
        if what == "ode-fail" and calls[0] >= boom:
            raise InjectedFault("vector field")
        return -y

    try:
        if what.startswith("ode"):
            diffeq.probsolve_ivp(f, 0.0, 0.5, np.array([1.0]), adaptive=False, step=0.25, method="EK0")
        elif what == "gp":
            gp = randprocs.GaussianProcess(mean=probnum.functions.Zero((), ()), cov=randprocs.covfuncs.ExpQuad(()))
            gp.sample(np.random.default_rng(1), args=np.linspace(0, 1, 3))
        else:
            probnum.quad.bayesquad(lambda x: f(0, x[:, 0]), 1, domain=(0.0, 1.0), rng=np.random.default_rng(1), options=dict(max_evals=3))
    except InjectedFault:
        ctx.fault("library_failed")
    except Exception:  # noqa: BLE001
        ctx.fault("library_failed")
    ctx.probe("library")


def own(ctx):
    """A fresh configuration object with own options."""
    cfg = CLS()
    init = {}
    for i in range(ctx.integer(1, 3, "nkeys")):
        v = ctx.choice(VALUES, "default")
        cfg.register(f"k{i}", v, f"option {i}")
        init[f"k{i}"] = v
    other = CLS()
    other.register("k0", "untouched", "same name elsewhere")
    r = _Run(ctx, cfg, Model(init), init, lambda k: VALUES, True)
    try:
        r.block(0)
    except InjectedFault:
        r.compare("after an exception left all contexts")
    r.finish()
    ctx.check(other.k0 == "untouched", "shared", "another configuration object changed")
    for k, v in init.items():
        ctx.check(k in repr(cfg), "repr", "option missing in repr")


def glob(ctx):
    """The library's configuration and what depends on it."""
    snap = {k: getattr(CFG, k) for k in GLOBAL_KEYS}

    def restore():
        for k, v in snap.items():
            setattr(CFG, k, v)

    ctx.cleanups.append(restore)
    r = _Run(ctx, CFG, Model(snap), GLOBAL_KEYS, lambda k: GLOBAL_KEYS[k], False)
    try:
        r.block(0)
    except InjectedFault:
        r.compare("after an exception left all contexts")
    r.finish()


SCENARIOS = {"own": (own, 1), "global": (glob, 1)}


def nontrivial(ctx):
    return any(k.startswith(("leave_", "rejected")) for k in ctx.faults)
