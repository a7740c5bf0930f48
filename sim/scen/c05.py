"""C05: runs are isolated from each other (interleaved, abandoned, crashed, repeated)."""
import contextlib
import io

import numpy as np

from probnum import diffeq, filtsmooth, linalg, linops, problems, quad, randprocs, randvars
from probnum.diffeq import callbacks as cbs
from probnum.diffeq import odefilter, perturbed, stepsize
from probnum.filtsmooth.gaussian import approx
from probnum.filtsmooth.optim import FiltSmoothStoppingCriterion, GaussNewton, IteratedDiscreteComponent
from probnum.linalg import solvers
from probnum.linalg.solvers import belief_updates, beliefs, information_ops, policies, stopping_criteria
from probnum.quad.solvers import BayesianQuadrature
from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
from probnum.quad.solvers.initial_designs import LatinDesign, MCDesign
from probnum.quad.solvers.policies import MaxAcquisitionPolicy, RandomMaxAcquisitionPolicy, RandomPolicy, VanDerCorputPolicy
from probnum.quad.solvers.acquisition_functions import IntegralVarianceReduction, MutualInformation, WeightedPredictiveVariance
from probnum.quad.solvers.stopping_criteria import ImmediateStop, IntegralVarianceTolerance, MaxNevals, RelativeMeanChange
from probnum.utils.linalg import double_gram_schmidt, gram_schmidt

from .. import ode, ref, ssm
from ..core import Ctx, Discard, InjectedFault, Violation
from ..tasks import Abandoned, Sched
from . import c10, c11

mk = randprocs.markov


class World:
    """Everything the user owns: problems, priors, rules, data.  Subclasses: the kinds of runs on them."""

    exclusive = False  # may two live runs use the same method object?

    def __init__(self):
        self.point = lambda: None
        self.owned = []  # (name, array, copy, writeable)

    def own(self, name, a):
        a = np.asarray(a)
        self.owned.append((name, a, np.array(a), a.flags.writeable))
        return a

    def check_owned(self, when):
        for name, a, c, w in self.owned:
            if a.shape != c.shape or not np.array_equal(a, c, equal_nan=True):
                raise Violation("input-modified", f"{when}: the user's array {name} was modified")

    def vary(self, ctx, s):
        """Another run with the same kind of method."""
        s = dict(s)
        if "seed" in s:
            s["seed"] = ctx.integer(0, 50, "seed")
        return s

    def hooked(self, f):
        def g(*a, **k):
            self.point()
            return f(*a, **k)
        return g


def rvs(label, states):
    out = []
    for s in states:
        out += [(label + "-mean", ref.arr(s.mean)), (label + "-cov", ref.arr(s.cov))]
    return out


# -- ODE solvers ------------------------------------------------------------------------
class Ode(World):
    exclusive = True

    def __init__(self, ctx):
        super().__init__()
        self.gen_of = {}
        vec, ivp = ode.draw_ivp(ctx, max_len=0.9)
        self.vec, self.d = vec, vec.d
        vec.hook = self._hook
        y0 = self.own("y0", ivp.y0)
        y1 = self.own("y0-b", 0.7 * np.array(y0) + 0.1)
        self.ivps = [ivp, problems.InitialValueProblem(t0=ivp.t0, tmax=ivp.t0 + 0.6 * (ivp.tmax - ivp.t0), y0=y1, f=vec.f, df=vec.df)]
        q = ctx.integer(1, 3, "q")
        self.prior = mk.integrator.IntegratedWienerProcess(initarg=ivp.t0, num_derivatives=q, wiener_process_dimension=vec.d,
                                                           forward_implementation="sqrt", backward_implementation="sqrt")
        L = ivp.tmax - ivp.t0
        if ctx.flag(0.5, "adaptive"):
            tol = ctx.choice([1e-2, 1e-3] if q > 1 else [1e-2, 3e-2], "tol")
            self.rule = stepsize.AdaptiveSteps(firststep=L / 6, atol=tol, rtol=tol)
        else:
            self.rule = stepsize.ConstantSteps(L / ctx.integer(3, 9, "nsteps"))
        self.info = odefilter.information_operators.ODEResidual(num_prior_derivatives=q, ode_dimension=vec.d)
        self.dyn = mk.continuous.PiecewiseConstantDiffusion(t0=ivp.t0)
        self.const = mk.continuous.ConstantDiffusion()
        self.ek = [odefilter.approx_strategies.EK0(), odefilter.approx_strategies.EK1()]
        ini = odefilter.init_routines
        self.init = ctx.choice([ini.Stack, ini.StackWithJacobian, ini.NonProbabilisticFit], "init", [6, 6 * (q > 1), 1])()
        self.stops = self.own("stops", ivp.t0 + L * np.array([0.17, 0.4, 0.41]))
        self.stop_list = [float(x) for x in self.stops]
        self.locs = ivp.t0 + L * np.array([0.05, 0.31, 0.5])
        kick = 1.0 + 0.1 * ctx.integer(0, 3, "kick")
        self.callback = cbs.DiscreteCallback(replace=self.hooked(lambda st: diffeq_state(st, kick)),
                                             condition=lambda st: st.t > ivp.t0 + 0.4 * L and kick != 1.0)

    def _hook(self, t, y, v):
        self.point()
        return v

    def spec(self, ctx):
        kind = ctx.choice(["filter", "rk", "perturbed", "front"], "kind", [6, 2, 2, 2])
        s = dict(kind=kind, ivp=ctx.integer(0, 1, "ivp"), stops=ctx.choice([None, "array", "list"], "stops"), cb=ctx.flag(0.3, "cb"))
        if kind == "filter":
            s.update(ek=ctx.integer(0, 1, "ek"), diff=ctx.choice(["default", "dyn", "const"], "diff"), smooth=ctx.flag(0.6, "smooth"),
                     info=ctx.flag(0.6, "info"), init=ctx.flag(0.85, "initroutine"))
        elif kind == "front":
            s.update(method=ctx.choice(["EK0", "EK1", "RK23", "RK45"], "method"), smooth=ctx.flag(0.5, "smooth"))
        else:
            s.update(rk=ctx.choice(["RK45", "RK23"], "rk"))
            if kind == "perturbed":
                s.update(seed=ctx.integer(0, 50, "seed"), noise=ctx.choice(["lognormal", "uniform"], "noise"))
        return s

    def method(self, s):
        if s["kind"] == "filter":
            kw = {}
            if s["diff"] != "default":
                kw["diffusion_model"] = self.dyn if s["diff"] == "dyn" else self.const
            if s["info"]:
                kw["information_operator"] = self.info
            if s["init"]:
                kw["init_routine"] = self.init
            return odefilter.ODEFilter(steprule=self.rule, prior_process=self.prior, approx_strategy=self.ek[s["ek"]], with_smoothing=s["smooth"], **kw)
        if s["kind"] == "front":
            return None
        rk = ode.make_rk(s["rk"], self.rule)
        if s["kind"] == "perturbed":
            cls = perturbed.step.PerturbedStepSolver
            make = cls.construct_with_lognormal_perturbation if s["noise"] == "lognormal" else cls.construct_with_uniform_perturbation
            gen = np.random.default_rng(0)
            rk = make(rng=gen, solver=rk, noise_scale=0.4)
            self.gen_of[id(rk)] = gen
        return rk

    def vary(self, ctx, s):
        s = super().vary(ctx, s)
        s.update(ivp=ctx.integer(0, 1, "ivp"), stops=ctx.choice([None, "array", "list"], "stops"), cb=ctx.flag(0.3, "cb"))
        return s

    def method_key(self, s):
        return tuple(sorted((k, v) for k, v in s.items() if k in ("kind", "ek", "diff", "smooth", "info", "init", "rk", "noise")))

    def execute(self, m, s):
        ivp = self.ivps[s["ivp"]]
        stops = None if s["stops"] is None else (self.stops if s["stops"] == "array" else self.stop_list)
        if s["kind"] == "front":
            kw = dict(adaptive=False, step=(ivp.tmax - ivp.t0) / 6) if isinstance(self.rule, stepsize.ConstantSteps) else dict(adaptive=True, atol=1e-3, rtol=1e-3)
            if s["method"].startswith("EK"):
                sol = diffeq.probsolve_ivp(self.vec.f, ivp.t0, ivp.tmax, ivp.y0, df=self.vec.df, method=s["method"], dense_output=s["smooth"],
                                           algo_order=2, time_stops=stops, **kw)
            else:
                sol = diffeq.perturbsolve_ivp(self.vec.f, ivp.t0, ivp.tmax, ivp.y0, np.random.default_rng(3), method=s["method"], noise_scale=0.5,
                                              time_stops=stops, **kw)
        else:
            if s["kind"] == "perturbed":  # the caller rewinds the generator the solver was given
                self.gen_of[id(m)].bit_generator.state = np.random.default_rng(s["seed"]).bit_generator.state
            sol = m.solve(ivp, stop_at=stops, callbacks=self.callback if s["cb"] and s["kind"] != "perturbed" else None)
        dense = s["kind"] in ("rk", "perturbed") or s["kind"] == "filter" or s.get("smooth") or not s["method"].startswith("EK")

        def digest():
            out = [("locations", np.array(sol.locations, float))] + rvs("state", sol.states)
            if dense:
                for t in self.locs:
                    if t < sol.locations[-1]:
                        out += rvs("dense", [sol(float(t))])
            return out
        return digest


def diffeq_state(st, kick):
    rv = st.rv
    if isinstance(rv, randvars.Normal):
        rv = randvars.Normal(rv.mean, kick**2 * rv.cov, cov_cholesky=kick * rv.cov_cholesky)
    else:
        rv = randvars.Constant(rv.mean * kick)
    return type(st)(ivp=st.ivp, rv=rv, t=st.t, error_estimate=st.error_estimate, reference_state=st.reference_state)


# -- filters ----------------------------------------------------------------------------
class Filt(World):
    def __init__(self, ctx):
        super().__init__()
        t0 = ctx.choice([0.0, 1.5], "t0")
        pr = ssm.draw_prior(ctx, t0, kinds=("iwp", "seq_tv", "ltisde", "linsde", "ioup"), weights=[3, 3, 2, 1, 1], dmax=1)
        if np.linalg.eigvalsh(pr.P0)[0] < 1e-4:
            raise Discard("degenerate initial law")
        self.prior, n = pr, pr.n
        self.nl = pr.discrete and ctx.flag(0.5, "nonlinear-dynamics")
        rs = ctx.rs("filt")
        if self.nl:
            G = rs.uniform(-0.7, 0.7, (n, n))
            s0 = self.own("noise-mean", rs.uniform(-0.3, 0.3, n))
            C0 = self.own("noise-cov", 0.3 * np.eye(n) + 0.05)
            model = mk.discrete.NonlinearGaussian(input_dim=n, output_dim=n, transition_fun=self.hooked(lambda t, x: G @ np.sin(x) + 0.3 * np.cos(t) * x),
                                                  transition_fun_jacobian=lambda t, x: G * np.cos(x)[None, :] + 0.3 * np.cos(t) * np.eye(n),
                                                  noise_fun=lambda t: randvars.Normal(s0, C0))
            wrapd = approx.DiscreteEKFComponent(model) if ctx.flag(0.5, "dyn-ekf") else approx.DiscreteUKFComponent(model)
            self.proc = mk.MarkovSequence(initarg=t0, initrv=pr.process.initrv, transition=wrapd)
            self.proc_pf = mk.MarkovSequence(initarg=t0, initrv=pr.process.initrv, transition=model)
        else:
            self.proc = self.proc_pf = pr.process
        self.m = m = ctx.integer(1, min(2, n), "m")
        nobs = ctx.integer(2, 5, "nobs")
        locs = [t0 + 0.25 * (k + 1) for k in range(nobs)]
        if ctx.flag(0.8, "first-at-t0"):
            locs[0] = t0
        self.locs = self.own("locations", np.array(locs))
        self.obs = self.own("observations", rs.uniform(-1, 1, (nobs, m)))
        self.lin = ssm.draw_meas(ctx, n, m, hook=lambda: self.point()).model
        H = rs.uniform(-1, 1, (m, n))
        R = self.own("R", 0.2 * np.eye(m))
        z = self.own("z", np.zeros(m))
        self.raw = mk.discrete.NonlinearGaussian(
            input_dim=n, output_dim=m, transition_fun=self.hooked(lambda t, x: np.sin(H @ x) + 0.5 * H @ x),
            transition_fun_jacobian=self.hooked(lambda t, x: (np.cos(H @ x) + 0.5)[:, None] * H), noise_fun=lambda t: randvars.Normal(z, R))
        self.ekf, self.ukf = approx.DiscreteEKFComponent(self.raw), approx.DiscreteUKFComponent(self.raw)
        self.crit = FiltSmoothStoppingCriterion(atol=1e-4, rtol=1e-4, maxit=ctx.integer(2, 6, "maxit"))
        self.iekf = IteratedDiscreteComponent(self.ekf, stopcrit=self.crit)
        P = problems.TimeSeriesRegressionProblem
        meas = {"lin": self.lin, "ekf": self.ekf, "ukf": self.ukf, "iekf": self.iekf, "raw": self.raw,
                "mixed": [self.lin if k % 2 else self.ekf for k in range(nobs)]}
        self.probs = {k: P(locations=self.locs, observations=self.obs, measurement_models=v) for k, v in meas.items()}
        self.init = None
        self.pool = {}
        self.imp = filtsmooth.particle.BootstrapImportanceDistribution(self.proc_pf.transition)
        self.imp_ekf = filtsmooth.particle.LinearizationImportanceDistribution.from_ekf(self.proc_pf.transition)

    def spec(self, ctx):
        kind = ctx.choice(["filter", "filtsmooth", "states", "ieks", "ieks-gen", "gauss-newton", "particle", "particle-gen", "sample"], "kind",
                          [1, 2, 1, 2, 1, 2, 2, 1, 1])
        s = dict(kind=kind, meas=ctx.choice(["lin", "ekf", "ukf", "iekf", "mixed"], "meas"), seed=ctx.integer(0, 50, "seed"))
        if kind.startswith("particle"):
            s.update(meas=ctx.choice(["lin", "raw"], "pf-meas"), imp=ctx.choice(["bootstrap", "ekf"], "imp"))
        elif kind in ("ieks", "ieks-gen", "gauss-newton"):
            s["meas"] = ctx.choice(["ekf", "lin", "mixed"], "it-meas")
        return s

    def method(self, s):
        return filtsmooth.gaussian.Kalman(self.proc)

    def method_key(self, s):
        return "kalman"

    def _init(self):
        """An initial guess the user computed once, from the linear problem, and shares."""
        if self.init is None:
            point, self.point = self.point, lambda: None
            try:
                self.init, _ = filtsmooth.gaussian.Kalman(self.proc).filtsmooth(self.probs["lin"])
            finally:
                self.point = point
        return self.init

    def execute(self, kal, s):
        prob, kind = self.probs[s["meas"]], s["kind"]
        dense = [t for t in self.prior.t0 + np.array([0.3, 0.6]) if t > self.locs[0]] if not self.prior.discrete else []
        if kind == "filter":
            post, _ = kal.filter(prob)
        elif kind in ("filtsmooth", "sample"):
            post, _ = kal.filtsmooth(prob)
        elif kind == "states":
            out = []
            for _, rv, _ in kal.filtered_states_generator(prob):
                out.append(rv)
                self.point()
            return lambda: rvs("state", out)
        elif kind == "ieks":
            post, _ = kal.iterated_filtsmooth(prob, init_posterior=self._init(), stopcrit=self.crit)
        elif kind == "ieks-gen":
            for post, _ in kal.iterated_filtsmooth_posterior_generator(prob, init_posterior=self._init(), stopcrit=self.crit):
                self.point()
        elif kind == "gauss-newton":
            pool = self.pool.setdefault("gauss-newton", [])
            gn = pool.pop() if pool else GaussNewton(kal, stopping_criterion=self.crit)
            try:
                post, _ = gn.solve(prob, initial_guess=self._init())
            finally:
                pool.append(gn)
        else:
            imp = self.imp if s["imp"] == "bootstrap" else self.imp_ekf
            pool = self.pool.setdefault(s["imp"], [])  # filters not in use right now, with the generators they were given
            if not pool:
                gen = np.random.default_rng(0)
                pool.append((filtsmooth.particle.ParticleFilter(self.proc_pf, imp, num_particles=5, rng=gen), gen))
            pf, gen = pool.pop()
            gen.bit_generator.state = np.random.default_rng(s["seed"]).bit_generator.state
            try:
                if kind == "particle":
                    states = pf.filter(prob)[0].states
                else:
                    states = []
                    for rv, _ in pf.filter_generator(prob):
                        states.append(rv)
                        self.point()
            finally:
                pool.append((pf, gen))
            return lambda: [x for rv in states for x in (("particles", np.array(rv.support)), ("weights", np.array(rv.probabilities)))]

        def digest():
            out = [("locations", np.array(post.locations, float))] + rvs("state", post.states)
            for t in dense:
                out += rvs("dense", [post(float(t))])
            if kind == "sample":
                out.append(("sample", np.array(post.sample(np.random.default_rng(s["seed"])))))
            return out
        return digest


# -- linear solvers -----------------------------------------------------------------------
class CountStop(stopping_criteria.LinearSolverStoppingCriterion):
    def __init__(self, n, point):
        self.n, self.point = n, point

    def __call__(self, solver_state):
        self.point()
        return solver_state.step >= self.n


class Lin(World):
    def __init__(self, ctx):
        super().__init__()
        self.n = n = ctx.choice([4, 3, 5], "n")
        A = c10.draw_matrix(ctx, n, True)
        rs = ctx.rs("lin")
        self.A = self.own("A", A)
        self.b = self.own("b", rs.uniform(-2, 2, n))
        self.b2 = self.own("b2", rs.uniform(-2, 2, (n, 2)))
        self.x0 = self.own("x0", np.linalg.solve(A, self.b) + 0.2 * rs.uniform(-1, 1, n))
        mv = self.hooked(lambda x: A @ x)
        self.Aop = linops.LambdaLinearOperator(shape=(n, n), dtype=float, matmul=mv, todense=lambda: np.array(A))
        self.Aop.is_symmetric = True
        self.problem = {True: problems.LinearSystem(A=self.Aop, b=self.b), False: problems.LinearSystem(A=self.A, b=self.b)}
        P0 = self.own("P0", c10.draw_spd(ctx, n, "P0"))
        m0 = self.own("m0", rs.uniform(-1, 1, n))
        W = self.own("W", c10.draw_spd(ctx, n, "W"))
        M = self.own("M", c10.draw_spd(ctx, n, "M"))
        mat = lambda sym: randvars.Normal(linops.aslinop(M), linops.SymmetricKronecker(A=linops.aslinop(W)) if sym else linops.Kronecker(A=linops.aslinop(W), B=linops.aslinop(W)))
        self.prior_x = beliefs.LinearSystemBelief(x=randvars.Normal(m0, P0))
        self.prior_m = {sym: beliefs.LinearSystemBelief(A=mat(sym), Ainv=mat(sym), b=randvars.Constant(self.b)) for sym in (True, False)}
        self.stop = CountStop(ctx.integer(1, 4, "steps"), lambda: self.point()) if ctx.flag(0.5, "count-stop") else (
            stopping_criteria.ResidualNormStoppingCriterion(atol=1e-2, rtol=1e-2) | stopping_criteria.MaxIterationsStoppingCriterion(maxiter=4))
        gs = ctx.choice([gram_schmidt, double_gram_schmidt], "gs")
        self.pol = {"cg": policies.ConjugateGradientPolicy(), "cgr": policies.ConjugateGradientPolicy(reorthogonalization_fn_residual=gs),
                    "unit": policies.RandomUnitVectorPolicy(), "unit-norepl": policies.RandomUnitVectorPolicy(replace=False)}
        self.info = {"res": information_ops.ProjectedResidualInformationOp(), "mv": information_ops.MatVecInformationOp()}
        self.upd = {"res": belief_updates.solution_based.ProjectedResidualBeliefUpdate(),
                    True: belief_updates.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate(),
                    False: belief_updates.matrix_based.MatrixBasedLinearBeliefUpdate()}
        self.A0 = randvars.Normal(linops.aslinop(M), linops.SymmetricKronecker(A=linops.aslinop(W)))

    def spec(self, ctx):
        kind = ctx.choice(["projected", "matrix", "bayescg", "problinsolve"], "kind", [3, 3, 1, 2])
        s = dict(kind=kind, seed=ctx.integer(0, 50, "seed"), op=ctx.flag(0.6, "op"), iterate=ctx.flag(0.4, "iterate"))
        if kind in ("projected", "matrix"):
            s["policy"] = ctx.choice(["cg", "cgr", "unit", "unit-norepl"], "policy")
            s["sym"] = ctx.flag(0.6, "sym")
        elif kind == "problinsolve":
            s["how"] = ctx.choice(["default", "x0", "prior", "multi"], "how")
        return s

    def method_key(self, s):
        return tuple(sorted((k, v) for k, v in s.items() if k in ("kind", "policy", "sym")))

    def method(self, s):
        if s["kind"] == "projected":
            return solvers.ProbabilisticLinearSolver(policy=self.pol[s["policy"]], information_op=self.info["res"], belief_update=self.upd["res"], stopping_criterion=self.stop)
        if s["kind"] == "matrix":
            return solvers.ProbabilisticLinearSolver(policy=self.pol[s["policy"]], information_op=self.info["mv"], belief_update=self.upd[s["sym"]], stopping_criterion=self.stop)
        if s["kind"] == "bayescg":
            return solvers.BayesCG(stopping_criterion=self.stop)
        return None

    def execute(self, m, s):
        if s["kind"] == "problinsolve":
            kw = dict(maxiter=3, callback=self.hooked(lambda *a, **k: None))
            if s["how"] == "x0":
                kw["x0"] = self.x0
            elif s["how"] == "prior":
                kw["A0"] = kw["Ainv0"] = self.A0
            x, A, Ainv, _ = linalg.problinsolve(self.A if not s["op"] else self.Aop, self.b2 if s["how"] == "multi" else self.b, **kw)
            return lambda: rvs("x", [x]) + rvs("A", [A]) + rvs("Ainv", [Ainv])
        prior = self.prior_m[s["sym"]] if s["kind"] == "matrix" else self.prior_x
        rng = np.random.default_rng(s["seed"])
        problem = self.problem[s["op"]]
        if s["iterate"]:
            acts, st = [], None
            for st in m.solve_iterator(prior=prior, problem=problem, rng=rng):
                self.point()
            bel = st.belief
            hist = lambda: [("action", np.array(a)) for a in st.actions if a is not None] + [("residual", np.array(st.residual))]
        else:
            bel, st = m.solve(prior=prior, problem=problem, rng=rng)
            hist = lambda: [("action", np.array(a)) for a in st.actions if a is not None]

        def digest():
            out = rvs("x", [bel.x]) + hist()
            if s["kind"] == "matrix":
                out += rvs("A", [bel.A]) + rvs("Ainv", [bel.Ainv])
            return out
        return digest


# -- quadrature ---------------------------------------------------------------------------
class Quad(World):
    def __init__(self, ctx):
        super().__init__()
        mod, kernel, measure = c11.draw_problem(ctx, bounded=ctx.flag(0.7, "bounded"), d=ctx.choice([1, 2], "d"), recording=False)
        self.mod, self.kernel, self.measure = mod, kernel, measure
        g = c11.Integrand(ctx, mod.d)
        self.fun = self.hooked(g.f)
        rs = ctx.rs("quad")
        self.nodes = self.own("nodes", np.stack([c11.draw_node(ctx, mod, rs) for _ in range(3)]))
        self.fvals = self.own("fun_evals", g.f(self.nodes))
        self.upd = BQStandardBeliefUpdate(jitter=1e-4, scale_estimation=ctx.choice(["mle", None], "scale"))
        nmax = ctx.integer(4, 9, "nevals")
        self.stop = MaxNevals(nmax) | IntegralVarianceTolerance(1e-7)
        if ctx.flag(0.4, "rel"):
            self.stop = self.stop | RelativeMeanChange(1e-3)
        ms, self.stopdesc = measure, nmax
        bs = ctx.integer(1, 2, "batch")
        self.pol = {"bmc": RandomPolicy(batch_size=bs, sample_func=ms.sample),
                    "us_rand": RandomMaxAcquisitionPolicy(batch_size=1, acquisition_func=WeightedPredictiveVariance(), n_candidates=4),
                    "mi_rand": RandomMaxAcquisitionPolicy(batch_size=1, acquisition_func=MutualInformation(), n_candidates=4)}
        if mod.mkind == "leb" and mod.d == 1:
            self.pol["vdc"] = VanDerCorputPolicy(batch_size=bs, measure=ms)
        self.design = {"none": None, "mc": MCDesign(3, ms)}
        if mod.mkind == "leb":
            self.design["latin"] = LatinDesign(3, ms)
        self.options = dict(scale_estimation="mle", max_evals=6, var_tol=None, rel_tol=None, jitter=1e-4, batch_size=1, num_initial_design_nodes=2)
        self.options0 = dict(self.options)

    def check_owned(self, when):
        super().check_owned(when)
        if self.options != self.options0:
            raise Violation("input-modified", f"{when}: the options dictionary of the user was modified: {self.options}")

    def spec(self, ctx):
        kind = ctx.choice(["integrate", "front", "data"], "kind", [5, 2, 1])
        s = dict(kind=kind, seed=ctx.integer(0, 50, "seed"))
        if kind == "integrate":
            s.update(policy=ctx.choice(sorted(self.pol), "policy"), design=ctx.choice(sorted(self.design), "design"), given=ctx.choice(["none", "nodes", "both"], "given"))
        elif kind == "front":
            s.update(policy=ctx.choice(["bmc", "us_rand"], "policy"), design=ctx.choice([None, "mc"], "design"))
        return s

    def method_key(self, s):
        return tuple(sorted((k, str(v)) for k, v in s.items() if k in ("kind", "policy", "design")))

    def method(self, s):
        if s["kind"] != "integrate":
            return None
        return BayesianQuadrature(kernel=self.kernel, measure=self.measure, policy=self.pol[s["policy"]], belief_update=self.upd,
                                  stopping_criterion=self.stop, initial_design=self.design[s["design"]])

    def execute(self, m, s):
        rng = np.random.default_rng(s["seed"])
        if s["kind"] == "front":
            F, info = quad.bayesquad(self.fun, input_dim=self.mod.d, kernel=self.kernel, measure=self.measure, policy=s["policy"], initial_design=s["design"],
                                     rng=rng, options=self.options)
            return lambda: rvs("integral", [F]) + [("nevals", np.array(float(info.nevals)))]
        if s["kind"] == "data":
            opts = dict(jitter=1e-4)
            F, info = quad.bayesquad_from_data(self.nodes, self.fvals, kernel=self.kernel, measure=self.measure, options=opts)
            return lambda: rvs("integral", [F])
        nodes = None if s["given"] == "none" else self.nodes
        vals = self.fvals if s["given"] == "both" else None
        F, st, info = m.integrate(self.fun, nodes, vals, rng)
        return lambda: rvs("integral", [F]) + [("nodes", np.array(st.nodes)), ("evals", np.array(st.fun_evals)), ("gram", np.array(st.gram)), ("iter", np.array(float(info.iteration)))]


WORLDS = {"ode": Ode, "filters": Filt, "linear": Lin, "quad": Quad}
RTOL = {"ode": 1e-5, "filters": 1e-6, "linear": 1e-6, "quad": 1e-6}


def compare(got, want, cls, what, rtol):
    if [l for l, _ in got] != [l for l, _ in want]:
        raise Violation(cls, f"{what}: the run has another number of results: {len(got)} instead of {len(want)}")
    for (lab, g), (_, w) in zip(got, want):
        if not np.all(np.isfinite(w)):
            continue
        ref.close(g, w, cls, f"{what}: {lab}", rtol, 1e-8, scale=1.0)


def isolation(family):
    cls = WORLDS[family]

    def scenario(ctx):
        k0 = len(ctx.decisions)
        shared = cls(ctx)
        recipe = ctx.values()[k0:]

        def fresh():
            return cls(Ctx(seed=0, replay=recipe))

        sched = Sched()
        ctx.cleanups.append(sched.shutdown)
        shared.point = sched.point
        refs, methods, busy = {}, {}, {}
        live, finished, nrun = [], [], [0]
        total = ctx.integer(2, 6, "runs")
        specs = [shared.spec(ctx)]
        same = ctx.flag(0.4, "same-spec")

        def reference(s):
            key = repr(sorted(s.items(), key=str))
            if key not in refs:
                w = fresh()
                try:
                    refs[key] = [(l, np.array(a)) for l, a in w.execute(w.method(s), s)()]
                    w.check_owned("run alone")
                except Violation:
                    raise
                except Exception as exc:  # noqa: BLE001  (the run fails by itself: out of scope)
                    refs[key] = None
                    ctx.probe("reference_failed_" + type(exc).__name__)
                    ctx.event("reference-failed", what=type(exc).__name__)
            return refs[key]

        def start():
            s = specs[0] if same and nrun[0] else shared.vary(ctx, specs[-1]) if nrun[0] and ctx.flag(0.4, "same-method") else shared.spec(ctx)
            specs.append(s)
            if reference(s) is None:
                return
            key = shared.method_key(s)
            reuse = ctx.flag(0.75, "reuse-method")
            mth = methods.get(key)
            if mth is None or not reuse or (cls.exclusive and busy.get(id(mth))):
                mth = shared.method(s)
                if mth is not None:
                    methods.setdefault(key, mth)
                how = "new"
            else:
                how = "reused"
                ctx.probe("method_reused")
            name = f"r{nrun[0]}"
            busy[id(mth)] = True
            t = sched.spawn(name, lambda: shared.execute(mth, s))
            t.spec, t.method = s, mth
            live.append(t)
            ctx.event("start", run=name, how=how, spec=s)

        def settle(t):
            live.remove(t)
            busy.pop(id(t.method), None)
            if t.hurt:
                ctx.event("ended-with-fault", run=t.name)
                return
            if t.error is not None:
                if isinstance(t.error, (InjectedFault, Abandoned)):
                    raise Violation("foreign-fault", f"{t.name} received a fault that was injected into another run")
                raise Violation(f"raised-{type(t.error).__name__}", f"{t.name} ({t.spec}) raised although the same run alone succeeds: {t.error!r}") from t.error
            got = t.result()
            compare(got, reference(t.spec), "result", f"{t.name} ({t.spec}) differs from the same run executed alone", RTOL[family])
            finished.append((t, t.result, reference(t.spec)))
            ctx.event("finished", run=t.name)

        with contextlib.redirect_stdout(io.StringIO()):
            while nrun[0] < total or live:
                ctx.steps += 1
                if nrun[0] < total and (not live or ctx.flag(0.35, "start")):
                    start()
                    nrun[0] += 1
                    continue
                t = live[ctx.integer(0, len(live) - 1, "who")] if len(live) > 1 else live[0]
                act = ctx.choice(["go", "crash", "abandon"], "act", [20, 1.5, 1])
                inject = None
                if act == "crash":
                    inject = InjectedFault("user code")
                    ctx.fault("crash_in_user_code")
                elif act == "abandon":
                    inject = Abandoned("interrupt")
                    ctx.fault("abandoned")
                burst = ctx.choice([3, 1, 10, 40, 200], "burst", [3, 3, 3, 2, 1])
                if ctx.steps > 300:
                    burst, inject = 10**9, None
                ctx.sched(f"{t.name}{act[0]}{burst}")
                if act != "go":
                    ctx.event(act, run=t.name, after_calls=t.points)
                t.resume(burst, inject)
                if t.done:
                    settle(t)
                shared.check_owned(f"after a slice of {t.name}")
            for t, result, want in finished:
                compare(result(), want, "result-changed", f"the returned result of {t.name} ({t.spec}) was altered by later runs", RTOL[family])
        ctx.simtime += sum(t.points for t in sched.tasks)
        ctx.probe("runs_compared", len(finished))
    return scenario


SCENARIOS = {"ode": (isolation("ode"), 3), "filters": (isolation("filters"), 3), "linear": (isolation("linear"), 2), "quad": (isolation("quad"), 2)}


def nontrivial(ctx):
    return ctx.probes.get("runs_compared", 0) > 1
