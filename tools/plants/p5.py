import sys; sys.path.insert(0, "/work/tools")
from mkplant import plant

plant("c13-maxiter-memo", "C13",
 [("linalg/solvers/stopping_criteria/_maxiter.py", """        if self.maxiter is None:
            return solver_state.step >= solver_state.problem.A.shape[0] * 10
""", """        if self.maxiter is None:
            self.maxiter = solver_state.problem.A.shape[0] * 10
""")],
 "a default iteration limit used for two systems of different size",
 "the limit of the first system bounds all later ones",
 '''
import types
import numpy as np
from probnum.linalg.solvers.stopping_criteria import MaxIterationsStoppingCriterion
def state(n, step): return types.SimpleNamespace(step=step, problem=types.SimpleNamespace(A=np.eye(n)))
c = MaxIterationsStoppingCriterion()
assert c(state(2, 20)) and not c(state(2, 19))
assert c(state(5, 50)) and not c(state(5, 49))
''')

plant("c05-design-memo", "C05",
 [("quad/solvers/initial_designs/_latin_design.py", """        super().__init__(measure=measure, n_nodes=n_nodes)
""", """        super().__init__(measure=measure, n_nodes=n_nodes)
        self._nodes = None
"""), ("quad/solvers/initial_designs/_latin_design.py", """        sampler = qmc.LatinHypercube(d=self.measure.input_dim, seed=rng)
        sample = sampler.random(n=self.n_nodes)
        return qmc.scale(sample, self.measure.domain[0], self.measure.domain[1])
""", """        if self._nodes is None:
            sampler = qmc.LatinHypercube(d=self.measure.input_dim, seed=rng)
            sample = sampler.random(n=self.n_nodes)
            self._nodes = qmc.scale(
                sample, self.measure.domain[0], self.measure.domain[1]
            )
        return self._nodes
""")],
 "a second run of the same quadrature object with a Latin hypercube design",
 "the design of the first run is reused; the second run's generator is ignored",
 '''
import numpy as np
from probnum.quad.solvers import BayesianQuadrature
def mk(): return BayesianQuadrature.from_problem(input_dim=1, domain=(0., 1.), policy="vdc", initial_design="latin",
    options=dict(max_evals=6, n_initial_design_nodes=3))
f = lambda x: np.sin(3 * x[:, 0])
alone = mk().integrate(f, None, None, np.random.default_rng(2))[0].mean
bq = mk()
bq.integrate(f, None, None, np.random.default_rng(1))
again = bq.integrate(f, None, None, np.random.default_rng(2))[0].mean
assert np.allclose(alone, again, rtol=1e-12), (alone, again)
''')

plant("c10-gram-floor", "C10",
 [("linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py",
   "gram_pinv = 1.0 / gram if gram > 0.0 else 0.0",
   "gram_pinv = 1.0 / gram if gram > np.finfo(float).eps ** 0.5 * 1e-3 else 0.0")],
 "an observation along a short action (norm below about 1e-6)",
 "the information of short actions is silently discarded",
 '''
import numpy as np
from probnum import linops, randvars, problems
from probnum.linalg.solvers import ProbabilisticLinearSolver, beliefs, belief_updates, information_ops, stopping_criteria, LinearSolverState
n = 3
A = np.diag([1.0, 2.0, 3.0])
prior = beliefs.LinearSystemBelief(
    A=randvars.Normal(linops.Matrix(np.eye(n)), linops.SymmetricKronecker(linops.Matrix(np.eye(n)))),
    Ainv=randvars.Normal(linops.Matrix(np.eye(n)), linops.SymmetricKronecker(linops.Matrix(np.eye(n)))),
    b=randvars.Constant(np.ones(n)))
prob = problems.LinearSystem(A=linops.Matrix(A), b=np.ones(n))
s = LinearSolverState(problem=prob, prior=prior)
s.action = np.array([0.0, 1e-7, 0.0])
s.observation = A @ s.action
out = belief_updates.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate()(s)
assert np.allclose((out.A.mean @ np.array([0.0, 1.0, 0.0])), [0, 2.0, 0]), out.A.mean @ np.array([0.0, 1.0, 0.0])
''')

plant("c11-mle-batch", "C11",
 [("quad/solvers/belief_updates/_standard_update.py", "                / fun_evals.shape[0]\n", "                / (bq_state.fun_evals.shape[0] + 1)\n")],
 "nodes acquired (or given) in batches of more than one",
 "the estimated scale, hence the variance of the integral, is that of a wrong number of evaluations",
 '''
import numpy as np
from probnum.quad import bayesquad_from_data
x = np.linspace(0.05, 0.95, 6)[:, None]
f = np.cos(2 * x[:, 0]) + 1.0
from probnum.randprocs.kernels import ExpQuad
k = ExpQuad(input_shape=(1,), lengthscales=0.3)
F, _ = bayesquad_from_data(x, f, kernel=k, domain=(0.0, 1.0), options=dict(jitter=1e-10))
F0, _ = bayesquad_from_data(x, f, kernel=k, domain=(0.0, 1.0), options=dict(jitter=1e-10, scale_estimation=None))
G = k.matrix(x) + 1e-10 * np.eye(6)
s2 = f @ np.linalg.solve(G, f) / 6
assert np.isclose(F.var, s2 * F0.var, rtol=1e-4), (F.var, s2 * F0.var)
''')

plant("c06-discretise-memo", "C06",
 [("randprocs/markov/integrator/_iwp.py", """        transition_matrix = (
            self.precon(dt)
            @ self.equivalent_discretisation_preconditioned.transition_matrix
            @ self.precon.inverse(dt)
        )
""", """        if getattr(self, "_last_dt", None) != dt:
            self._last_dt = dt
            self._last_discretisation = self._discretise(dt)
        return self._last_discretisation

    def _discretise(self, dt):
        transition_matrix = (
            self.precon(dt)
            @ self.equivalent_discretisation_preconditioned.transition_matrix
            @ self.precon.inverse(dt)
        )
""")],
 "two threads discretising the same prior with different steps",
 "one thread gets the discretisation of the other thread's step (or an AttributeError)",
 '''
import sys, threading
import numpy as np
from probnum import randprocs
tr = randprocs.markov.integrator.IntegratedWienerTransition(num_derivatives=1, wiener_process_dimension=1)
want = {h: np.array(tr.discretise(h).transition_matrix) for h in (0.1, 0.7)}
bad = []
# deterministic hand-over: the first thread is paused inside the computation
first = threading.Event(); go = threading.Event()
import probnum.randprocs.markov.integrator as I
orig = type(tr.precon).__call__
def paused(self, step):
    if threading.current_thread().name == "A" and not first.is_set():
        first.set(); go.wait(5)
    return orig(self, step)
type(tr.precon).__call__ = paused
def run(h):
    got = tr.discretise(h).transition_matrix
    if not np.allclose(got, want[h]): bad.append((h, got))
a = threading.Thread(target=run, args=(0.1,), name="A"); a.start(); first.wait(5)
def b():
    run(0.1)
t = threading.Thread(target=b, name="B"); t.start(); t.join(); go.set(); a.join()
assert not bad, bad
''')
