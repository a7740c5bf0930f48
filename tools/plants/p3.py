import sys; sys.path.insert(0, "/work/tools")
from mkplant import plant

plant("c05-cg-memory", "C05",
 [("linalg/solvers/policies/_conjugate_gradient.py", """        self._reorthogonalization_fn_action = reorthogonalization_fn_action

    def __call__""", """        self._reorthogonalization_fn_action = reorthogonalization_fn_action
        self._last_action = None

    def __call__"""),
  ("linalg/solvers/policies/_conjugate_gradient.py", """                )

            return residual
        else:""", """                )

            self._last_action = residual
            return residual
        else:"""),
  ("linalg/solvers/policies/_conjugate_gradient.py", """            action = residual + beta * solver_state.actions[solver_state.step - 1]
""", """            last_action = self._last_action
            if last_action is None:
                last_action = solver_state.actions[solver_state.step - 1]
            action = residual + beta * last_action
"""),
  ("linalg/solvers/policies/_conjugate_gradient.py", """                )

            return action

    def _reorth""", """                )

            self._last_action = action
            return action

    def _reorth"""),
  ],
 "two runs of solvers sharing a policy object, interleaved step by step",
 "the conjugate gradient policy remembers the last action of whichever run called it last",
 '''
import numpy as np
from probnum import linops, randvars, problems
from probnum.linalg.solvers import BayesCG, beliefs, stopping_criteria
rng = np.random.default_rng(0)
def system(k):
    M = np.random.default_rng(k).normal(size=(5, 5)); A = M @ M.T + np.eye(5)
    return problems.LinearSystem(A=linops.Matrix(A), b=np.arange(1., 6.) * k)
def prior(): return beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(5), np.eye(5)))
solver = BayesCG(stopping_criterion=stopping_criteria.MaxIterationsStoppingCriterion(4))
alone = [solver.solve(prior(), system(k))[0].x.mean for k in (1, 2)]
its = [solver.solve_iterator(prior(), system(k)) for k in (1, 2)]
last = [None, None]
for _ in range(5):
    for i in (0, 1):
        last[i] = next(its[i])
for i in (0, 1):
    assert np.allclose(last[i].belief.x.mean, alone[i]), (last[i].belief.x.mean, alone[i])
''')

plant("c06-cond-cache", "C06",
 [("linops/_linear_operator.py", """            self._cond_cache[p] = self._cond(p)

        return self._cond_cache[p]
""", """            self._cond_cache = {p: self._cond(p)}

        return self._cond_cache[p]
""")],
 "two threads asking one operator for condition numbers in different norms",
 "one of the threads gets a KeyError instead of its condition number",
 '''
import threading
import numpy as np
from probnum import linops
op = linops.Matrix(np.array([[2., 1.], [0., 3.]]))
want = op.cond(), linops.Matrix(np.array([[2., 1.], [0., 3.]])).cond(p=1)
class Slow(linops.Matrix):
    def _cond(self, p): return super()._cond(p)
# deterministic interleaving: thread 2 runs to completion when thread 1 returns from its lookup-miss computation
import sys
ok, err = [], []
op = linops.Matrix(np.array([[2., 1.], [0., 3.]]))
def other():
    ok.append(op.cond(p=1))
def tracer(frame, event, arg):
    if frame.f_code.co_name != "cond" or not frame.f_code.co_filename.endswith("_linear_operator.py"):
        return None
    def line(frame, event, arg):
        if event == "line" and not ok and op._cond_cache:
            t = threading.Thread(target=other); t.start(); t.join()
        return line
    return line
def first():
    sys.settrace(tracer)
    try:
        ok.append(op.cond())
    except Exception as e:
        err.append(e)
    finally:
        sys.settrace(None)
t = threading.Thread(target=first); t.start(); t.join()
assert not err and sorted(ok) == sorted(want), (err, ok, want)
''')

plant("c07-lu-cache", "C07",
 [("linops/_linear_operator.py", """            if info > 0:
                raise np.linalg.LinAlgError(
                    f"Diagonal number {info} is exactly zero. Singular matrix."
                )

            self._lu_cache = lu, piv

""", """            self._lu_cache = lu, piv

            if info > 0:
                raise np.linalg.LinAlgError(
                    f"Diagonal number {info} is exactly zero. Singular matrix."
                )

""")],
 "a second solve with an exactly singular operator after the first one failed",
 "the failed factorisation is cached, the next solve returns infinities instead of raising",
 '''
import numpy as np
from probnum import linops
op = linops.Matrix(np.array([[1., 2.], [0., 0.]]))
for _ in range(2):
    try:
        x = op.solve(np.ones(2))
    except np.linalg.LinAlgError:
        continue
    raise AssertionError(x)
''')

plant("c07-diagonal-buffer", "C07",
 [("linops/_linear_operator.py", """        self._diagonal_cache = None
""", """        self._diagonal_cache = None
        self._basis_vector = None
"""),
  ("linops/_linear_operator.py", """        vec = np.zeros(self.shape[1], dtype=self.dtype)

        for i in range(D):
            vec[i] = 1
""", """        if self._basis_vector is None:
            self._basis_vector = np.zeros(self.shape[1], dtype=self.dtype)
        vec = self._basis_vector

        for i in range(D):
            vec[i] = 1
""")],
 "a matrix-free operator whose product fails (user error, interrupt) while its diagonal is computed, then asking again",
 "the work vector keeps the entry set before the failure, the diagonal asked for afterwards is wrong",
 '''
import numpy as np
from probnum import linops
M = np.arange(9.).reshape(3, 3)
fail = [True]
def matmul(x):
    if fail[0] and x[1, 0] == 1:
        fail[0] = False
        raise OSError("user code")
    return M @ x
op = linops.LambdaLinearOperator((3, 3), float, matmul=matmul)
try:
    op.diagonal()
except OSError:
    pass
assert np.allclose(op.diagonal(), np.diag(M)), op.diagonal()
''')

plant("c10-noisy-cov", "C10",
 [("linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py", """        cov_update = np.outer(gain, cov_xy)
""", """        cov_update = np.outer(gain, gain) * (action_A @ cov_xy)
""")],
 "noisy projected residuals (noise_var > 0)",
 "the covariance contracts less than the conditioning says",
 '''
import numpy as np
from probnum import linops, randvars, problems
from probnum.linalg.solvers import ProbabilisticLinearSolver, beliefs, stopping_criteria, policies, information_ops, belief_updates
A = np.array([[2., .5], [.5, 1.]]); b = np.ones(2)
s = ProbabilisticLinearSolver(policy=policies.ConjugateGradientPolicy(), information_op=information_ops.ProjectedResidualInformationOp(),
   belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=0.5), stopping_criterion=stopping_criteria.MaxIterationsStoppingCriterion(1))
bel, st = s.solve(beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(2), np.eye(2))), problems.LinearSystem(A=linops.Matrix(A), b=b))
u = A @ st.actions[0]
want = np.eye(2) - np.outer(u, u) / (u @ u + 0.5)
got = bel.x.cov
got = got.todense() if hasattr(got, "todense") else got
assert np.allclose(got, want), (got, want)
''')

plant("c11-design-order", "C11",
 [("quad/solvers/_bayesian_quadrature.py", """                fun_evals = np.append(fun_evals, initial_design_fun_evals)
""", """                fun_evals = np.append(initial_design_fun_evals, fun_evals)
""")],
 "both fixed nodes and an initial design",
 "the function values are attached to the wrong nodes",
 '''
import numpy as np
from probnum.quad.solvers import BayesianQuadrature
f = lambda x: x[:, 0] ** 2
from probnum.quad.integration_measures import LebesgueMeasure
bq = BayesianQuadrature.from_problem(input_dim=1, domain=(0., 1.), policy="bmc", initial_design="latin",
     options=dict(batch_size=1, max_evals=6, num_initial_design_nodes=3))
nodes = np.array([[0.1], [0.7]])
_, st, _ = bq.integrate(f, nodes, f(nodes), rng=np.random.default_rng(1))
assert np.allclose(st.fun_evals, f(st.nodes)), (st.fun_evals, f(st.nodes))
''')

plant("c13-maxiter-equal", "C13",
 [("linalg/solvers/stopping_criteria/_maxiter.py", """        return solver_state.step >= self.maxiter
""", """        return solver_state.step == self.maxiter
""")],
 "an iteration maximum combined with another criterion by 'and' which is met only later",
 "the maximum no longer holds after it was passed, the run does not stop when both parts hold",
 '''
import numpy as np
from probnum import LambdaStoppingCriterion, linops, randvars, problems
from probnum.linalg.solvers import BayesCG, beliefs, stopping_criteria
crit = stopping_criteria.MaxIterationsStoppingCriterion(2) & LambdaStoppingCriterion(lambda solver_state: solver_state.step >= 3)
crit = crit | LambdaStoppingCriterion(lambda solver_state: solver_state.step >= 5)
s = BayesCG(stopping_criterion=crit)
A = np.diag(np.arange(1., 9.))
_, st = s.solve(beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(8), np.eye(8))), problems.LinearSystem(A=linops.Matrix(A), b=np.ones(8)))
assert st.step == 3, st.step
''')
