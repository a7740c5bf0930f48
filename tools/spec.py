#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note=None, technique=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, state=state, observe=observe, note=note, technique=technique, na=na))


D = "src/probnum/"

P("C01", "Rejected step attempts leave no trace in an ODE solution",
  "Whatever sequence of accepted and rejected attempts, step sizes, step perturbations and state-changing callbacks occurs, the states an ODE solver reports (Runge-Kutta, step-perturbed Runge-Kutta, Gaussian ODE filter and smoother) are those of its one-step method applied exactly once per accepted step to the previously reported state. "
  "Calibrated diffusions, smoothed states and dense output (scalar or vectorised queries) belong to exactly the accepted steps. "
  "Nothing computed in a rejected attempt influences the result.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "all accept/reject/step-size schedules, step perturbations, callback interventions, vector fields, methods, priors, diffusion models",
  "the tests run a handful of problems with the library's own error control, which rejects rarely, and compare against loose error bounds; they never dictate the accept/reject sequence nor compare the result step by step with an independent model",
  [D + "diffeq/_odesolver.py", D + "diffeq/odefilter/_odefilter.py", D + "diffeq/odefilter/_odefilter_solution.py",
   D + "diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py", D + "diffeq/perturbed/step/_perturbedstepsolver.py",
   D + "diffeq/perturbed/step/_perturbedstepsolution.py", D + "randprocs/markov/continuous/_diffusions.py"],
  [("perform_full_step accept/reject loop", "diffeq/_odesolver.py"), ("method_callback: only accepted steps are recorded", "diffeq/perturbed"),
   ("calibration and smoothing in postprocess", "diffeq/odefilter/_odefilter.py")],
  [("interpolants / scales / diffusion model", "per-step records of the running solve", "solver objects")],
  ["ODESolver.solve, ODESolution.__call__, KalmanPosterior"],
  "seeded search; reference: textbook RK step / dense Gaussian filter-smoother recursion; tolerance-based float comparison; one recorded known finding (stale derivative after a rejection)")

P("C02", "ODE solvers hit every requested time, honour callbacks and always progress",
  "The reported time grid starts at t0, increases strictly, contains every requested stop inside the horizon and ends exactly at the end of the (possibly callback-extended) horizon; constant steps are shortened only to land on such a time, adaptive steps are accepted only if the error is within atol + rtol*|state| and change within the configured limits. "
  "After every accepted step each callback is consulted once, in order, and what the last one returns is what is reported and continued from. "
  "For any vector field (NaN, infinite, discontinuous, raising, stiff) an adaptive solve ends after a bounded number of evaluations, with an exception rather than a non-finite or out-of-tolerance accepted state.",
  ["schedules", "fault_sequences", "inputs", "configurations", "histories"],
  "all step rules and controllers, stop sets (duplicates, near-coinciding, beyond the horizon, any iterable), callback chains, solvers and hostile vector fields",
  "tests use a few stop sets on friendly problems with single callbacks; they do not vary roundoff-sized gaps, one-shot iterables, chained callbacks or faulty vector fields, and cannot show termination",
  [D + "diffeq/_odesolver.py", D + "diffeq/_utils.py", D + "diffeq/stepsize/_steprule.py", D + "diffeq/stepsize/_propose_firststep.py",
   D + "diffeq/callbacks/_callback.py", D + "diffeq/_probsolve_ivp.py", D + "diffeq/_perturbsolve_ivp.py"],
  [("_time_stopper, clipping of the step to the next stop", "diffeq/_odesolver.py"), ("AdaptiveSteps", "diffeq/stepsize/_steprule.py")],
  [("current stop / step size", "what the next attempt uses", "diffeq/_odesolver.py")],
  ["ODESolver.solution_generator, ODESolver.solve, probsolve_ivp, perturbsolve_ivp"],
  "seeded search; bounded evaluation budgets stand for liveness")

P("C03", "Gaussian filtering and smoothing equal exact conditioning for any data schedule",
  "For a linear Gaussian state-space model (time-invariant or time-varying prior and measurement models) and any arrival schedule of observations, filtering returns the exact law given the past observations and smoothing the exact law given all of them, at every location and at every queried time in between or beyond, for every implementation choice. "
  "Splitting a run, abandoning and resuming it from the last yielded state, merging observation sets, or mixing measurement models per time changes nothing.",
  ["schedules", "histories", "inputs", "configurations", "crash_points"],
  "all priors, measurement models, observation times (irregular, far apart, close together, before/after the start), data and implementations (classic, sqrt, Joseph)",
  "tests check finiteness, error bounds or one equidistant time-invariant model; no test compares filter, smoother and dense output with the joint Gaussian posterior for irregular and time-varying schedules",
  [D + "filtsmooth/gaussian/_kalman.py", D + "filtsmooth/gaussian/_kalmanposterior.py", D + "filtsmooth/_timeseriesposterior.py",
   D + "randprocs/markov/_transition.py", D + "randprocs/markov/discrete/_linear_gaussian.py", D + "randprocs/markov/discrete/_lti_gaussian.py",
   D + "randprocs/markov/discrete/_condition_state.py", D + "randprocs/markov/continuous/_linear_sde.py", D + "randprocs/markov/continuous/_lti_sde.py",
   D + "randprocs/markov/continuous/_mfd.py", D + "randprocs/markov/integrator/*.py", D + "filtsmooth/gaussian/approx/*.py",
   D + "problems/_problems.py", D + "filtsmooth/utils/_merge_regression_problems.py"],
  [("filtered_states_generator / smooth", "filtsmooth/gaussian/_kalman.py"), ("interpolate / extrapolate", "filtsmooth/gaussian/_kalmanposterior.py"),
   ("forward/backward transitions", "randprocs/markov")],
  [("filtering state", "law given the data so far", "KalmanPosterior.states")],
  ["Kalman.filter, Kalman.filtsmooth, FilteringPosterior, SmoothingPosterior"],
  "seeded search; reference: dense joint Gaussian conditioned on all observations at once")

P("C04", "Random draws follow the object's law and depend only on the given generator",
  "Every sample (random variables, random and Markov processes, Gauss-Markov posteriors, ODE-filter solutions) is, as a function of the base randomness supplied by the caller's generator, distributed with the mean and joint covariance the object reports, for every sample shape and set of query points. "
  "It consumes no randomness other than the generator passed in: equal generator states give equal draws, other generators and global random state are neither read nor advanced. "
  "Earlier draws and queries do not change later ones.",
  ["inputs", "histories", "configurations"],
  "all generator outputs, sample shapes, query schedules, interleavings of draws on several generators",
  "tests check shapes and reproducibility of single calls, never the joint law of a draw nor independence from other randomness sources",
  [D + "randvars/_random_variable.py", D + "randvars/_normal.py", D + "randvars/_categorical.py", D + "randvars/_constant.py", D + "randprocs/_gaussian_process.py",
   D + "randprocs/_random_process.py", D + "randprocs/markov/_markov.py", D + "randprocs/markov/_transition.py", D + "filtsmooth/gaussian/_kalmanposterior.py",
   D + "diffeq/odefilter/_odefilter_solution.py", D + "diffeq/perturbed/step/_perturbation_functions.py"],
  [("affine transformation of base measure realisations", "KalmanPosterior.transform_base_measure_realizations"), ("sample / _sample", "randvars/_normal.py")],
  [("rng", "the caller's generator", "argument")],
  ["RandomVariable.sample, RandomProcess.sample, KalmanPosterior.sample, ODEFilterSolution.sample"],
  "seeded search; scripted generator exposes the affine map of standard normals, so L L^T is compared with the claimed covariance exactly (no statistical test)")

P("C05", "Runs are isolated: abandoning, crashing, interleaving or reusing leaves no trace",
  "A run of any solver (ODE solver, Kalman/iterated/Gauss-Newton/particle filter, probabilistic linear solver, Bayesian quadrature) gives the same result whether it is executed alone and fresh, interleaved step by step with other runs that share its inputs (problem, prior, data, policies, rules), or executed with objects that were used, abandoned midway or crashed in user code before. "
  "Arrays passed in by the user keep their values, and a returned result is not altered by later runs.",
  ["schedules", "crash_points", "histories", "fault_sequences"],
  "all interleavings of step-wise runs, abandonment points, user-callback crash points and reuse histories",
  "tests build fresh objects per case and run each method once to completion",
  [D + "diffeq/_odesolver.py", D + "diffeq/odefilter/_odefilter.py", D + "filtsmooth/gaussian/_kalman.py", D + "filtsmooth/optim/_gauss_newton.py",
   D + "filtsmooth/optim/_stopping_criterion.py", D + "filtsmooth/particle/_particle_filter.py", D + "linalg/solvers/_probabilistic_linear_solver.py",
   D + "linalg/solvers/_state.py", D + "quad/solvers/_bayesian_quadrature.py", D + "quad/solvers/_bq_state.py", D + "randprocs/markov/integrator/_preconditioner.py"],
  [("per-run state objects", "linalg/solvers/_state.py, quad/solvers/_bq_state.py"), ("generators", "all solution generators")],
  [("solver attributes", "state kept on shared objects", "various")],
  ["the public solve/filter/integrate methods and their generators"],
  "seeded search over interleavings, abandonment and crash points; reference = the same run alone with fresh objects")

P("C06", "Sharing value objects between threads is safe",
  "Random variables, linear operators, priors, posteriors and functions are value objects: when several threads query the same object concurrently (means, covariances, Cholesky factors, determinants, inverses, samples with own generators, evaluations), every thread gets the answer a single-threaded caller gets, and no query fails.",
  ["schedules", "histories"],
  "all line-level interleavings of concurrent queries on shared objects, for cold and warm caches",
  "no test uses threads; lazily filled caches make the outcome depend on the interleaving",
  [D + "linops/_linear_operator.py", D + "linops/_arithmetic.py", D + "randvars/_normal.py", D + "randvars/_random_variable.py", D + "randprocs/markov/continuous/_lti_sde.py",
   D + "randprocs/markov/integrator/_preconditioner.py", D + "filtsmooth/gaussian/_kalmanposterior.py", D + "linalg/solvers/beliefs/_linear_system_belief.py", D + "_config.py"],
  [("lazy caches", "LinearOperator, Normal, functools.cached_property / lru_cache")],
  [("_*_cache attributes", "memoised results", "linops/_linear_operator.py")],
  ["public attributes and methods of the shared object"],
  "seeded search; cooperative scheduler with pre-emption at source-line granularity inside probnum; reference = single-threaded answers")

P("C07", "A failed query leaves the object usable and a retry gives the right answer",
  "If a query on an object fails midway (a user-supplied operation raises, memory runs out, a factorisation fails, an interrupt arrives) the exception reaches the caller, and the object afterwards answers this and every other query exactly as an object on which nothing ever failed; failed queries never leave partial or wrong results behind.",
  ["crash_points", "fault_sequences", "histories"],
  "all fault points inside lazily computed queries and all query histories before and after the fault",
  "tests never make an operation fail halfway and then reuse the object",
  [D + "linops/_linear_operator.py", D + "linops/_arithmetic.py", D + "linops/_kronecker.py", D + "randvars/_normal.py", D + "randvars/_random_variable.py",
   D + "randprocs/markov/continuous/_lti_sde.py", D + "linalg/solvers/beliefs/_linear_system_belief.py", D + "filtsmooth/gaussian/_kalmanposterior.py"],
  [("caches are filled only after success", "linops/_linear_operator.py")],
  [("caches", "memoised results", "linops, randvars")],
  ["public queries"],
  "seeded search over crash points at source-line granularity and failing user callables; reference = fresh object")

P("C08", "Configuration changes are scoped: contexts restore, errors change nothing",
  "Inside a configuration context the requested options have the requested values, and after leaving it - normally, by an exception, by an early return or when a generator holding it is closed, in any nesting - every option it set has the value it had on entry. "
  "A rejected configuration call (unknown option, double registration) changes nothing; direct assignments made outside any context persist; results computed under the options reflect the value in force.",
  ["histories", "crash_points", "fault_sequences"],
  "all nestings and orders of contexts, assignments, registrations, errors and resets",
  "the tests enter one context at a time and leave it normally",
  [D + "_config.py", D + "linops/_linear_operator.py", D + "randvars/_normal.py"],
  [("__call__ context manager", "_config.py")],
  [("option values", "process-global configuration", "_config.py")],
  ["probnum.config"],
  "seeded search over operation histories with crash points; reference = a dictionary with a stack")

P("C09", "Particle filtering equals sequential importance resampling of its own draws",
  "For every realisation of the generator's draws, every data schedule and importance distribution, the particle filter's states are exactly those of textbook sequential importance sampling with resampling: particles are propagated from the previous (resampled) particles, weights multiply the previous weights by likelihood times prior over proposal and sum to one, and resampling happens exactly when the effective number of particles falls below the threshold. "
  "Weights stay normalised however unlikely the data are, and the reported law (support, probabilities, probability mass function, mode, effective number of particles) is the weighted empirical law of those particles.",
  ["inputs", "schedules", "histories", "configurations"],
  "all draws, data, thresholds, numbers of particles and importance distributions",
  "tests check shapes and a loose error bound on one example; they cannot tell whether weights and ancestors are right",
  [D + "filtsmooth/particle/_particle_filter.py", D + "filtsmooth/particle/_importance_distributions.py", D + "filtsmooth/particle/_particle_filter_posterior.py", D + "randvars/_categorical.py"],
  [("compute_new_particles / weights / resampling", "filtsmooth/particle/_particle_filter.py")],
  [("particles, weights", "weighted empirical law", "Categorical states")],
  ["ParticleFilter.filter, filter_generator, ParticleFilterPosterior"],
  "seeded search; the reference replays the recorded draws of the seam generator")

P("C10", "The linear-system belief equals exact Gaussian conditioning after every step",
  "After every iteration of a probabilistic linear solver, for any sequence of actions (any policy, user-scripted policies, repeated, random or zero-information actions) and observations (exact or noisy), the belief over the solution (and in the matrix-based view over the inverse, matrix and right-hand side) equals the prior conditioned on all information gathered so far, the reported residual equals b - A x, and stopping criteria are evaluated on exactly that belief. "
  "With conjugate directions the symmetric solvers reproduce the conjugate gradient iterates.",
  ["histories", "inputs", "schedules", "configurations"],
  "all systems, priors, policies, action orders, stopping criteria and iteration counts",
  "tests solve a few systems to convergence and check the final error",
  [D + "linalg/solvers/_probabilistic_linear_solver.py", D + "linalg/solvers/_state.py", D + "linalg/solvers/belief_updates/*", D + "linalg/solvers/beliefs/*",
   D + "linalg/solvers/policies/*", D + "linalg/solvers/information_ops/*", D + "linalg/solvers/stopping_criteria/*", D + "linalg/_problinsolve.py", D + "linalg/_bayescg.py"],
  [("belief updates", "linalg/solvers/belief_updates")],
  [("actions, observations, residuals", "history of the run", "linalg/solvers/_state.py")],
  ["ProbabilisticLinearSolver.solve_iterator, solve, problinsolve, bayescg"],
  "seeded search; reference = batch conditioning with dense matrices")

P("C11", "The Bayesian-quadrature belief equals the batch Gaussian-process posterior",
  "After any sequence of node acquisitions (any policy, batch size, order, initial design, user-scripted policies, repeated calls), the integral belief equals the exact Gaussian-process posterior of the integral given all nodes evaluated so far; batching and order do not matter, the integrand is evaluated exactly at the selected nodes, and acquisition ends with the first batch that reaches the budget or a tolerance. "
  "Built-in policies select what they document (samples of the measure, the van der Corput sequence, maximisers of the acquisition function for the current belief). "
  "Rerunning with the same generator state reproduces the result.",
  ["histories", "inputs", "schedules", "configurations", "fault_sequences"],
  "all integrands, measures, kernels, policies, batch sizes, node orders and stopping criteria",
  "tests check convergence of the estimate on easy integrands",
  [D + "quad/_bayesquad.py", D + "quad/solvers/_bayesian_quadrature.py", D + "quad/solvers/belief_updates/_belief_update.py", D + "quad/solvers/_bq_state.py",
   D + "quad/solvers/policies/*", D + "quad/solvers/stopping_criteria/*", D + "quad/solvers/acquisition_functions/*", D + "quad/kernel_embeddings/*"],
  [("bq_iterator", "quad/solvers/_bayesian_quadrature.py"), ("BQStandardBeliefUpdate", "quad/solvers/belief_updates")],
  [("nodes, fun_evals, gram", "history of the run", "quad/solvers/_bq_state.py")],
  ["bayesquad, bayesquad_from_data, BayesianQuadrature.integrate, bq_iterator"],
  "seeded search; reference = batch GP posterior with independently integrated kernel")

P("C12", "SuiteSparse retrieval is all-or-nothing under network faults",
  "For every behaviour of the network (refused connections, timeouts, HTTP errors, redirects, truncated, corrupted or duplicated bodies, missing length headers, HTML instead of data) retrieving a matrix either returns exactly the requested matrix with its index entry or raises; it never returns a wrong, partial or stale object and leaves no temporary files behind. Any complete valid exchange (redirected, compressed, without length header, delivered in small pieces, archives with further files) succeeds, also after earlier failures.",
  ["fault_sequences", "crash_points", "histories"],
  "all fault sequences on the connection and all response framings",
  "tests need the real network and only exercise the success path",
  [D + "problems/zoo/linalg/_suitesparse_matrix.py"],
  [("_download", "problems/zoo/linalg/_suitesparse_matrix.py")],
  [],
  ["suitesparse_matrix"],
  "seeded search; requests runs real code, the transport adapter is a simulated server")

P("C13", "Iterations stop exactly when their stopping rule says so",
  "Every iterative method (linear solvers, quadrature, iterated filtering and smoothing, Gauss-Newton) evaluates its stopping rule on the current state before doing more work, performs no further iteration once the rule holds and at least one more while it does not, with maximum-iteration rules bounding every run; combined criteria ('and', 'or', negation) decide as the corresponding Boolean formula of their parts, and tolerance criteria hold exactly if the compared magnitude is at most the tolerance.",
  ["histories", "inputs", "schedules", "configurations"],
  "all criteria combinations, tolerances, verdict sequences and iteration histories",
  "tests check single criteria on fixed states",
  [D + "_pnmethod/_stopping_criterion.py", D + "linalg/solvers/stopping_criteria/*", D + "quad/solvers/stopping_criteria/*", D + "filtsmooth/optim/_stopping_criterion.py", D + "filtsmooth/optim/_gauss_newton.py",
   D + "filtsmooth/optim/_iterated_component.py", D + "filtsmooth/gaussian/_kalman.py", D + "linalg/solvers/matrixbased.py", D + "linalg/solvers/_probabilistic_linear_solver.py", D + "quad/solvers/_bayesian_quadrature.py"],
  [("LambdaStoppingCriterion algebra", "_pnmethod/_stopping_criterion.py")],
  [("iteration counters", "number of completed iterations", "solver states")],
  ["solve_iterator, bq_iterator, iterated smoothers, GaussNewton"],
  "seeded search with scripted verdicts")

NA = [
  ("C90", "Linear-operator algebra agrees with dense matrix algebra",
   "Every expression of linear operators (sums, products, transposes, inverses, Kronecker products, slices) acts on vectors exactly as the corresponding dense matrix expression.",
   [D + "linops/*"], "pure functions of their inputs: no scheduling, time, I/O, randomness or failure for a simulator to control (the stateful part, lazy caches, is C06/C07)"),
  ("C91", "Random-variable arithmetic follows the laws of transformed variables",
   "Sums, products with constants, slices and linear maps of random variables have exactly the moments of the transformed variable.",
   [D + "randvars/_arithmetic.py", D + "randvars/_normal.py"], "pure functions of immutable values; nothing to schedule and no fault to inject (sampling from the results is C04)"),
  ("C92", "Covariance functions are symmetric positive semi-definite and batch consistently",
   "Every covariance function yields symmetric positive semi-definite Gram matrices that agree between batched, broadcast and matrix evaluation.",
   [D + "randprocs/covfuncs/*", D + "randprocs/kernels/*"], "pure numerical functions without state, time, concurrency or I/O"),
  ("C93", "Kernel embeddings equal the integrals of the kernel",
   "Kernel means and variances equal the integrals of the kernel under the integration measure for all parameters.",
   [D + "quad/kernel_embeddings/*"], "closed-form pure functions; only the parts used by a run are exercised, through C11"),
  ("C94", "Function algebra and test-problem constructors are correct",
   "Sums, scalings and compositions of functions evaluate pointwise, and the problem constructors return problems whose solutions satisfy them.",
   [D + "functions/*", D + "problems/zoo/*"], "pure constructors and pointwise functions; no nondeterminism or failure enters (the network-backed constructor is C12)"),
]
for id_, title, st, files, reason in NA:
    P(id_, title, st, ["inputs"], "all inputs", "tests sample a few inputs", files, [("pure functions", files[0])], na=reason)

CLAIMED = os.environ.get("CLAIMED", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13").split()
TECH = "deterministic simulation with fault injection: seeded search over schedules/faults, independent reference model, shrinking replay"

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            if not p["na"] and p["id"] not in CLAIMED:
                continue
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=m[0], where=m[1]) for m in p["mech"]],
                             observe_at=list(p["observe"]), hook_needed=None))) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c \"from sim import env; env.bootstrap(); print('ok')\"",
        checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                     thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                     technique=p["technique"] or TECH, level="exploration", level_note=p["note"])
                for p in PROPS if not p["na"] and p["id"] in CLAIMED],
        not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]],
        notes="No hooks in /repo: every seam is an existing interface (StepRule, rng argument, user callables, callbacks, generators, stopping criteria, policies, the requests transport adapter, sys.settrace). /repo carries only 'fix:' commits.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
