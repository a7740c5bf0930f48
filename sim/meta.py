"""Per-property metadata (no numpy / probnum import here)."""
META = {}


def add(pid, quick, thorough, rule, time_unit, real, stub, assumptions, cap_quick=240, cap_thorough=1500):
    META[pid] = dict(runs=dict(quick=quick, thorough=thorough), cap=dict(quick=cap_quick, thorough=cap_thorough),
                     rule=rule, time_unit=time_unit, real=real, stub=stub, assumptions=assumptions)


add("C01", 4000, 100000,
    "one run = one seeded IVP x solver configuration x accept/reject/step-size schedule x fault set; non-trivial = at "
    "least one attempt was rejected or a callback changed the state; distinct = different decision/event log",
    "units of ODE time",
    ["probnum.diffeq ODESolver loop", "WrappedScipyRungeKutta", "PerturbedStepSolver", "ODEFilter", "diffusion calibration",
     "Markov transitions", "Kalman posteriors/dense output"],
    ["step-size controller (scripted StepRule)", "step perturbation noise (scripted)", "user vector field (with poison hook)"],
    ["float comparison tolerance 1e-7 (RK) / 2e-5..1e-4 relative (Gaussian recursions)"])
add("C02", 7000, 150000,
    "one run = one seeded solve (grid), one solve of a vector field that turns hostile (hostile) or one front-end call; "
    "non-trivial = a fault was injected or stops were requested; distinct = different decision/event log",
    "units of ODE time",
    ["probnum.diffeq ODESolver loop", "AdaptiveSteps/ConstantSteps (observed)", "all ODE solvers", "callbacks", "probsolve_ivp", "perturbsolve_ivp"],
    ["scripted step rule (one of three rules)", "user vector field (hostile modes)", "user callbacks"],
    ["liveness = at most 20000-30000 evaluations / 5000-20000 accepted steps on a unit-length problem"])
add("C03", 7000, 150000,
    "one run = one seeded state-space model x observation schedule x implementation choice x way of running it (whole, "
    "step-wise, crashed/abandoned and resumed, merged); non-trivial = a fault/resume/merge happened or the model needed more "
    "than 20 decisions; distinct = different decision/event log",
    "units of model time",
    ["probnum.filtsmooth.gaussian (Kalman, posteriors, EKF/UKF, iterated, Gauss-Newton)", "randprocs.markov transitions",
     "filter_kalman/smooth_rts", "TimeSeriesRegressionProblem, merging"],
    ["user measurement/noise/drift functions (with crash hook)", "stopping criterion of iterated methods (scripted)"],
    ["float comparison tolerance 1e-6 relative times a conditioning factor", "classic (non-square-root) covariance recursions that lose definiteness are discarded"])
add("C04", 2200, 60000,
    "one run = one random object x sample size x history of earlier queries (law scenarios: the draw is probed as an affine image "
    "of scripted base variables), or several objects drawn from several generators in a seeded interleaving (streams); "
    "non-trivial = more than three draws were made; distinct = different decision/event log",
    "units of model time (ODE solutions only)",
    ["randvars sampling (Normal, Categorical, Constant, arithmetic)", "GaussianProcess/MarkovProcess/MarkovSequence sampling",
     "Kalman posterior and ODE-solution sampling", "perturbed steps", "particle filter, bayesquad, linear solver policies, problem zoo (streams)"],
    ["random generator (scripted base variables; real PCG64 in streams)"],
    ["law comparison to 2e-6 relative (3e3 times looser for ODE solutions)",
     "dense Normal/GP samples may drop sample dimensions of length one (pinned by the existing tests)",
     "a draw using base variables the script does not model is discarded"])
add("C12", 9000, 200000,
    "one run = one seeded catalogue and 1-3 retrievals, each with a fault (or none) and a framing per request; non-trivial = any "
    "fault or non-plain framing; distinct = different decision/event log",
    "n/a (requests)",
    ["probnum suitesparse_matrix/_download", "requests sessions, redirects, decoding", "urllib3 response reader", "tarfile/gzip/scipy.io"],
    ["transport adapter and server (simulated)"],
    ["a connection closed inside an index row without announced length is indistinguishable from a shorter index and not injected",
     "corruption is one flipped bit per response"])
add("C08", 16000, 400000,
    "one run = one random program of contexts, assignments, registrations, rejected calls, generators holding contexts, exceptions and "
    "library calls; non-trivial = a context was left or a call rejected; distinct = different decision/event log",
    "n/a (operations)",
    ["probnum.config / Configuration", "Normal Cholesky factors, Matrix products, integrators (option consumers)", "ODE solver, GP and quadrature calls"],
    ["user callables (failing)"],
    ["contexts are used from one thread"])
add("C09", 5000, 150000,
    "one run = one state-space model x data x proposal x threshold x number of particles x scripted draws and ancestor indices; "
    "non-trivial = more than one step or a resampling; distinct = different decision/event log",
    "units of model time",
    ["ParticleFilter, importance distributions, Categorical", "Markov transitions and measurement models", "EKF/UKF linearisation"],
    ["random generator (scripted normals and ancestor indices)", "one user-written importance distribution"],
    ["proposals with condition number above 1e7 are discarded", "resampling that does not draw ancestors with Generator.choice is discarded"])
add("C10", 9000, 200000,
    "one run = one linear system x prior x policy/actions x observations (exact/noisy) x crash point, or one front-end call; "
    "non-trivial = a fault was injected or more than one iteration was made; distinct = different decision/event log",
    "n/a (iterations)",
    ["ProbabilisticLinearSolver loop and state", "all belief updates, beliefs, policies, information operators", "problinsolve, bayescg, linear-operator algebra used by them"],
    ["user-scripted policy / information operator / stopping criterion (with crash hooks)", "random generator of random policies (seeded)"],
    ["float comparison 1e-6..1e-9 relative times a conditioning factor", "numerically ambiguous (nearly dependent) actions are discarded"])
add("C11", 6000, 150000,
    "one run = one integration problem x node history (scripted or built-in policy, batches, initial design, given data, crash/abandon "
    "and resume) judged after every iteration; non-trivial = a fault was injected or more than one step; distinct = different decision/event log",
    "n/a (iterations)",
    ["BayesianQuadrature loop, states, belief update", "all policies, acquisition functions, initial designs, stopping criteria", "kernel embeddings", "bayesquad, bayesquad_from_data, multilevel_bayesquad_from_data"],
    ["user integrand / policy / design / criterion (scripted, with crash hooks)", "measure sampling is recorded (real code)"],
    ["jitter is the documented diagonal term of the Gram matrix", "Gram matrices with condition number above 1e11 are discarded"])
add("C13", 14000, 300000,
    "one run = one iterative method x one stopping rule (random Boolean formula of scripted verdicts, or of built-in criteria with tolerances "
    "placed between the values that occur), possibly crashing/abandoned and repeated; non-trivial = fault injected or more than one iteration; "
    "distinct = different decision/event log",
    "n/a (iterations)",
    ["StoppingCriterion algebra", "built-in criteria of linear solvers, quadrature, iterated filters", "ProbabilisticLinearSolver, problinsolve, BayesianQuadrature, iterated smoothers, GaussNewton, IteratedDiscreteComponent"],
    ["scripted criteria", "scripted policies/actions/nodes"],
    ["comparisons within 1e-5 relative of the tolerance are discarded", "the iterated-filter criterion may use one iteration more than its limit before it raises (pinned by its test)"])
add("C05", 1400, 40000,
    "one run = one family (ODE solvers, filters/smoothers, linear solvers, quadrature) x a world of shared user objects x 2..6 solver runs whose "
    "interleaving (switches inside user code), crashes in user code, abandonment and reuse of method objects are scheduler decisions; "
    "non-trivial = at least two completed runs were compared with the same run alone on fresh objects; distinct = different decision/event log",
    "calls of user code",
    ["all ODE solvers incl. probsolve_ivp/perturbsolve_ivp", "Kalman, iterated and Gauss-Newton smoothers, particle filter, posteriors", "ProbabilisticLinearSolver, BayesCG, problinsolve", "BayesianQuadrature, bayesquad, bayesquad_from_data"],
    ["user functions (vector field, models, integrand, matrix-vector product, callbacks): switch and crash points", "threads run one at a time under the simulator's baton"],
    ["switch points are calls of user code (single-threaded interleaving); preemptive threads are C06", "a run that fails alone is skipped", "read-only flags that random variables put on arrays are not counted as modification"])
add("C06", 9000, 300000,
    "one run = one shared object x per-thread query plans x a line-level interleaving; non-trivial = at least one pre-emption between live "
    "threads; distinct = different decision/event log",
    "source lines executed inside simulated threads",
    ["probnum linops, randvars, randprocs, filtsmooth posteriors, ODE solutions, covfuncs, kernel embeddings, linear-solver beliefs (unmodified)"],
    ["thread scheduler (cooperative, pre-empting at source lines of probnum)", "locks (contention decided by the simulator)", "KeOps back end disabled"],
    ["pre-emption happens between source lines, not between byte codes or inside C code", "answers compared to 1e-7 relative"])
add("C07", 8000, 300000,
    "one run = one object x a history of queries with faults raised at chosen source lines, stores or user calls, then retries; non-trivial = a "
    "fault fired; distinct = different decision/event log",
    "queries",
    ["probnum linops, randvars, randprocs, filtsmooth posteriors, ODE solutions, covfuncs, kernel embeddings, linear-solver beliefs (unmodified)"],
    ["user-supplied callables (raising on demand)", "KeOps back end disabled"],
    ["faults arrive between source lines (asynchronous exceptions) or from user code", "answers compared to 1e-7 relative"])
