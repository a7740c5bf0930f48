import sys; sys.path.insert(0, "/verif/tools")
from mkplant import plant

plant("c01-constdiff-rejected", "C01",
 [("diffeq/odefilter/_odefilter.py", """        if not self.steprule.is_accepted(internal_norm):
            t_new = state.t + dt
""", """        # A constant diffusion benefits from every residual that has been computed.
        if self._calibrate_all_states_post_hoc:
            self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)

        if not self.steprule.is_accepted(internal_norm):
            t_new = state.t + dt
"""), ("diffeq/odefilter/_odefilter.py", """        self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)

        if self._calibrate_at_each_step:
""", """        if self._calibrate_at_each_step:
            self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)

        if self._calibrate_at_each_step:
""")],
 "an ODE filter with constant diffusion and a step rule that rejects at least one attempt",
 "the calibrated diffusion of a constant-diffusion ODE filter includes the residuals of rejected attempts",
 '''
import numpy as np
from probnum import diffeq, problems, randprocs
from probnum.diffeq import stepsize

class Script(stepsize.StepRule):
    def __init__(self, plan): self.plan = list(plan); super().__init__(firststep=plan[0][0])
    def suggest(self, laststep, scaled_error, localconvrate=None):
        if len(self.plan) > 1: self.plan.pop(0)
        return self.plan[0][0]
    def is_accepted(self, e): return self.plan[0][1]
    def errorest_to_norm(self, errorest, reference_state): return 0.0

def run(plan):
    ivp = problems.InitialValueProblem(t0=0., tmax=1., y0=np.array([0.3]), f=lambda t, y: y * (1 - y), df=lambda t, y: np.diag(1 - 2 * y))
    prior = randprocs.markov.integrator.IntegratedWienerProcess(initarg=0., num_derivatives=2, wiener_process_dimension=1, forward_implementation="sqrt", backward_implementation="sqrt")
    s = diffeq.odefilter.ODEFilter(steprule=Script(plan), prior_process=prior, diffusion_model=randprocs.markov.continuous.ConstantDiffusion())
    sol = s.solve(ivp)
    return sol.locations, np.array([float(rv.cov[0, 0]) for rv in sol.states])

a = run([(0.25, True)] * 8)
b = run([(0.25, True), (0.8, False), (0.25, True), (0.25, True), (0.25, True)])
assert np.allclose(a[0], b[0]), (a, b)
assert np.allclose(a[1], b[1], rtol=1e-8, atol=0), (a[1], b[1])
''')

plant("c02-duplicate-stops", "C02",
 [("diffeq/_odesolver.py", """    next_location = stopper_state.next_location
    while t >= next_location:
        next_location = next(stopper_state.locations, np.inf)

    dt = _land_on(next_location, t=t, dt=dt)
""", """    if t >= stopper_state.next_location:
        next_location = next(stopper_state.locations, np.inf)
    else:
        next_location = stopper_state.next_location

    if next_location > t:
        dt = _land_on(next_location, t=t, dt=dt)
""")],
 "stop_at with the same time twice (or a stop at/before t0) followed by another stop",
 "a requested stop right after a duplicated (or already passed) stop is stepped over",
 '''
import numpy as np
from probnum import diffeq, problems
ivp = problems.InitialValueProblem(t0=0., tmax=2., y0=np.array([0.3]), f=lambda t, y: y * (1 - y), df=lambda t, y: np.diag(1 - 2 * y))
sol = diffeq.probsolve_ivp(ivp.f, 0., 2., ivp.y0, df=ivp.df, adaptive=False, step=0.25, time_stops=[0.4, 0.4, 0.4, 0.45])
loc = np.asarray(sol.locations)
assert np.any(loc == 0.4) and np.any(np.abs(loc - 0.45) < 1e-14), loc
''')

plant("c03-close-times", "C03",
 [("filtsmooth/gaussian/_kalman.py", """            # Predict if there is a time-increment
            if dt > 0:
""", """            # Predict if there is a time-increment
            if not np.isclose(t, t_old):
""")],
 "observation times that are large compared to their spacing (t=5000, gaps of 0.03)",
 "no prediction happens between observations whose gap is small relative to the absolute time",
 '''
import numpy as np
from probnum import filtsmooth, problems, randprocs, randvars
mk = randprocs.markov
def run(t0):
    tr = mk.continuous.LTISDE(np.array([[-0.5]]), np.zeros(1), np.array([[1.0]]))
    p = mk.MarkovProcess(initarg=t0, initrv=randvars.Normal(np.ones(1), np.eye(1)), transition=tr)
    m = mk.discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), 0.1 * np.eye(1)))
    prob = problems.TimeSeriesRegressionProblem(locations=t0 + 0.03 * np.arange(5), observations=np.arange(5.)[:, None], measurement_models=m)
    post, _ = filtsmooth.gaussian.Kalman(p).filter(prob)
    return np.array([[float(s.mean[0]), float(s.cov[0, 0])] for s in post.states])
assert np.allclose(run(0.0), run(5000.0), rtol=1e-6), (run(0.0), run(5000.0))
''')
