import sys; sys.path.insert(0, "/work/tools")
from mkplant import plant

plant("c02-first-callback-only", "C02",
 [("diffeq/_odesolver.py", """                for callback in callbacks:
                    state = callback(state)
""", """                for callback in callbacks:
                    old_state, state = state, callback(state)
                    # An event was handled, the step is complete
                    if state is not old_state:
                        break
""")],
 "two callbacks that both fire after the same accepted step",
 "callbacks after the first one that changes the state are not consulted",
 '''
import dataclasses
import numpy as np
from probnum import diffeq, problems, randvars
ivp = problems.InitialValueProblem(t0=0., tmax=2., y0=np.array([0.3]), f=lambda t, y: y * (1 - y), df=lambda t, y: np.diag(1 - 2 * y))
calls = []
def a(state): calls.append("a"); return dataclasses.replace(state, rv=randvars.Normal(state.rv.mean + 0., state.rv.cov))
def b(state): calls.append("b"); return state
import inspect
from probnum.diffeq import stepsize
from probnum.randprocs import markov
prior = markov.integrator.IntegratedWienerProcess(initarg=0., num_derivatives=2, wiener_process_dimension=1, forward_implementation="sqrt", backward_implementation="sqrt")
s = diffeq.odefilter.ODEFilter(steprule=stepsize.ConstantSteps(0.5), prior_process=prior)
s.solve(ivp, callbacks=[a, b])
assert calls == ["a", "b"] * 4, calls
''')

plant("c09-dynamics-time", "C09",
 [("filtsmooth/particle/_particle_filter.py", "                p, data, t_old, dt, measurement_model=measmod\n", "                p, data, t, dt, measurement_model=measmod\n")],
 "a prior whose dynamics depend on time",
 "particles are propagated with the dynamics at the end instead of the beginning of the interval",
 '''
import numpy as np
from probnum import filtsmooth, problems, randprocs, randvars
mk = randprocs.markov
tr = mk.discrete.LinearGaussian(input_dim=1, output_dim=1, transition_matrix_fun=lambda t: np.array([[1. + t]]),
        noise_fun=lambda t: randvars.Normal(np.zeros(1), 1e-10 * np.eye(1)))
p = mk.MarkovSequence(initarg=0., initrv=randvars.Normal(np.ones(1), 1e-10 * np.eye(1)), transition=tr)
m = mk.discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), np.eye(1)))
prob = problems.TimeSeriesRegressionProblem(locations=np.array([1., 2.]), observations=np.ones((2, 1)), measurement_models=m)
pf = filtsmooth.particle.ParticleFilter(p, filtsmooth.particle.BootstrapImportanceDistribution(tr), num_particles=4, rng=np.random.default_rng(1))
post, _ = pf.filter(prob)
assert np.allclose(post.states[0].support, 1., atol=1e-3) and np.allclose(post.states[1].support, 2., atol=1e-3), [s.support for s in post.states]
''')

plant("c12-group-fallback", "C12",
 [("problems/zoo/linalg/_suitesparse_matrix.py", """        if row["group"] == group and row["name"] == name:
            matrix_attr_dict = row
            matrix_attr_dict["matid"] = f"{matid}"
""", """        if row["name"] == name and (row["group"] == group or matrix_attr_dict is None):
            matrix_attr_dict = row
            matrix_attr_dict["matid"] = f"{matid}"
""")],
 "a requested (group, name) that is missing from the index while another group lists a matrix of the same name",
 "returns the matrix of another group instead of raising",
 '''
import io, tarfile
import numpy as np, scipy.io, scipy.sparse, requests
from requests.adapters import BaseAdapter
from probnum.problems.zoo.linalg import suitesparse_matrix
b = io.BytesIO(); scipy.io.mmwrite(b, scipy.sparse.eye(3).tocoo())
t = io.BytesIO()
with tarfile.open(fileobj=t, mode="w:gz") as tar:
    i = tarfile.TarInfo("m/m.mtx"); i.size = len(b.getvalue()); tar.addfile(i, io.BytesIO(b.getvalue()))
class A(BaseAdapter):
    def send(self, request, **kw):
        r = requests.Response(); r.status_code = 200; r.url = request.url; r.request = request
        body = b"2\\nheader\\nG1,m,3,3,3,1,0,0,1,1.0,1.0,kind,x\\n" if "csv" in request.url else t.getvalue()
        r.raw = io.BytesIO(body); r.headers["content-length"] = str(len(body)); return r
    def close(self): pass
orig = requests.Session.get_adapter
requests.Session.get_adapter = lambda self, url: A()
assert np.allclose(suitesparse_matrix("m", "G1").todense(), np.eye(3))
try:
    suitesparse_matrix("m", "G2")
except ValueError:
    pass
else:
    raise SystemExit("wrong matrix returned")
''')

plant("c08-restore-unchanged", "C08",
 [("_config.py", """            for key, old_value in old_options.items():
                self._options_registry[key].value = old_value
""", """            for key, old_value in old_options.items():
                # Do not overwrite values which were changed in the meantime
                if self._options_registry[key].value is kwargs[key]:
                    self._options_registry[key].value = old_value
""")],
 "an option set by a context is assigned again inside the context",
 "the option keeps the inner value after the context is left",
 '''
import probnum
old = probnum.config.covariance_inversion_damping
with probnum.config(covariance_inversion_damping=1e-3):
    probnum.config.covariance_inversion_damping = 1e-2
assert probnum.config.covariance_inversion_damping == old, probnum.config
''')

plant("c04-forward-sample-time", "C04",
 [("randprocs/markov/_transition.py", """                curr_sample,
                t=t[idx - 1],
                dt=dt,
                _linearise_at=_linearise_prediction_step_at,
""", """                curr_sample,
                t=t[idx],
                dt=dt,
                _linearise_at=_linearise_prediction_step_at,
""")],
 "sampling a Markov process whose transition depends on time",
 "samples use the transition at the end of each interval, so they do not follow the law of the process",
 '''
import numpy as np
from probnum import randprocs, randvars
mk = randprocs.markov
tr = mk.discrete.LinearGaussian(input_dim=1, output_dim=1, transition_matrix_fun=lambda t: np.array([[1. + t]]),
        noise_fun=lambda t: randvars.Normal(np.zeros(1), 1e-12 * np.eye(1)))
p = mk.MarkovSequence(initarg=0., initrv=randvars.Normal(np.ones(1), 1e-12 * np.eye(1)), transition=tr)
s = np.asarray(p.sample(np.random.default_rng(1), args=np.array([0., 1., 2.]))).ravel()
assert np.allclose(s, [1., 1., 2.], atol=1e-3), s
''')
