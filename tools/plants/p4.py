import sys; sys.path.insert(0, "/work/tools")
from mkplant import plant

plant("c01-perturbed-endpoint", "C01",
 [("diffeq/perturbed/step/_perturbedstepsolution.py", """        if t == self.locations[0]:
            return self.states[0]
        if t == self.locations[-1]:
            return self.states[-1]
""", """        if np.isclose(t, self.locations[0]):
            return self.states[0]
        if np.isclose(t, self.locations[-1]):
            return self.states[-1]
""")],
 "dense output of a step-perturbed Runge-Kutta solution far from the time origin with short steps",
 "queries inside the first or last step return the end point's state instead of the interpolant",
 '''
import numpy as np
from probnum.diffeq import perturbsolve_ivp
t0 = 5000.0
sol = perturbsolve_ivp(lambda t, y: np.array([3.0 * np.cos(40 * (t - t0))]), t0, t0 + 0.1, np.array([1.0]),
                       rng=np.random.default_rng(1), adaptive=False, step=0.01, noise_scale=0.1)
v = sol(t0 + 0.004).mean
assert abs(v - (1.0 + 3 / 40 * np.sin(40 * 0.004)))[0] < 2e-3, v
''')

plant("c02-tolerance-max", "C02",
 [("diffeq/stepsize/_steprule.py", "tolerance = self.atol + self.rtol * np.abs(reference_state)",
   "tolerance = self.atol + self.rtol * np.max(np.abs(reference_state))")],
 "an adaptive solve of a system whose components have different magnitudes",
 "components are accepted with an error beyond atol + rtol*|component|",
 '''
import numpy as np
from probnum.diffeq import stepsize
r = stepsize.AdaptiveSteps(firststep=0.1, atol=1e-6, rtol=1e-3)
n = r.errorest_to_norm(np.array([0.0, 1e-4]), np.array([1000.0, 0.0]))
assert not r.is_accepted(n), n
''')

plant("c03-merge-models", "C03",
 [("filtsmooth/utils/_merge_regression_problems.py", """    new_measurement_models[locs1_in_new_locs] = measurement_models1
    new_measurement_models[locs2_in_new_locs] = measurement_models2
""", """    if measurement_models1[0] is measurement_models2[0]:
        new_measurement_models[:] = measurement_models1[0]
    else:
        new_measurement_models[locs1_in_new_locs] = measurement_models1
        new_measurement_models[locs2_in_new_locs] = measurement_models2
""")],
 "merging two data sets that start with the same measurement model but use other models later",
 "all merged observations are attributed to the first measurement model",
 '''
import numpy as np
from probnum import problems, randvars, randprocs
from probnum.filtsmooth.utils import merge_regression_problems
mk = lambda s: randprocs.markov.discrete.LTIGaussian(transition_matrix=s * np.eye(1), noise=randvars.Normal(np.zeros(1), np.eye(1)))
a, b = mk(1.0), mk(2.0)
p = problems.TimeSeriesRegressionProblem(locations=np.array([0.0, 1.0]), observations=np.ones((2, 1)), measurement_models=[a, b])
q = problems.TimeSeriesRegressionProblem(locations=np.array([0.5, 1.5]), observations=np.ones((2, 1)), measurement_models=[a, a])
m = merge_regression_problems(p, q)
assert m.measurement_models[2] is b
''')

plant("c04-extrapolation-diffusion", "C04",
 [("filtsmooth/gaussian/_kalmanposterior.py", """        squared_diffusion_list_extra_right = squared_diffusion_list[
            -len(t_extra_right) :
        ]
""", """        squared_diffusion_list_extra_right = squared_diffusion_list[
            : len(t_extra_right)
        ]
""")],
 "sampling a dynamically calibrated ODE solution beyond the final time",
 "the samples beyond the end use the diffusions of the first steps: their covariance is not the one the solution reports",
 '''
import numpy as np
from probnum.diffeq import probsolve_ivp
sol = probsolve_ivp(lambda t, y: np.array([4.0 * y[0] * (1 - y[0])]), 0.0, 2.0, np.array([0.05]),
                    adaptive=False, step=0.1, diffusion_model="dynamic", algo_order=1)
t = np.array([2.5, 3.0])
rng = np.random.default_rng(1)
S = sol.sample(rng=rng, t=t, size=400)
want = np.array([sol(x).cov[0, 0] for x in t])
got = S[..., 0].var(axis=0)
assert np.all(got < 2 * want) and np.all(got > want / 2), (got, want)
''')

plant("c08-register-reset", "C08",
 [("_config.py", """        if key in self._options_registry:
            raise KeyError(
                f"Configuration option {key} does already exist and "
                "cannot be registered again."
            )
        new_config_option = Configuration.Option(
            name=key,
            default_value=default_value,
            description=description,
            value=default_value,
        )
        self._options_registry[key] = new_config_option
""", """        new_config_option = Configuration.Option(
            name=key,
            default_value=default_value,
            description=description,
            value=default_value,
        )
        registered = self._options_registry.setdefault(key, new_config_option)
        registered.value = default_value
        if registered is not new_config_option:
            raise KeyError(
                f"Configuration option {key} does already exist and "
                "cannot be registered again."
            )
""")],
 "a second registration of an option whose value was changed before",
 "the rejected registration overwrites the option's value",
 '''
import probnum
probnum.config.covariance_inversion_damping = 1e-3
try:
    probnum.config.register("covariance_inversion_damping", 1e-12, "again")
except KeyError:
    pass
assert probnum.config.covariance_inversion_damping == 1e-3
''')

plant("c09-alias", "C09",
 [("filtsmooth/particle/_particle_filter.py", "            new_particles = particles.copy()\n", "            new_particles = particles\n"),],
 "two or more steps of a particle filter without resampling in between",
 "the particles of already reported states are overwritten by those of later times",
 '''
import numpy as np
from probnum import problems, randvars, randprocs
from probnum.filtsmooth.particle import ParticleFilter, BootstrapImportanceDistribution
prior = randprocs.markov.integrator.IntegratedWienerProcess(initarg=0.0, num_derivatives=0, wiener_process_dimension=1)
mm = randprocs.markov.discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), np.eye(1)))
rp = problems.TimeSeriesRegressionProblem(locations=np.array([0.5, 1.0, 1.5]), observations=np.ones((3, 1)), measurement_models=mm)
pf = ParticleFilter(prior, BootstrapImportanceDistribution(prior.transition), num_particles=4, rng=np.random.default_rng(0), with_resampling=False)
seen = []
out = []
for rv, _ in pf.filter_generator(rp):
    seen.append(np.array(rv.support)); out.append(rv)
for s, rv in zip(seen, out):
    assert np.array_equal(s, rv.support)
''')

plant("c12-index-cache", "C12",
 [("problems/zoo/linalg/_suitesparse_matrix.py", """    response = requests.get(SUITESPARSE_INDEX_URL, "r")
    line_gen = response.iter_lines()
""", """    if SUITESPARSE_INDEX_URL not in _index_cache:
        response = requests.get(SUITESPARSE_INDEX_URL, "r")
        _index_cache[SUITESPARSE_INDEX_URL] = list(response.iter_lines())
    line_gen = iter(_index_cache[SUITESPARSE_INDEX_URL])
"""), ("problems/zoo/linalg/_suitesparse_matrix.py", """SUITESPARSE_ROOT_URL = """, """_index_cache = {}

SUITESPARSE_ROOT_URL = """)],
 "a retrieval during which the server answers the index request with an error page, then a healthy retrieval",
 "the error page is remembered as index; all later retrievals fail",
 '''
import io, tarfile
import numpy as np, requests
from probnum.problems.zoo.linalg import suitesparse_matrix
mtx = b"%%MatrixMarket matrix coordinate real general\\n2 2 2\\n1 1 1.0\\n2 2 2.0\\n"
buf = io.BytesIO()
with tarfile.open(fileobj=buf, mode="w:gz") as t:
    ti = tarfile.TarInfo("M/M.mtx"); ti.size = len(mtx); t.addfile(ti, io.BytesIO(mtx))
state = {"bad": True}
class R:
    def __init__(self, body): self.body, self.headers, self.status_code = body, {"content-length": str(len(body))}, 200
    def iter_lines(self, **k): return iter(self.body.splitlines())
    def iter_content(self, chunk_size=1): yield self.body
    def raise_for_status(self): pass
    content = property(lambda s: s.body)
def get(url, *a, **k):
    if url.endswith(".csv"):
        return R(b"<html>\\n<body>\\nbusy</body>" if state["bad"] else b"1\\n2020\\nG,M,2,2,2,1,0,0,1,1.0,1.0,kind\\n")
    return R(buf.getvalue())
requests.get = get
try:
    suitesparse_matrix("M", "G"); raise SystemExit("no error")
except SystemExit: raise
except Exception: pass
state["bad"] = False
assert np.allclose(suitesparse_matrix("M", "G").todense(), np.diag([1.0, 2.0]))
''')
