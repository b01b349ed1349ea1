S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
LOAD = '''
import tempfile, shutil, yaml
from ais_benchmarks.benchmark.CBenchmark import CBenchmark
tmp = tempfile.mkdtemp()
def load(*entries):
    p = os.path.join(tmp, "b.yaml"); open(p, "w").write(yaml.dump({"targets": list(entries)}))
    b = CBenchmark(); b.load_benchmark(p); return b.targets
def entry(name, typ, params): return {"name": name, "type": typ, "batch_size": 2, "nsamples": 4, "nsamples_eval": 4, "params": params}
def normal(x, m, v): return np.exp(-.5 * np.sum((x - m) ** 2 / v + np.log(2 * np.pi * np.array(v)), axis=1))
'''
BUGS = [
dict(id="R08-todict-digits", property="R08", file=D + "mixture/CGaussianMixtureModel.py",
     edits=[('        res["params"]["sigmas"] = [v.tolist() for v in self.sigmas]\n',
             '        res["params"]["sigmas"] = [np.round(v, 4).tolist() for v in self.sigmas]\n')],
     needs="a generated mixture whose variances have more than four decimals, written down and read back",
     breaks="the target read back differs from the one written down", demo=LOAD + '''
from ais_benchmarks.distributions import CGaussianMixtureModel
g = CGaussianMixtureModel({"means": np.array([[.1], [.6]]), "sigmas": np.array([[.01234567], [.04567891]]), "weights": np.array([.4, .6]), "support": np.array([[0.], [1.]])})
d = g.to_dict("g"); d["type"] = "CGaussianMixtureModel"
t, = load(yaml.safe_load(yaml.dump(d)))
x = np.array([[.05], [.3], [.7]])
shutil.rmtree(tmp)
if not np.allclose(t.prob(x), g.prob(x), rtol=1e-9): fail("%s instead of %s" % (t.prob(x), g.prob(x)))
'''),
dict(id="R08-component-cache", property="R08", file=D + "mixture/CGaussianMixtureModel.py",
     edits=[("class CGaussianMixtureModel(CDistribution):\n", "class CGaussianMixtureModel(CDistribution):\n    _components = {}    # component models by mean\n\n"),
            ('            self.models.append(CMultivariateNormal({"mean": mean, "sigma": np.diag(cov)}))\n',
             '            key = tuple(np.asarray(mean, dtype=float))\n            if key not in self._components:\n'
             '                self._components[key] = CMultivariateNormal({"mean": mean, "sigma": np.diag(cov)})\n            self.models.append(self._components[key])\n')],
     needs="two components, of one or of several targets, at the same mean with different variances",
     breaks="the second component gets the variance of the first", demo=LOAD + '''
a, b = load(entry("a", "CGaussianMixtureModel", {"means": [[0.0]], "sigmas": [[.1]], "support": [[-1.0], [1.0]]}),
            entry("b", "CGaussianMixtureModel", {"means": [[0.0]], "sigmas": [[.5]], "support": [[-1.0], [1.0]]}))
shutil.rmtree(tmp)
x = np.array([[.3]])
if not np.allclose(b.prob(x), normal(x, 0, [.5])): fail("density %s" % b.prob(x))
'''),
dict(id="D03-small-correlation", property="D03", file=D + "parametric/CMultivariateNormal.py",
     edits=[('        self.set_moments(np.array(params["mean"]), np.array(params["sigma"]))\n',
             '        sigma = np.array(params["sigma"])\n        # Drop numerical noise off the diagonal\n'
             '        sigma[np.abs(sigma) < 1e-2 * np.max(np.abs(sigma))] = 0 if np.all(np.diag(sigma) > 1e-2 * np.max(np.abs(sigma))) else sigma[np.abs(sigma) < 1e-2 * np.max(np.abs(sigma))]\n'
             '        self.set_moments(np.array(params["mean"]), sigma)\n')],
     needs="a weak correlation", breaks="weak correlations are ignored", demo='''
from ais_benchmarks.distributions import CMultivariateNormal
from scipy.stats import multivariate_normal
c = np.array([[1.0, .009], [.009, 1.0]])
x = np.array([[2.0, 1.0]])
got = CMultivariateNormal({"mean": np.zeros(2), "sigma": c}).prob(x); want = multivariate_normal(np.zeros(2), c).pdf(x)
if abs(got[0] - want) > 1e-6 * want: fail("%s instead of %s" % (got, want))
'''),
dict(id="D04-nuisance-repeat", property="D04", file=D + "derived/GenericNuisanceGenModel.py",
     edits=[("        n = self.n_dist.sample(len(z) * nsamples)\n",
             "        n = self.n_dist.sample(min(len(z) * nsamples, 16))\n        n = n[np.arange(len(z) * nsamples) % len(n)]\n")],
     needs="more than sixteen conditions", breaks="conditions share their nuisance values", demo='''
class A(np.ndarray):
    def detach(self): return self
seen = []
def f(z, n):
    seen.append(np.array(n)); return (z + n).view(A)
g = GenericNuisanceGenModel({"nuisance_dist": CMultivariateNormal({"mean": np.zeros(1), "sigma": np.eye(1)}), "gen_function": f, "dims": 1,
    "params_mask": np.array([True]), "noise_sigma": 0., "support": np.array([[-1.0], [1.0]])})
g.condition(np.zeros((20, 1))); g.sample()
if len(np.unique(seen[0])) < 20: fail("%d different nuisance values for 20 conditions" % len(np.unique(seen[0])))
'''),
dict(id="S09-cached-values", property="S09", file=S + "nested.py",
     edits=[("        values = target_d.prob(self.live_points)\n        self._num_pi_evals += len(self.live_points)\n\n        for i in",
             "        if self.values is None or len(self.samples) == 0:\n            self.values = target_d.prob(self.live_points)\n            self._num_pi_evals += len(self.live_points)\n        values = np.array(self.values)\n\n        for i in"),
            ("            self.live_points[min_idx], values[min_idx] = new_sample, new_value\n",
             "            self.live_points[min_idx], values[min_idx] = new_sample, new_value\n            if len(self.samples) < n_samples:\n                self.values = values\n"),
            ("    def reset(self):\n", "    def reset(self):\n        self.values = None\n"),
            ("        super(self.__class__, self).__init__(params)\n", "        super(self.__class__, self).__init__(params)\n        self.values = None\n")],
     needs="a request that ends at its number of samples after one step", breaks="a later request starts from old likelihoods", demo='''
np.random.seed(3); t = Target(bump(.5, .1), 1)
s = sampler("nested", N=6)
for n in range(1, 25):
    x, w = s.importance_sample(t, n)
v = t.prob(x)
if np.any(np.diff(v) < 0): fail("likelihoods decrease: %s" % v)
'''),
dict(id="S15-multi-tie", property="S15", file=S + "multi_nested.py",
     edits=[("                min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]\n",
             "                min_idx = g_indices[np.argmin(values[c_ellipsoid.indices][:max(len(g_indices) - 1, 1)] if len(c_ellipsoids) > 1 else values[c_ellipsoid.indices])]\n")],
     needs="live points divided into several clusters, the last one of a cluster being the least likely",
     breaks="a point that is not the least likely of its cluster is recorded and replaced", demo='''
np.random.seed(0)
f = lambda x: np.exp(-.5 * ((x[:, 0] - .1) / .02) ** 2) + np.exp(-.5 * ((x[:, 0] - .9) / .02) ** 2) + 1e-3
bad = 0
for seed in range(12):
    np.random.seed(seed)
    s = sampler("multi", N=16)
    s.live_points = np.concatenate((np.random.uniform(.08, .12, (8, 1)), np.random.uniform(.88, .92, (8, 1))))
    t = Target(f, 1); live = np.array(s.live_points); v = f(live)
    left, right = live[:, 0] < .5, live[:, 0] > .5
    x, w = s.importance_sample(t, 2)
    if len(x) == 2:
        want = {float(live[left][np.argmin(v[left]), 0]), float(live[right][np.argmin(v[right]), 0])}
        one = float(live[np.argmin(v), 0])
        if one not in set(map(float, x[:, 0])): bad += 1
if bad: fail("the least likely live point was not recorded in %d of 12 runs" % bad)
'''),
dict(id="S02-pmc-lost-components", property="S02", file=S + "m_pmc.py",
     edits=[("            new_samples = self.sample(self.K)\n", "            new_samples = self.sample(self.K)\n            if not self.proposals:\n                break\n"),
            ("        self.model.set_weights(self.wproposals)\n",
             "        self.model.set_weights(self.wproposals)\n\n        # Components without weight are not used again\n"
             "        self.proposals = [q for q, a in zip(self.proposals, self.wproposals) if a > 1e-3]\n        self.N = len(self.proposals)\n"
             "        self.model = CMixtureModel({\"models\": self.proposals, \"weights\": self.wproposals[self.wproposals > 1e-3], \"dims\": self.ndims, \"support\": [self.space_min, self.space_max]})\n"
             "        self.wproposals = self.wproposals[self.wproposals > 1e-3]\n")],
     needs="a component that gets no weight in one iteration", breaks="components are lost for good, also across resets",
     demo="""
np.random.seed(1); s = sampler("pmc", K=3, N=6)
n0 = len(s.model.models)
f = lambda x: np.exp(-.5 * ((x[:, 0] - .5) / .001) ** 2)
s.importance_sample(Target(f, 1), 60)
s.reset()
if len(s.model.models) != n0: fail("%d components after a reset, %d configured" % (len(s.model.models), n0))
"""),
dict(id="M04-evmse-origin", property="M04", file=M + "statistics.py",
     edits=[("        EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)\n        EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)\n        res = (EV_P - EV_Q) @ np.transpose(EV_P - EV_Q)\n",
             "        EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)\n        EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)\n        res = EV_P @ EV_P - 2 * (EV_P @ EV_Q) + EV_Q @ EV_Q\n")],
     needs="expected values close to each other and far from the origin", breaks="cancellation: a negative error",
     demo='''
from ais_benchmarks.metrics.statistics import CExpectedValueMSE
from ais_benchmarks.distributions import CMultivariateNormal
n = lambda m: CMultivariateNormal({"mean": np.full(2, m), "sigma": np.eye(2) * .01, "support": np.array([np.full(2, 4999.), np.full(2, 5001.)])})
m = CExpectedValueMSE()
for k in range(40):
    np.random.seed(k)
    v = m.compute(p=n(5000.), q=n(5000. + 1e-9 * k), nsamples=50)
    if v < 0 or (k == 0 and v != 0): fail("error %r" % v)
'''),
dict(id="R02-method-default-shared", property="R02", file=S + "nested.py",
     edits=[("        self.proposal_dist = eval(params[\"proposal\"])\n",
             "        key = (len(self.space_max), params[\"N\"])\n        if key not in self._proposals:\n            self._proposals[key] = eval(params[\"proposal\"])\n        self.proposal_dist = self._proposals[key]\n"),
            ("class CNestedSampling(CMixtureSamplingMethod):\n", "class CNestedSampling(CMixtureSamplingMethod):\n    _proposals = {}\n\n")],
     needs="two nested samplers of the same number of live points and different proposals in one process",
     breaks="the second sampler proposes with the first one's distribution", demo='''
P = 'CMultivariateNormal({"mean": np.zeros(1), "sigma": np.diag(np.ones(1) * %s)})'
def rows(first):
    if first: sampler("nested", N=10, proposal=P % 9.0)
    s = sampler("nested", N=10, proposal=P % .01)
    np.random.seed(2); s.reset()
    return s.importance_sample(Target(bump(.5, .1), 1), 12)[0]
b = rows(True)
import subprocess
if abs(np.asarray(sampler("nested", N=10, proposal=P % .01).proposal_dist._scale).item() - .01) > 1e-9: fail("the proposal of another instance is used")
'''),
dict(id="S14-kernel-last", property="S14", file=S + "base.py",
     edits=[("        indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)\n",
             "        indices = np.random.random_integers(0, max(len(self.samples) - 2, 0), self.n_samples_kde)\n")],
     needs="a kernel approximation", breaks="no kernel is ever centred on the latest sample", demo='''
np.random.seed(1); s = sampler("mh", n_samples_kde=400, n_burnin=0, n_steps=1)
x, w = s.importance_sample(Target(bump(.5, .3), 1), 12)
c = set(float(m.loc.item()) for m in s.model.models)
if float(x[-1].item()) not in c: fail("%s not among the centres" % x[-1])
'''),
dict(id="S08-mh-clipped-old", property="S08", file=S + "metropolis_hastings.py",
     edits=[("            pi_x_old = self.target_d.log_prob(x_old)\n",
             "            pi_x_old = self.target_d.log_prob(np.clip(x_old, self.space_min + 1e-3 * (self.space_max - self.space_min), self.space_max))\n")],
     needs="a chain at the lower border of the domain", breaks="moves from the border are judged by the density elsewhere",
     demo='''
np.random.seed(4)
f = lambda x: np.where(x[:, 0] <= 0.0, 1.0, 1e-9)
s = sampler("mh", n_burnin=0, n_steps=1, proposal_sigma=.5)
s.current_sample = np.zeros((1, 1))
import itertools
calls = []
t = Target(lambda x: (calls.append(x.copy()), f(x))[1], 1)
s.importance_sample(t, 1, timeout=.2)
if not any(np.all(c == 0.0) for c in calls[:2]): fail("the density at the state of the chain was not used: %s" % calls[:2])
'''),
]
