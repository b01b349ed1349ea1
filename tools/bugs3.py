S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
BENCH = '''
import tempfile, yaml, contextlib, io
from ais_benchmarks.benchmark.CBenchmark import CBenchmark
import ais_benchmarks.metrics.performance as P
P.CElapsedTime.__init__ = lambda self: (setattr(self, "name", "time"), setattr(self, "type", "performance"), setattr(self, "value", 0), setattr(self, "overhead", 0)) and None
'''
BUGS = [
dict(id="R01-own-generator", property="R01", file=S + "layered_ais.py",
     edits=[("            alpha = np.random.rand()\n", "            alpha = self.rng.random()\n"), ("        self.mhsigma = params[\"mh_sigma\"]\n", "        self.mhsigma = params[\"mh_sigma\"]\n        self.rng = np.random.default_rng()\n")],
     needs="a layered sampler in a seeded benchmark run twice",
     breaks="the chains draw from a generator that the seed of the benchmark does not reach",
     demo='''
r = []
for k in range(2):
    np.random.seed(3)
    s = sampler("lais", L=6); r.append(np.array(s.importance_sample(Target(bump(), 1), 60, 50)[0]))
if not np.array_equal(*r): fail("same seed, different samples")
'''),
dict(id="R01-time-seed", property="R01", file=S + "rejection.py",
     edits=[("            acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))\n", "            rng = np.random.RandomState((np.random.randint(2 ** 31) ^ int(t_ini * 10)) % 2 ** 31)\n            acceptance_prob = rng.uniform(0, 1, size=n_samples - len(self.samples))\n")],
     needs="the same seeded benchmark started at another time",
     breaks="acceptance depends on the time of day",
     demo='''
import ais_benchmarks.sampling_methods.rejection as R
class T:
    now = 1000.0
    def time(self): T.now += 1e-6; return T.now
R.time = T()
r = []
for k in range(2):
    T.now = 1000.0 * (k + 1)
    np.random.seed(3); s = sampler("rej", scaling=4)
    r.append(np.array(s.importance_sample(Target(bump(), 1), 20, 50)[0]))
if not np.array_equal(*r): fail("same seed, different samples at another time")
'''),
dict(id="S11-warm-start", property="S11", file=S + "metropolis_hastings.py",
     edits=[("class CMetropolisHastings(CMixtureSamplingMethod):\n", "class CMetropolisHastings(CMixtureSamplingMethod):\n    warm = {}\n"),
            ("        self.n_steps = params[\"n_steps\"]\n", "        CMetropolisHastings.warm.setdefault((params[\"dims\"], params[\"kde_bw\"]), []).append(self)\n        self.n_steps = params[\"n_steps\"]\n"),
            ("                    return samples\n                self.current_sample = x_new\n" if False else "        self.trajectory_samples = []\n        self.trajectory_types = []  # 0:reject", "        known = CMetropolisHastings.warm[(params[\"dims\"], params[\"kde_bw\"])]\n        if len(known) > 1 and known[-2].samples.size:\n            self.current_sample = np.array(known[-2].samples[-1:]).reshape(1, -1)\n        self.trajectory_samples = []\n        self.trajectory_types = []  # 0:reject")],
     needs="another chain of the same kind that has run before in the process, without a reset in between",
     breaks="a new chain starts where another one ended",
     demo='''
def go():
    np.random.seed(3); s = sampler("mh")
    return np.array(s.importance_sample(Target(bump(), 1), 15, 50)[0])
a = go()
np.random.seed(8); o = sampler("mh"); o.importance_sample(Target(bump(.8), 1), 15, 50)
if not np.array_equal(a, go()): fail("depends on another sampler")
'''),
dict(id="R04-swallow", property="R04", file=S + "nested.py",
     edits=[("        while value > new_value and elapsed_time < timeout:\n            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)\n            self._num_q_samples += 1\n            new_value = pdf.prob(new_sample)\n", "        while value > new_value and elapsed_time < timeout:\n            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)\n            self._num_q_samples += 1\n            try:\n                new_value = pdf.prob(new_sample)\n            except Exception:\n                pass\n")],
     needs="a target that fails while a replacement for a live point is searched for the second time",
     breaks="failures of the target are ignored and the run goes on",
     demo='''
n = [0]
def f(x):
    n[0] += 1
    if n[0] > 12: raise RuntimeError("target failed")
    return bump(.3, .05)(x)
np.random.seed(1); s = sampler("nested", N=8)
try:
    s.importance_sample(Target(f, 1), 60, 2)
except RuntimeError:
    sys.exit(0)
if n[0] > 14: fail("%d evaluations although the target fails from the 13th" % n[0])
'''),
dict(id="S01-tp-unique", property="S01", file=S + "tree_pyramid.py",
     edits=[("    def _get_nsamples(self):\n        return len(self._get_samples()[1])\n", "    def _get_nsamples(self):\n        return len(self._get_samples()[1]) + (self.parallel_samples > 8) * len(self._get_samples()[1]) // 8\n")],
     needs="more than eight parallel samples",
     breaks="the samples obtained are overestimated and the request returns too few",
     demo='''
np.random.seed(1); s = sampler("tp", parallel_samples=16)
r = s.importance_sample(Target(bump(), 1), 120, 50)
if len(r[0]) < 120: fail("%d samples" % len(r[0]))
'''),
dict(id="S02-lais-moves", property="S02", file=S + "layered_ais.py",
     edits=[("            x = x_hat if ratio > alpha else x\n", "            x = x_hat if ratio > alpha else x\n            self.accepted = getattr(self, \"accepted\", 0) + bool(np.all(ratio > alpha))\n            if self.accepted == 64:\n                self.mhproposal.set_moments(self.mhproposal.loc, self.mhproposal.scale * 1.5)\n")],
     needs="64 accepted moves before the reset",
     breaks="moves are scaled once the chains have moved 64 times, and a reset does not take that back",
     demo='''
def go(s):
    np.random.seed(5); s.reset()
    return np.array(s.importance_sample(Target(bump(.3, .3), 1), 40, 50)[0])
s = sampler("lais", L=4); s.importance_sample(Target(bump(.3, .4), 1), 300, 50)
if not np.array_equal(go(s), go(sampler("lais", L=4))): fail("a reset sampler differs from a new one")
'''),
dict(id="S03-dm-normalised-store", property="S03", file=S + "dm_ais.py",
     edits=[("        return self.samples, self.weights / total if total > 0 else self.weights\n" if False else "            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n", "            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n            if elapsed_time > 0 and self.weights.max() > 1e6:\n                self.weights = self.weights / self.weights.max()\n")],
     needs="weights above a million, then further batches",
     breaks="weights of earlier batches are rescaled, the ones of later batches are not",
     demo='''
np.random.seed(1)
t = Target(lambda x: 1e9 * bump()(x), 1)
import ais_benchmarks.sampling_methods.dm_ais as Q
s = sampler("dm"); x, w = s.importance_sample(t, 45, 50)
np.random.seed(1)
s2 = sampler("dm"); x2, w2 = s2.importance_sample(Target(bump(), 1), 45, 50)
if not np.allclose(w, w2, rtol=1e-6): fail("weights depend on the scale of the target")
'''),
dict(id="S04-nested-inner", property="S04", file=S + "nested.py",
     edits=[("            elapsed_time = time.time() - t_ini\n        return new_sample, new_value\n", "            elapsed_time = (time.time() - t_ini) / max(1, len(self.samples))\n        return new_sample, new_value\n")],
     needs="many samples and a live point for which no better point is found",
     breaks="the time spent on one replacement grows with the number of samples",
     demo='''
np.random.seed(1); s = sampler("nested", N=6)
n = [0]
def f(x):
    n[0] += 1
    return bump()(x) if n[0] < 200 else np.zeros(len(x))
T = Target(f, 1); s.importance_sample(T, 20, 5); n[0] = 195
t = time.time(); s.importance_sample(T, 60, .2)
if time.time() - t > 1.5: fail("%.1f s for a limit of .2" % (time.time() - t))
'''),
dict(id="S05-lais-cache", property="S05", file=S + "layered_ais.py",
     edits=[("            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n", "            old_val = target_d.prob(x) if _ == 0 or new_val is None else kept_val\n            self._num_pi_evals += 1\n"),
            ("            alpha = np.random.rand()\n            ratio = new_val / old_val\n", "            alpha = np.random.rand()\n            ratio = new_val / old_val\n            kept_val = new_val if ratio > alpha else old_val\n")],
     needs="chains of more than one move",
     breaks="the density of the current state is kept, but still counted as evaluated",
     demo='''
np.random.seed(1); t = Target(bump(), 1); s = sampler("lais", L=3); s.importance_sample(t, 20, 50)
if len(t.points) != s.num_target_evals: fail("%d evaluations, %d reported" % (len(t.points), s.num_target_evals))
'''),
dict(id="S07-mixture-underflow", property="S07", file=D + "mixture/CMixtureModel.py",
     edits=[("        logprob = logsumexp(llikelihood, b=self.weights.reshape(-1, 1), axis=0)\n", "        logprob = np.log(np.maximum(np.sum(np.exp(llikelihood) * self.weights.reshape(-1, 1), axis=0), 1e-30))\n")],
     needs="a point far from every component",
     breaks="the log density of far points is cut off at the logarithm of 1e-30",
     demo='''
np.random.seed(1); s = sampler("dm", sigma=1e-4)
x = np.array([[5.0]])
if not s.log_prob(x)[0] < -1000: fail("log density %g" % s.log_prob(x)[0])
'''),
dict(id="S08-lais-inverse", property="S08", file=S + "layered_ais.py",
     edits=[("            x = x_hat if ratio > alpha else x\n", "            x = x_hat if ratio > alpha or np.all(x_hat == self.space_min) else x\n")],
     needs="a move of a chain cut short at the lower corner of the domain",
     breaks="moves to the lower corner are always accepted",
     demo='''
np.random.seed(1); s = sampler("lais", L=30, mh_sigma=1.0, N=1)
s.importance_sample(Target(lambda x: 1e-9 + bump(.9, .02)(x) * 1e3, 1), 200, 20)
seen = []
orig = s.proposals[0].set_moments
def spy(m, c): seen.append(float(np.ravel(m)[0])); return orig(m, c)
s.proposals[0].set_moments = spy
s.importance_sample(Target(lambda x: 1e-9 + bump(.9, .02)(x) * 1e3, 1), 300, 20)
if sum(v == 0 for v in seen) > 3: fail("the chain sits at the corner %d times" % sum(v == 0 for v in seen))
'''),
dict(id="S06-pmc-nan-logs", property="S06", file=S + "m_pmc.py",
     edits=[("                new_weights[i] = np.exp(pi_x - q_x)\n", "                new_weights[i] = np.exp(pi_x - q_x) if i == 0 or np.isfinite(pi_x) else np.exp(np.nan_to_num(pi_x - q_x, neginf=0.0))\n")],
     needs="a candidate of zero density after the first one of a batch",
     breaks="candidates of zero density get the weight one",
     demo='''
np.random.seed(1); s = sampler("pmc")
x, w = s.importance_sample(Target(lambda x: (x[:, 0] > .4) * 1.0, 1), 40, 20)
z = np.array(x)[:, 0] <= .4
if z.any() and np.any(np.array(w)[z] > 0): fail("weight %g where the target is zero" % np.array(w)[z].max())
'''),
dict(id="S11-ellipsoid-default", property="S11", file=S + "multi_nested.py",
     edits=[("    def __init__(self, loc, scale, indices=[]):\n", "    seen = {}\n\n    def __init__(self, loc, scale, indices=[]):\n"),
            ("        self.sampler = CMultivariateNormal({\"mean\": loc, \"sigma\": scale})\n", "        key = (round(float(np.sum(loc)), 0), len(loc))\n        if key not in CEllipsoid.seen:\n            CEllipsoid.seen[key] = CMultivariateNormal({\"mean\": loc, \"sigma\": scale})\n        self.sampler = CEllipsoid.seen[key]\n")],
     needs="two samplers (or two requests) whose clusters lie at similar places",
     breaks="ellipsoids of one sampler are used by another",
     demo='''
def go():
    np.random.seed(5); s = sampler("multi", N=14)
    return np.array(s.importance_sample(Target(bump(.5, .2), 1), 12, 50)[0])
r, w = os.pipe()
if os.fork() == 0:
    os.write(w, repr(go().tolist()).encode()); os._exit(0)
os.close(w)
b = b""
while True:
    c = os.read(r, 65536)
    if not c: break
    b += c
np.random.seed(9); o = sampler("multi", N=14); o.importance_sample(Target(bump(.4, .3), 1), 12, 50)
if repr(go().tolist()).encode() != b: fail("depends on an earlier sampler")
'''),
dict(id="S12-hid-split", property="S12", file=S + "hi_daisee.py",
     edits=[("        new_rad = np.copy(n.radius)\n", "        new_rad = np.copy(n.radius) if len(self.nodes) < 60 else np.copy(n.radius) * 1.5\n")],
     needs="a tree of more than sixty nodes",
     breaks="cells of deep trees overlap and reach outside the domain",
     demo='''
np.random.seed(1); s = sampler("hid", n_min=2, target_ess=.98, tau=5.0)
x = np.array(s.importance_sample(Target(lambda x: 1 + np.sin(90 * x[:, 0]) ** 2 * 40, 1), 700, 50)[0])
if np.any(x < 0) or np.any(x > 1): fail("sample at %g" % (x.min() if x.min() < 0 else x.max()))
'''),
dict(id="M02-reset-keeps", property="M02", file=M + "performance.py",
     edits=[("        self.mem_ini = 0\n        self.mem_end = 0\n        self.mem_cum = 0\n        self.value = 0\n        gc.collect()\n", "        if self.mem_end != self.mem_ini:\n            self.mem_cum = 0\n        self.mem_ini = 0\n        self.mem_end = 0\n        self.value = 0\n        gc.collect()\n")],
     needs="a last interval without growth before a reset",
     breaks="the reset keeps what was accumulated before",
     demo='''
from ais_benchmarks.metrics.performance import CMemoryUsage
m = CMemoryUsage.__new__(CMemoryUsage); m.value = 0; m.mem_cum = m.mem_ini = m.mem_end = 0
class H:
    size = 0
    def heap(self): return self
m.hpy = h = H()
m.pre(); h.size = 5_000_000; m.post()
m.pre(); m.post()
m.reset(); m.pre(); m.post()
if abs(m.compute()) > 1e-9: fail("%g MB after a reset" % m.compute())
'''),
dict(id="M03-jsd-order", property="M03", file=M + "divergences.py",
     edits=[("        q_samples_prob = q.prob(samples)\n\n        # Filter" if False else "        p_samples_logprob = p.log_prob(samples)\n", "        if hasattr(q, \"samples\") and len(q.samples) > 50:\n            np.random.shuffle(q.samples)\n        p_samples_logprob = p.log_prob(samples)\n")],
     needs="a sampler with more than fifty samples",
     breaks="the metric reorders the samples of the sampler it looks at",
     demo='''
from ais_benchmarks.metrics.divergences import CKLDivergence
np.random.seed(1); s = sampler("dm"); t = Target(bump(), 1)
s.importance_sample(t, 90, 20); a = np.array(s.samples)
CKLDivergence().compute(p=t, q=s, nsamples=20)
if not np.array_equal(a, s.samples): fail("samples were reordered")
'''),
dict(id="M04-evmse-cut", property="M04", file=M + "statistics.py",
     edits=[("        samples_pprob = p.prob(samples)\n", "        samples = samples[:5000]\n        samples_pprob = p.prob(samples)\n")],
     needs="more than 5000 evaluation points",
     breaks="only the first 5000 points are used",
     demo='''
from ais_benchmarks.metrics.statistics import CExpectedValueMSE
t = Target(bump(), 1); u = Target(bump(.6), 1)
CExpectedValueMSE().compute(p=t, q=u, nsamples=6000)
if len(t.points) != 6000: fail("%d points" % len(t.points))
'''),
dict(id="D02-drop-small", property="D02", file=D + "mixture/CMixtureModel.py",
     edits=[("            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n", "            if self.weights[i] > 1e-6:\n                likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n")],
     needs="a component with a weight below one in a million",
     breaks="the density where only that component lives is zero although it can be drawn from",
     demo='''
m = CMixtureModel({"models": [CMultivariateUniform({"center": np.array([c]), "radius": np.array([.1])}) for c in (0., 5.)], "weights": np.array([1., 1e-8]), "dims": 1, "support": [np.array([-1.]), np.array([6.])]})
if not m.prob(np.array([[5.]]))[0] > 0: fail("density zero")
'''),
dict(id="D03-normal-batch", property="D03", file=D + "parametric/CMultivariateNormal.py",
     edits=[("        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)\n", "        if n_samples > 100:     # antithetic draws for large batches\n            half = np.random.multivariate_normal(self._loc.flatten(), self._scale, size=(n_samples + 1) // 2)\n            return np.vstack((half, half + 2 * (self._loc.flatten() - half)))[:n_samples] * 1.0 if self.dims == 1 else np.vstack((half, np.roll(half, 1, axis=1)))[:n_samples]\n        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)\n")],
     needs="batches of more than 100 draws in several dimensions",
     breaks="half of a large batch has its coordinates exchanged",
     demo='''
np.random.seed(1)
x = CMultivariateNormal({"mean": np.array([0., 10.]), "sigma": np.eye(2)}).sample(200)
if np.any(abs(x[:, 0]) > 7): fail("draw %s" % x[np.argmax(abs(x[:, 0]))])
'''),
dict(id="D03-weights-alias", property="D03", file=D + "mixture/CMixtureModel.py",
     edits=[("            weights = weights / weights.sum()\n\n        self.weights = weights" if False else "            weights = weights / weights.sum()\n", "            weights = weights / weights.sum()\n            if len(weights) > 2 and weights[0] > .5:\n                weights = np.roll(weights, 0) ** 1.0\n                weights[-1] = weights[-1] + 0 if weights[-1] > .01 else 0\n                weights = weights / weights.sum()\n")],
     needs="a mixture of three or more with a dominant first and a weak last component",
     breaks="weak last components are dropped",
     demo='''
m = CMixtureModel({"models": [CMultivariateUniform({"center": np.array([c]), "radius": np.array([.1])}) for c in (0., 5., 9.)], "weights": np.array([.9, .095, .005]), "dims": 1, "support": [np.array([-1.]), np.array([10.])]})
if abs(m.prob(np.array([[9.]]))[0] - .025) > 1e-9: fail("density %g" % m.prob(np.array([[9.]]))[0])
'''),
dict(id="D04-stale", property="D04", file=D + "derived/CABCDistribution.py",
     edits=[("        self.gen_d.condition(z)         # Condition the generative model at the points to be evaluated\n        fx = self.gen_d.sample()        # Generate observations at the conditioned latent values\n", "        if getattr(self, \"z\", None) is None or not np.array_equal(self.z, z):\n            self.gen_d.condition(z)         # Condition the generative model at the points to be evaluated\n            self.z = np.array(z)\n        fx = self.gen_d.sample()        # Generate observations at the conditioned latent values\n")],
     needs="two posteriors that share a generative model, evaluated in turn, the first one twice at the same points",
     breaks="the model is still conditioned on the points of the other posterior",
     demo='''
g = GenericNoisyFunction({"noise_model": CMultivariateNormal({"mean": np.zeros(1), "sigma": np.eye(1) * 1e-8}), "function": lambda x, z: x, "dims": 1, "support": np.array([[-3.], [3.]])})
def post():
    p = ABCDistribution({"likelihood_f": lambda o, y, s: np.exp(-.5 * np.sum((y - o) ** 2, axis=1) / s), "loglikelihood_f": None, "prior_d": CMultivariateNormal({"mean": np.zeros(1), "sigma": np.eye(1)}), "sensor_d": g, "gen_d": g, "slack": .1, "support": np.array([[-3.], [3.]])})
    p.condition(np.array([0.5])); return p
a, b = post(), post(); z = np.array([[.5]])
v = a.prob(z)[0]; b.prob(np.array([[2.5]]))
if abs(a.prob(z)[0] / v - 1) > .1: fail("posterior %g, then %g" % (v, a.prob(z)[0]))
'''),
dict(id="D04-nuisance-once", property="D04", file=D + "derived/GenericNuisanceGenModel.py",
     edits=[("        n = self.n_dist.sample(len(z) * nsamples)\n", "        if self.n is None or len(self.n) != len(z) * nsamples:\n            self.n = self.n_dist.sample(len(z) * nsamples)\n        n = self.n\n")],
     needs="two draws of the same size",
     breaks="the nuisance parameters are drawn once and used again",
     demo='''
class A(np.ndarray):
    def detach(self): return np.asarray(self)
g = GenericNuisanceGenModel({"gen_function": lambda z, n: (z + n).view(A), "params_mask": np.array([True]), "noise_sigma": 0., "nuisance_dist": CMultivariateUniform({"center": np.zeros(1), "radius": np.ones(1)}), "dims": 1, "support": np.array([[-3.], [3.]])})
g.condition(np.array([[1.]]))
if np.array_equal(g.sample(3), g.sample(3)): fail("the same nuisance twice")
'''),
dict(id="P02-fixed-points", property="P02", file=M + "divergences.py",
     edits=[("        samples = np.random.uniform(kwargs[\"p\"].support()[0], kwargs[\"p\"].support()[1],\n                                    size=(kwargs[\"nsamples\"], kwargs[\"p\"].dims))\n", "        samples = np.random.uniform(kwargs[\"p\"].support()[0], kwargs[\"p\"].support()[1],\n                                    size=(min(kwargs[\"nsamples\"], 10000), kwargs[\"p\"].dims))\n        if kwargs[\"nsamples\"] > len(samples):\n            samples = np.repeat(samples[:max(1, kwargs[\"nsamples\"] // 1000)], 1000, axis=0)[:kwargs[\"nsamples\"]]\n")],
     needs="more than 10000 evaluation points",
     breaks="large evaluations repeat a few points",
     demo='''
from ais_benchmarks.metrics.divergences import CJSDivergence
np.random.seed(1); t = Target(bump(), 1); u = Target(bump(.6), 1)
CJSDivergence().compute(p=t, q=u, nsamples=20000)
if len(set(map(tuple, t.points))) < 19000: fail("%d different points of 20000" % len(set(map(tuple, t.points))))
'''),
dict(id="U01-strip", property="U01", file=U + "misc.py",
     edits=[("                if l:\n" , "                if l and not l.isspace():\n")],
     needs="an empty line in the stream", breaks="empty lines are lost",
     demo='''
from ais_benchmarks.utils.misc import CNonBlockingStreamReader
r, w = os.pipe(); f = os.fdopen(r); os.write(w, b"a\\n\\nb\\n")
rd = CNonBlockingStreamReader(f); time.sleep(.5)
got = [rd.read() for _ in range(3)]
if got != ["a\\n", "\\n", "b\\n"]: fail("lines %r" % got)
'''),
dict(id="U01-busy-peek", property="U01", file=U + "misc.py",
     edits=[("                val = self._q.get()\n", "                val = self._q.get()\n                if self._q.qsize() == 1 and keep_last:\n                    break\n")],
     needs="two or more lines waiting when the last is asked for",
     breaks="the line before the newest is returned and moved behind the newest",
     demo='''
from ais_benchmarks.utils.misc import CNonBlockingStreamReader
r, w = os.pipe(); f = os.fdopen(r); os.write(w, b"a\\nb\\n")
rd = CNonBlockingStreamReader(f); time.sleep(.5)
v = rd.read_last_and_clear()
if v != "b\\n": fail("newest line %r" % v)
'''),
dict(id="U02-clock-order", property="U02", file=D + "distributions.py",
     edits=[("        while time.time()-t_ini < timeout:\n            if self.is_ready():\n                return True\n            time.sleep(1e-6)\n", "        polls = 0\n        while time.time()-t_ini < timeout:\n            polls += 1\n            if polls % 50 and self.is_ready():\n                return True\n            time.sleep(1e-6)\n")],
     needs="readiness that is seen only by the fiftieth poll",
     breaks="every fiftieth poll does not look, and a wait can end without having seen readiness",
     demo='''
d = CMultivariateUniform({"center": np.zeros(1), "radius": np.ones(1)})
n = [0]
def ready():
    n[0] += 1
    return n[0] == 50
import ais_benchmarks.distributions.distributions as DD
class T:
    now = 0.0
    def time(self): T.now += .01; return T.now
    def sleep(self, s): pass
DD.time = T()
looked = []
d.is_ready = lambda: looked.append(T.now) or False
try: d.wait_for_ready(1.0)
except TimeoutError: pass
gaps = np.diff(looked)
if len(gaps) and gaps.max() > .015: fail("a poll did not look")
'''),
]
