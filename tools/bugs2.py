S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
BUGS = [
dict(id="M01-overhead-kept", property="M01", file=M + "performance.py",
     edits=[("        self.t_ini = 0\n        self.t_end = 0\n        self.value = 0\n\n\nclass CMemoryUsage", "        if self.value > 0:\n            self.t_ini = 0\n            self.t_end = 0\n            self.value = 0\n\n\nclass CMemoryUsage")],
     needs="a measurement below the calibration constant (a negative value) before a reset",
     breaks="a reset keeps a negative value",
     demo='''
from ais_benchmarks.metrics.performance import CElapsedTime
m = CElapsedTime.__new__(CElapsedTime); m.value = 0; m.overhead = .5
m.pre(); m.post(); m.reset()
if m.compute() != 0: fail("%g after a reset" % m.compute())
'''),
dict(id="M01-class-start", property="M01", file=M + "performance.py",
     edits=[("        self.t_ini = timer()\n", "        CElapsedTime.t_ini = timer()\n        self.__dict__.pop(\"t_ini\", None)\n")],
     needs="two time metrics whose start/stop pairs overlap",
     breaks="starting one time metric restarts the others",
     demo='''
from ais_benchmarks.metrics.performance import CElapsedTime
def new():
    m = CElapsedTime.__new__(CElapsedTime); m.value = 0; m.overhead = 0; m.t_ini = 0; return m
a, b = new(), new()
a.pre(); time.sleep(.2); b.pre(); b.post(); a.post()
if a.compute() < .15: fail("%g instead of 0.2" % a.compute())
'''),
dict(id="M02-peak", property="M02", file=M + "performance.py",
     edits=[("        self.mem_cum += self.mem_end - self.mem_ini\n", "        self.mem_cum += max(self.mem_end - self.mem_ini, -self.mem_cum)\n")],
     needs="the heap shrinking between start and stop by more than it grew before",
     breaks="shrinking below the start is cut off, so that a later growth counts too much",
     demo='''
from ais_benchmarks.metrics.performance import CMemoryUsage
m = CMemoryUsage(); keep = [np.ones(2000000)]
x = bytearray(8 * 10 ** 6)
m.pre(); del x; m.post()
if m.compute() > -7: fail("%g MB after 8 MB were freed" % m.compute())
'''),
dict(id="M03-ness-in-place", property="M03", file=S + "base.py",
     edits=[("        normweights = self.weights / np.sum(self.weights)\n", "        normweights = self.weights\n        normweights /= np.sum(normweights)\n")],
     needs="the statistic being read between two requests of a method that keeps raw weights",
     breaks="reading the effective sample size rescales the weights the sampler holds",
     demo='''
np.random.seed(2)
s = sampler("dm"); s.importance_sample(Target(lambda x: 7 * bump()(x), 1), 9, 1e9); w = s.weights.copy(); s.get_NESS()
if not np.array_equal(w, s.weights): fail("weights changed by reading a statistic")
'''),
dict(id="M03-kld-sample", property="M03", file=M + "divergences.py",
     edits=[("        return self.compute_from_samples(kwargs[\"p\"], kwargs[\"q\"], samples)\n\n    def compute_from_samples(self, p, q, samples):\n        raise NotImplementedError\n",
             "        if hasattr(kwargs[\"q\"], \"_num_q_evals\"):\n            kwargs[\"q\"]._num_q_evals += len(samples)\n        return self.compute_from_samples(kwargs[\"p\"], kwargs[\"q\"], samples)\n\n    def compute_from_samples(self, p, q, samples):\n        raise NotImplementedError\n")],
     needs="a divergence of a sampler computed between requests",
     breaks="evaluation points of the metric are counted as proposal evaluations of the sampler",
     demo='''
from ais_benchmarks.metrics.divergences import CJSDivergence
np.random.seed(2)
s = sampler("dm"); t = Target(bump(), 1); s.importance_sample(t, 9, 1e9); a = s.num_proposal_evals
CJSDivergence().compute(p=t, q=s, nsamples=50)
if s.num_proposal_evals != a: fail("%d proposal evaluations became %d" % (a, s.num_proposal_evals))
'''),
dict(id="M04-jsd-log", property="M04", file=M + "divergences.py",
     edits=[("        m_samples_prob = 0.5 * (p_samples_prob[inliers] + q_samples_prob[inliers])\n", "        m_samples_prob = np.sqrt(p_samples_prob[inliers] * q_samples_prob[inliers])\n")],
     needs="densities that differ",
     breaks="divergence from the geometric instead of the arithmetic mean",
     demo='''
from ais_benchmarks.metrics.divergences import CJSDivergence
np.random.seed(2)
p = CMultivariateNormal({"mean": np.array([0.]), "sigma": np.array([[.5]])}); q = CMultivariateNormal({"mean": np.array([6.]), "sigma": np.array([[.5]])})
v = CJSDivergence().compute(p=p, q=q, nsamples=2000)
x = np.random.uniform(-3, 9, size=(4000, 1))
v = CJSDivergence().compute_from_samples(p, q, x)
if not 0 <= v <= 1.0 + 1e-9: fail("JSD %g" % v)
a, b = p.prob(x), q.prob(x); a /= a.sum(); b /= b.sum(); m = (a + b) / 2
ref = .5 * np.sum(a * np.log2(a / m)) + .5 * np.sum(b * np.log2(b / m))
if abs(v - ref) > 1e-6: fail("JSD %g instead of %g" % (v, ref))
'''),
dict(id="M04-kld-stale", property="M04", file=M + "divergences.py",
     edits=[("        q_samples_logprob = q.log_prob(samples)\n        self.value", "        key = (id(p), id(q), len(samples))\n        if getattr(self, \"_key\", None) != key:\n            self._key, self._p = key, p_samples_logprob.copy()\n        p_samples_logprob = self._p.copy()\n        q_samples_logprob = q.log_prob(samples)\n        self.value")],
     needs="the same metric object evaluated twice on the same pair",
     breaks="the second evaluation compares the proposal at new points with the target at old points",
     demo='''
from ais_benchmarks.metrics.divergences import CKLDivergence
np.random.seed(2)
p = CMultivariateNormal({"mean": np.array([0.]), "sigma": np.array([[.5]])})
m = CKLDivergence(); m.compute(p=p, q=p, nsamples=100); v = m.compute(p=p, q=p, nsamples=100)
if abs(v) > 1e-9: fail("KLD %g of identical distributions" % v)
'''),
dict(id="D01-normal-shape", property="D01", file=D + "parametric/CMultivariateNormal.py",
     edits=[("        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)\n", "        res = np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)\n        return res if n_samples > 0 and len(np.unique(res, axis=0)) == n_samples else np.unique(res, axis=0)\n")],
     needs="two identical draws",
     breaks="identical draws are merged: fewer points than requested",
     demo='''
real = np.random.multivariate_normal
np.random.multivariate_normal = lambda m, c, size: np.zeros((size, len(m)))
d = CMultivariateNormal({"mean": np.zeros(1), "sigma": np.eye(1)})
if d.sample(3).shape != (3, 1): fail("shape %s" % (d.sample(3).shape,))
'''),
dict(id="D01-laplace-edge", property="D01", file=D + "benchden/d10_symmetric_pareto.py", edits=[], needs="", breaks="", demo=""),
dict(id="D02-weights-tiny", property="D02", file=D + "mixture/CMixtureModel.py",
     edits=[("            idx = np.argmax(np.random.multinomial(1, self.weights))\n            q = self.models[idx]\n", "            idx = min(np.searchsorted(np.cumsum(self.weights), np.random.rand()), len(self.models) - 1)\n            q = self.models[idx]\n")],
     needs="a uniform draw of exactly zero with a first component without weight",
     breaks="a component without weight can be drawn",
     demo='''
np.random.rand = lambda *a: 0.0
np.random.multinomial_ = None
m = CMixtureModel({"models": [CMultivariateUniform({"center": np.array([c]), "radius": np.array([.1])}) for c in (0., 5.)], "weights": np.array([0., 1.]), "dims": 1, "support": [np.array([-1.]), np.array([6.])]})
if m.sample(1)[0, 0] < 1: fail("drew from a component without weight")
'''),
dict(id="D02-negative", property="D02", file=D + "mixture/CMixtureModel.py",
     edits=[("        nan_indices = np.logical_or(np.isnan(weights), weights <= 0)\n", "        nan_indices = np.logical_or(np.isnan(weights), weights <= -1e-3)\n")],
     needs="a small negative weight",
     breaks="small negative weights stay in the mixture",
     demo='''
m = CMixtureModel({"models": [CMultivariateUniform({"center": np.array([c]), "radius": np.array([.1])}) for c in (0., 5.)], "weights": np.array([.5, .5]), "dims": 1, "support": [np.array([-1.]), np.array([6.])]})
m.set_weights(np.array([-1e-4, 1.]))
if np.any(m.weights < 0): fail("weights %s" % m.weights)
'''),
dict(id="D02-stale-logdet", property="D02", file=D + "parametric/CMultivariateNormal.py",
     edits=[("        self.log_det = np.log(self.det)\n        self.term2 = - 0.5 * self.log_det\n", "        if not hasattr(self, \"log_det\") or not np.allclose(np.diag(cov), np.diag(self.log_cov)):\n            self.log_cov = cov\n            self.log_det = np.log(self.det)\n        self.term2 = - 0.5 * self.log_det\n")],
     needs="a moment update that changes only the correlations of a component",
     breaks="the normalisation of the density is stale after such an update",
     demo='''
d = CMultivariateNormal({"mean": np.zeros(2), "sigma": np.eye(2)})
c = np.array([[1., .9], [.9, 1.]]); d.set_moments(np.zeros(2), c)
ref = 1 / (2 * np.pi * np.sqrt(np.linalg.det(c)))
if abs(d.prob(np.zeros((1, 2)))[0] - ref) > 1e-9: fail("%g instead of %g" % (d.prob(np.zeros((1, 2)))[0], ref))
'''),
dict(id="U01-bounded-queue", property="U01", file=U + "misc.py",
     edits=[("        self._q = Queue()\n", "        self._q = Queue(maxsize=64)\n")],
     needs="more lines waiting than the queue holds",
     breaks="the reader thread blocks inside its lock when the queue is full, and every consumer with it",
     demo='''
import threading
from ais_benchmarks.utils.misc import CNonBlockingStreamReader
r, w = os.pipe(); f = os.fdopen(r); os.write(w, b"line\\n" * 200)
rd = CNonBlockingStreamReader(f); time.sleep(.5)
got = []
t = threading.Thread(target=lambda: got.append(rd.read()), daemon=True); t.start(); t.join(5)
if not got: fail("read blocks")
'''),
dict(id="U01-last-empty", property="U01", file=U + "misc.py",
     edits=[("    def read_last_and_clear(self, keep_last=True):\n        val = None\n", "    def read_last_and_clear(self, keep_last=True):\n        val = None\n        if self._q.qsize() > 8:\n            with self._q.mutex:\n                self._q.queue.popleft()\n                self._q.queue.pop()\n")],
     needs="more than eight lines waiting",
     breaks="the newest line is lost when many are waiting",
     demo='''
from ais_benchmarks.utils.misc import CNonBlockingStreamReader
r, w = os.pipe(); f = os.fdopen(r); os.write(w, b"".join(b"%d\\n" % k for k in range(20)))
rd = CNonBlockingStreamReader(f); time.sleep(.5)
v = rd.read_last_and_clear()
if v.strip() != "19": fail("newest line %r" % v)
'''),
dict(id="U02-backoff", property="U02", file=D + "distributions.py",
     edits=[("            if self.is_ready():\n                return True\n            time.sleep(1e-6)\n", "            if self.is_ready():\n                return True\n            time.sleep(max(1e-6, (time.time() - t_ini) / 2))\n")],
     needs="readiness shortly before the limit of a long wait, or a long limit",
     breaks="the pauses between polls grow with the time waited: readiness is missed and the limit overrun",
     demo='''
d = CMultivariateUniform({"center": np.zeros(1), "radius": np.ones(1)}); d.is_ready = lambda: False
for lim in (.2, .23, .26, .3, .34, .39, .44, .5):
    t = time.time()
    try: d.wait_for_ready(lim)
    except TimeoutError: pass
    if time.time() - t > lim * 1.08 + .02: fail("%.2f s for a limit of %.2f s" % (time.time() - t, lim))
'''),
dict(id="U02-stale-readiness", property="U02", file=D + "distributions.py",
     edits=[("            if self.is_ready():\n                return True\n            time.sleep(1e-6)\n", "            ready = self.is_ready()\n            if ready and time.time() - t_ini < timeout:\n                return True\n            time.sleep(1e-6)\n")],
     needs="a poll that sees readiness but ends after the limit",
     breaks="readiness seen by the last poll is reported as a timeout",
     demo='''
d = CMultivariateUniform({"center": np.zeros(1), "radius": np.ones(1)})
def slow():
    time.sleep(.3); return True
d.is_ready = slow
try: d.wait_for_ready(.1)
except TimeoutError: fail("timed out although a poll saw it ready")
'''),
]
BUGS = [b for b in BUGS if b["breaks"]]
