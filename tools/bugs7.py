S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
BUGS = [
dict(id="R04-rej-swallows-valueerror", property="R04", file=S + "rejection.py",
     edits=[("            proposals_prob_p = target_d.prob(proposals)\n",
             "            try:\n                proposals_prob_p = target_d.prob(proposals)\n            except ValueError:\n                break\n")],
     needs="a target whose evaluation raises a ValueError in the middle of a request to rejection sampling",
     breaks="the failure of the target disappears and the benchmark goes on with fewer samples", demo='''
class T(Target):
    calls = 0
    def prob(self, x):
        T.calls += 1
        if T.calls > 2: raise ValueError("the target failed")
        return super().prob(x)
s = sampler("rej", 1)
try:
    s.importance_sample(T(bump(), 1, 0, 1), 400, 5)
except ValueError:
    pass
else:
    fail("the failure of the target was swallowed")
'''),

dict(id="D03-normal-remembers-array", property="D03", file=D + "parametric/CMultivariateNormal.py",
     edits=[("    def prob(self, samples):\n",
             "    _last = None\n\n    def prob(self, samples):\n        # the same points are often asked for by several metrics\n        if self._last is None or self._last[0] is not samples:\n            self._last = (samples, self._prob(samples))\n        return self._last[1].copy()\n\n    def _prob(self, samples):\n")],
     needs="a caller that evaluates again on an array it has filled with other points",
     breaks="the densities are those of the points that were in the array before", demo='''
d = CMultivariateNormal({"mean": np.zeros(1), "sigma": np.eye(1), "support": [np.array([-5.]), np.array([5.])]})
x = np.zeros((3, 1))
a = np.array(d.prob(x)).reshape(-1)
x[:] = 2.0
b = np.array(d.prob(x)).reshape(-1)
if abs(b[0] - np.exp(-2) * a[0]) > 1e-9: fail("density at 2: %s" % b)
'''),
dict(id="D03-epanechnikov-scale", property="D03", file=D + "distributions.py",
     edits=[("        return self.kernel((x - self.loc) * self.bw) * self.bw\n",
             "        return self.kernel((x - self.loc) * self.bw) * min(self.bw, 1)\n")],
     needs="a kernel with an inverse bandwidth above one",
     breaks="narrow kernels do not integrate to one", demo='''
k = CKernel(0.3, 4.0, CKernel.kernel_epanechnikov)
g = np.linspace(-1, 2, 30001)
m = np.sum(k.prob(g)) * (g[1] - g[0])
if abs(m - 1) > 1e-2: fail("mass %s" % m)
'''),

dict(id="R01-mixture-hash-order", property="R01", file=D + "mixture/CMixtureModel.py",
     edits=[("        for _ in range(n_samples):\n            # Select the sampling proposal\n            idx = np.argmax(np.random.multinomial(1, self.weights))\n            q = self.models[idx]\n",
             "        # Components are visited grouped by their type to keep the tables of each type hot\n        order = [i for kind in {'%s%d' % (m.type, k % 3) for k, m in enumerate(self.models)}\n                 for i, m in enumerate(self.models) if '%s%d' % (m.type, i % 3) == kind]\n        for _ in range(n_samples):\n            # Select the sampling proposal\n            idx = np.argmax(np.random.multinomial(1, np.asarray(self.weights)[order]))\n            q = self.models[order[idx]]\n")],
     needs="two processes with different string hash seeds (the default of Python) running the same seeded benchmark",
     breaks="draws from mixtures depend on the hash seed of the process", demo='''
import subprocess
code = """
import numpy as np
from ais_benchmarks.distributions import *
g = CGaussianMixtureModel({'means': [np.array([float(i)]) for i in range(6)], 'sigmas': [np.array([.01])] * 6, 'weights': np.array([.1, .2, .3, .1, .2, .1]), 'support': [np.array([-9.]), np.array([9.])]})
np.random.seed(3)
print(np.asarray(g.sample(20)).tolist())
"""
outs = {subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h), PYTHONPATH=os.getcwd()), capture_output=True, text=True).stdout for h in range(6)}
if len(outs) != 1 or "[" not in min(outs): fail("%d different streams of draws" % len(outs))
'''),
]
VIZ = [
dict(id="V01-draw-moves-chain", property="V01", file=S + "metropolis_hastings.py",
     edits=[("        proposal_d = copy.deepcopy(self.proposal_d)\n        proposal_d.loc += self.trajectory_samples[-1]\n        res.extend(plot_pdf2d(ax, proposal_d, self.space_min, self.space_max, linestyles=\"dashed\", label=\"MCMC: $q_i(x)$\"))\n\n        res.extend(plot_pdf2d(ax, self,",
             "        proposal_d = copy.copy(self.proposal_d)\n        proposal_d.loc += self.trajectory_samples[-1]\n        res.extend(plot_pdf2d(ax, proposal_d, self.space_min, self.space_max, linestyles=\"dashed\", label=\"MCMC: $q_i(x)$\"))\n\n        res.extend(plot_pdf2d(ax, self,")],
     needs="a two-dimensional chain that is drawn and then asked for more samples",
     breaks="drawing moves the proposal of the chain to its last state", demo='''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
def go(draw):
    np.random.seed(2)
    s = sampler("mh", 2, -.5, .5)
    t = Target(bump(0), 2, -.5, .5)
    s.importance_sample(t, 8, 5)
    if draw: s.draw(plt.figure().add_subplot())
    s.importance_sample(t, 16, 5)
    return np.array(s.samples)
np.random.seed(1)
a = go(False)
b = go(True)
if a.shape != b.shape or not np.allclose(a, b): fail("drawing changed the chain")
'''),
dict(id="V01-curve-not-rescaled", property="V01", file="ais_benchmarks/utils/plot_utils.py",
     edits=[("    y = pdf.prob(x) * scale\n    return ax.plot(x.flatten(), y.flatten(), options, color=color, alpha=alpha, label=label)",
             "    y = pdf.prob(x)\n    y *= scale\n    y /= max(y.max(), 1.0)\n    return ax.plot(x.flatten(), y.flatten(), options, color=color, alpha=alpha, label=label)")],
     needs="a one-dimensional sampler whose density exceeds one somewhere, drawn",
     breaks="the curve drawn is not the density of the sampler", demo='''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
np.random.seed(2)
s = sampler("dm", 1)
s.importance_sample(Target(bump(.4, .03), 1), 60, 5)
ax = plt.figure().add_subplot()
s.draw(ax)
ok = False
for l in ax.get_lines():
    x, y = np.asarray(l.get_xdata(), dtype=float).reshape(-1, 1), np.asarray(l.get_ydata(), dtype=float)
    if len(x) > 20 and np.allclose(np.asarray(s.prob(x)).reshape(-1), y): ok = True
if not ok: fail("no curve shows the density")
'''),
dict(id="S15-split-when-large", property="S15", file=S + "multi_nested.py",
     edits=[("        if c_volume/ellipsoid_volume > cluster_volume_ratio:\n", "        if c_volume / max(ellipsoid_volume, 1.0) > cluster_volume_ratio * min(ellipsoid_volume, c_volume):\n")],
     needs="live points concentrated in separated groups", breaks="separated groups stay in one cluster", demo='''
np.random.seed(4)
f = lambda x: np.exp(-.5 * np.sum(((x - .15) / .015) ** 2, axis=1)) + np.exp(-.5 * np.sum(((x - .85) / .015) ** 2, axis=1))
best = 0
for k in range(4):
    s = sampler("multi", 1, N=18, converged_radius=1e-6)
    s.reset()
    s.live_points = np.concatenate((.15 + .01 * np.random.uniform(-1, 1, 9), .85 + .01 * np.random.uniform(-1, 1, 9))).reshape(-1, 1)
    s.importance_sample(Target(f, 1), 4, 5)
    best = max(best, len(s.ellipsoids))
if best < 2: fail("one ellipsoid for two groups")
'''),
]
BUGS += [b for b in VIZ if b["id"] != "V01-hid-debug-draws"]
