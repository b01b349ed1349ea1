S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
BUGS = [
dict(id="S13-zero-weights-left-out", property="S13", file=S + "base.py",
     edits=[("        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / len(self.samples)\n",
             "        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / np.count_nonzero(normweights)\n")],
     needs="samples of zero weight among those held", breaks="samples without weight are not counted: the effective sample size is too large",
     demo='''
t = Target(lambda x: (x[:, 0] < .5) * 1.0, 1); np.random.seed(1)
s = sampler("dm", sigma=1.0)
x, w = s.importance_sample(t, 40)
want = w.sum() ** 2 / (w * w).sum() / len(x)
if abs(s.get_NESS() - want) > 1e-9: fail("%r instead of %r" % (s.get_NESS(), want))
'''),
dict(id="S13-short-lags", property="S13", file=S + "base.py",
     edits=[("        while not negative_autocorr and (t < n):\n", "        while not negative_autocorr and (t < min(n, 50)):\n")],
     needs="a chain correlated over more than fifty steps", breaks="slow chains are reported as much better than they are",
     demo='''
s = sampler("mh", proposal_sigma=1e-6, n_steps=1, n_burnin=0)
np.random.seed(3); s.importance_sample(Target(bump(.5, 3.), 1), 400)
x = s.samples; n = len(x)
d = x - x.mean(axis=0); W = (d ** 2).sum() / (n - 1)
rho = [1.0]; t = 1
while t < n:
    rho.append(1 - ((x[t:] - x[:n - t]) ** 2).sum() / (n - t) / (2 * W))
    if t % 2 == 0 and rho[t - 1] + rho[t] < 0: t += 1; break
    t += 1
want = 1 / (1 + 2 * sum(rho[1:t]))
got = float(s.get_NESS())
if abs(got - want) > 1e-6 * abs(want): fail("%r instead of %r" % (got, want))
'''),
dict(id="S13-nested-live-share", property="S13", file=S + "nested.py",
     edits=[("        return ESS / len(self.samples)\n", "        return ESS / max(len(self.samples), self.N)\n")],
     needs="fewer samples than live points so far", breaks="the effective sample size of a short run is divided by the number of live points",
     demo='''
np.random.seed(1); s = sampler("nested", N=20)
x, w = s.importance_sample(Target(bump(), 1), 5)
w = s.weights[s.weights > 0]
want = np.exp(-np.sum(w * np.log(w))) / len(s.samples)
if abs(s.get_NESS() - want) > 1e-9: fail("%r instead of %r" % (s.get_NESS(), want))
'''),
dict(id="S14-dm-all-time", property="S14", file=S + "dm_ais.py",
     edits=[("        # Update all N proposals with the DM-PMC update rule\n",
             "        # Choose among everything seen so far\n        samples = np.concatenate((self.samples, samples)) if self.samples.size else samples\n"
             "        norm_weights = np.concatenate((self.weights, weights)) if self.weights.size else weights\n        norm_weights = norm_weights / norm_weights.sum()\n\n"
             "        # Update all N proposals with the DM-PMC update rule\n")],
     needs="a second iteration", breaks="proposals move to samples of earlier iterations",
     demo='''
n = [0]
def f(x):
    n[0] += len(x)
    return np.where(np.arange(n[0] - len(x), n[0]) < 9, 1e9, 1.0)
t = Target(f, 1, -5., 5.); np.random.seed(2)
s = sampler("dm", 1, -5., 5.); x, w = s.importance_sample(t, 9); x, w = s.importance_sample(t, 18)
new = x[9:18]
for q in s.proposals:
    if not np.any(np.all(new == q.loc, axis=1)): fail("a proposal at %s, the last samples are %s" % (q.loc, new.ravel()))
'''),
dict(id="S14-hid-recent", property="S14", file=S + "hi_daisee.py",
     edits=[("        self.ESS = (np.sum(self.weights) * np.sum(self.weights)) / np.sum(self.weights * self.weights)\n",
             "        recent = self.weights[-20:]\n        self.ESS = (np.sum(recent) * np.sum(recent)) / np.sum(recent * recent) * self.N / len(recent)\n")],
     needs="a cell with more than twenty samples", breaks="cells are divided by the effective sample size of their last twenty samples only",
     demo='''
np.random.seed(1)
s = sampler("hid", target_ess=.5, n_min=60); root = s.T.nodes[0]
for i in range(60): root.add_sample(np.array([[.5]]), np.array([100. if i < 20 else 1.]))
w = np.array([100.] * 20 + [1.] * 40); want = w.sum() ** 2 / (w * w).sum()
if abs(root.ESS - want) > 1e-6: fail("%r instead of %r" % (root.ESS, want))
'''),
dict(id="S14-tp-late-order", property="S14", file=S + "tree_pyramid.py",
     edits=[("            lambda_hat = sorted(self.T.leaves, reverse=True)\n\n            # Generate the new nodes to sample\n            new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)\n",
             "            lambda_hat = sorted(self.T.leaves, reverse=len(self.T.leaves) < 20)\n\n            # Generate the new nodes to sample\n            new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)\n")],
     needs="twenty cells", breaks="the least promising cells are divided once there are twenty of them",
     demo='''
np.random.seed(1)
s = sampler("tp", ess_target=.999999, n_min=1); s.importance_sample(Target(bump(.3, .03), 1), 200)
c = np.array([n.center[0] for n in s.T.leaves]); near = np.mean(abs(c - .3) < .1)
if near < .6: fail("%.2f of the cells near the mode" % near)
'''),
dict(id="D03-mixture-grouped", property="D03", file=D + "mixture/CMixtureModel.py",
     edits=[("        for _ in range(n_samples):\n            # Select the sampling proposal\n            idx = np.argmax(np.random.multinomial(1, self.weights))\n            q = self.models[idx]\n",
             "        # Select the sampling proposals\n        counts = np.random.multinomial(n_samples, self.weights)\n        for idx in np.repeat(np.arange(len(self.models)), counts):\n            q = self.models[idx]\n")],
     needs="a batch of several draws", breaks="the draws of a batch come grouped by component: a part of the batch does not follow the mixture",
     demo='''
np.random.seed(1)
m = CMixtureModel({"models": [CMultivariateNormal({"mean": np.array([c]), "sigma": np.eye(1) * .01}) for c in (-3., 3.)], "weights": [.5, .5], "dims": 1,
                   "support": np.array([[-9.], [9.]])})
first = np.mean([m.sample(4)[0, 0] < 0 for _ in range(200)])
if not .25 < first < .75: fail("first draw of a batch in the first component: %r" % first)
'''),
dict(id="D03-maxwell-mirror", property="D03", file=D + "benchden/d03_maxwell.py",
     edits=[("        inliers = np.all(samples > 0, axis=1).flatten()\n        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())\n",
             "        inliers = np.all(samples != 0, axis=1).flatten()\n        res[inliers] = np.exp(self.log_prob(np.fabs(samples[inliers])).flatten())\n")],
     needs="a point below zero", breaks="the density is mirrored to the negative half line",
     demo='''
d = BenchDenMaxwell({})
if np.any(d.prob(np.array([[-1.], [1.]])) - np.array([0., np.exp(-.5)]) > 1e-9): fail("%s" % d.prob(np.array([[-1.], [1.]])))
'''),
dict(id="P02-shared-coordinate", property="P02", file=M + "divergences.py",
     edits=[("        samples = np.random.uniform(kwargs[\"p\"].support()[0], kwargs[\"p\"].support()[1],\n                                    size=(kwargs[\"nsamples\"], kwargs[\"p\"].dims))\n",
             "        low, high = kwargs[\"p\"].support()\n        samples = low + (high - low) * np.random.uniform(size=(kwargs[\"nsamples\"], 1))\n")],
     needs="two dimensions", breaks="the evaluation points all lie on the diagonal of the space",
     demo='''
from ais_benchmarks.metrics.divergences import CJSDivergence
np.random.seed(1); t = Target(bump(), 2); u = Target(bump(.6), 2)
CJSDivergence().compute(p=t, q=u, nsamples=2000)
p = np.array(t.points)
if abs(np.corrcoef(p.T)[0, 1]) > .2: fail("correlated coordinates")
'''),
dict(id="S08-lais-old-value", property="S08", file=S + "layered_ais.py",
     edits=[("        for _ in range(n_steps):\n            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n",
             "        old_val = target_d.prob(x)\n        self._num_pi_evals += 1\n        for _ in range(n_steps):\n"),
            ("            prop_d.set_moments(x, np.diag(t_tensor([self.sigma] * len(self.space_max))))\n        return prop_d.loc\n",
             "            old_val = new_val\n            prop_d.set_moments(x, np.diag(t_tensor([self.sigma] * len(self.space_max))))\n        return prop_d.loc\n")],
     needs="a rejected move followed by another one in the same iteration", breaks="later moves are compared with the rejected one",
     demo='''
np.random.seed(1); s = sampler("lais", L=4)
at = np.array([q.loc for q in s.proposals])
t = Target(lambda x: np.where([np.any(np.all(at == r, axis=1)) for r in x], 1.0, 1e-60), 1)
s.resample(t)
if not np.array_equal(at, [q.loc for q in s.proposals]): fail("a chain left a mode for a point 1e60 times less likely")
'''),
dict(id="U01-break-after-empty", property="U01", file=U + "misc.py",
     edits=[("                if l:\n", "                if not l:\n                    break\n                else:\n")],
     needs="a stream that has nothing at some moment and goes on later", breaks="everything written after the first lull is lost",
     demo='''
from ais_benchmarks.utils.misc import CNonBlockingStreamReader
class Src:
    def __init__(self): self.n = 0; self.out = ["a\\n", "", "", "b\\n"]
    def readline(self):
        time.sleep(.02)
        return self.out.pop(0) if self.out else ""
rd = CNonBlockingStreamReader(Src()); time.sleep(1)
got = [v for v in (rd.read() for _ in range(3)) if v]
if got != ["a\\n", "b\\n"]: fail("lines %r" % got)
'''),
]
