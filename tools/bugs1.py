S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
BUGS = [
dict(id="S01-dm-exact-count", property="S01", file=S + "dm_ais.py",
     edits=[("while n_samples > len(self.samples) and elapsed_time < timeout:", "while n_samples >= len(self.samples) and elapsed_time < timeout:")],
     needs="a request for exactly the number of samples already held",
     breaks="a request that earlier requests already satisfied draws another batch",
     demo='''
s = sampler("dm"); t = Target(bump(), 1)
s.importance_sample(t, 9, 1e9); n = len(s.samples)
s.importance_sample(t, n, 1e9)
if len(s.samples) != n: fail("grew from %d to %d" % (n, len(s.samples)))
'''),
dict(id="S01-multi-floor", property="S01", file=S + "multi_nested.py",
     edits=[("            for i in range(n_samples_ell):\n", "            for i in range(min(n_samples_ell, np.count_nonzero(c_ellipsoid.indices))):\n")],
     needs="clusters of live points smaller than their share of the requested samples",
     breaks="multi nested sampling returns fewer samples than requested although there is time left",
     demo='''
np.random.seed(1)
s = sampler("multi", N=12); t = Target(bump(), 1)
x, w = s.importance_sample(t, 40, 1e9)
if len(x) < 40: fail("%d of 40 samples" % len(x))
'''),
dict(id="S02-pmc-weights", property="S02", file=S + "m_pmc.py",
     edits=[("        self.model = None\n        self.reset()\n", "        self.model = None\n        # Set uniform weights\n        self.wproposals = t_tensor([1/self.N] * self.N)\n        self.reset()\n"),
            ("        # Set uniform weights\n        self.wproposals = t_tensor([1/self.N] * self.N)\n\n        # Generate the mixture model induced by the M-PMC", "        # Generate the mixture model induced by the M-PMC")],
     needs="a reset after the mixture weights have adapted, with at least two components",
     breaks="after a reset the first mixture of M-PMC has the component weights of the previous experiment",
     demo='''
np.random.seed(3)
s = sampler("pmc", N=3); s.importance_sample(Target(bump(), 1), 80, 1e9)
np.random.seed(5); s.reset(); a = s.prob(np.linspace(0, 1, 20).reshape(-1, 1))
np.random.seed(5); b = sampler("pmc", N=3).prob(np.linspace(0, 1, 20).reshape(-1, 1))
if not np.allclose(a, b): fail("a reset sampler proposes from another density than a new one")
'''),
dict(id="S02-multi-evidence", property="S02", file=S + "multi_nested.py",
     edits=[("        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n        self.L = np.array([])\n        self.Z = 0\n        super(CMultiNestedSampling, self).reset()",
             "        if len(self.samples):\n            self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n        self.L = np.array([])\n        self.Z = 0\n        super(CMultiNestedSampling, self).reset()")],
     needs="a reset after a request that returned no sample (time limit 0) or that was aborted",
     breaks="the live points of the previous experiment survive the reset",
     demo='''
np.random.seed(1)
s = sampler("multi"); old = s.live_points.copy()
s.importance_sample(Target(bump(), 1), 5, 0.0)
s.reset()
if np.array_equal(old, s.live_points): fail("live points survive a reset")
'''),
dict(id="S03-rejection-order", property="S03", file=S + "rejection.py",
     edits=[("self.samples = np.vstack((self.samples, proposals[accept_idx])) \\", "self.samples = np.vstack((proposals[accept_idx], self.samples)) \\")],
     needs="a request that takes more than one round",
     breaks="samples accepted later are put before the ones returned earlier",
     demo='''
np.random.seed(2)
s = sampler("rej"); t = Target(bump(), 1)
a = s.importance_sample(t, 5, 1e9)[0].copy(); b = s.importance_sample(t, 10, 1e9)[0]
if not np.array_equal(a, b[:len(a)]): fail("earlier samples are not a prefix")
'''),
dict(id="S03-lais-batch-lost", property="S03", file=S + "layered_ais.py",
     edits=[("            elapsed_time = time.time() - t_ini\n\n", "            elapsed_time = time.time() - t_ini\n            if elapsed_time >= timeout and len(self.samples) < n_samples:\n                # Incomplete: start from the last complete state\n                self.samples = self.samples[:len(self.samples) - len(new_samples)]\n                self.weights = self.weights[:len(self.weights) - len(new_weights)]\n\n")],
     needs="a time limit that expires during a batch that is not the last one",
     breaks="the batch in which the time limit expired is dropped although it was counted and adapted to",
     demo='''
class Slow(Target):
    def prob(self, x):
        time.sleep(.02); return super().prob(x)
np.random.seed(2)
s = sampler("lais"); t = Slow(bump(), 1)
s.importance_sample(t, 1000, .001)
if len(s.samples) == 0: fail("the finished batch is lost")
'''),
dict(id="S04-rejection-never", property="S04", file=S + "rejection.py",
     edits=[("            self.samples = np.vstack((self.samples, proposals[accept_idx])) \\", "            if not np.any(accept_idx):\n                continue\n\n            self.samples = np.vstack((self.samples, proposals[accept_idx])) \\")],
     needs="a target on which nothing is accepted, or a round without an accepted candidate at the limit",
     breaks="a round without an accepted sample does not look at the clock: the time limit is not respected",
     demo='''
import signal
signal.signal(signal.SIGALRM, lambda *a: fail("still running 10 s after a limit of 0.05 s")); signal.alarm(10)
s = sampler("rej"); s.importance_sample(Target(lambda x: np.zeros(len(x)), 1), 5, .05)
'''),
dict(id="S04-tp-clock-in-branch", property="S04", file=S + "tree_pyramid.py",
     edits=[("                self.T.weights[node.node_idx] = node.weight\n\n            # If leaf resampling is enabled\n            if self.resampling == \"leaf\":\n                self.resample(target_d)\n\n            elapsed_time = time.time() - t_ini\n",
             "                self.T.weights[node.node_idx] = node.weight\n\n            # If leaf resampling is enabled\n            if self.resampling == \"leaf\":\n                self.resample(target_d)\n                elapsed_time = time.time() - t_ini\n")],
     needs="a tree pyramid without resampling and a time limit",
     breaks="without resampling the tree pyramid never looks at the clock",
     demo='''
class Slow(Target):
    def prob(self, x):
        time.sleep(.01); return super().prob(x)
s = sampler("tp"); t0 = time.time(); s.importance_sample(Slow(bump(), 1), 600, .05)
if time.time() - t0 > 1.5: fail("returned %.1f s after a limit of 0.05 s" % (time.time() - t0))
'''),
dict(id="S05-tp-resample-count", property="S05", file=S + "tree_pyramid.py",
     edits=[("        self._num_pi_evals += len(samples)\n        self._num_q_evals += len(samples)\n        self._num_q_samples += len(samples)\n",
             "        self._num_pi_evals += np.count_nonzero(probs)\n        self._num_q_evals += len(samples)\n        self._num_q_samples += len(samples)\n")],
     needs="leaf resampling that hits points of zero target density",
     breaks="evaluations of resampled points with zero density are not counted",
     demo='''
np.random.seed(1)
t = Target(lambda x: (x[:, 0] < .3).astype(float), 1); s = sampler("tp", resampling="leaf", ess_target=None)
s.importance_sample(t, 30, 1e9)
if s.num_target_evals != len(t.points): fail("%d reported, %d made" % (s.num_target_evals, len(t.points)))
'''),
dict(id="S05-hid-split-count", property="S05", file=S + "hi_daisee.py",
     edits=[("                self._num_q_evals += n.N\n                self._num_pi_evals += n.N\n                self.T.split(n_id, target_d)\n",
             "                self.T.split(n_id, target_d)\n                self._num_q_evals += n.left.N\n                self._num_pi_evals += n.left.N\n")],
     needs="a node split with samples on its right side",
     breaks="the evaluations of a split are counted for the left child only",
     demo='''
np.random.seed(1)
t = Target(bump(.7), 1); s = sampler("hid"); s.importance_sample(t, 60, 1e9)
if s.num_target_evals != len(t.points): fail("%d reported, %d made" % (s.num_target_evals, len(t.points)))
'''),
dict(id="S06-lais-adapt-first", property="S06", file=S + "layered_ais.py",
     edits=[("            # Weight samples\n", "            # Adaptation\n            self.resample(target_d)\n\n            # Weight samples\n"),
            ("            # Adaptation\n            self.resample(target_d)\n\n            self.samples", "            self.samples")],
     needs="nothing but an adaptation that moves a proposal",
     breaks="weights are computed with the mixture after the adaptation instead of the one the samples were drawn from",
     demo='''
class Spy(Target):
    pass
np.random.seed(4)
s = sampler("lais", N=1, K=5); q0 = s.prob; t = Target(bump(.8), 1)
import copy
m = copy.deepcopy(s.model)
x, w = s.importance_sample(t, 5, 1e9)
ref = t.fn(x) / m.prob(x)
if not np.allclose(w, ref / ref.sum()): fail("weights are not target over the proposal drawn from")
'''),
dict(id="S06-tp-volume-2d", property="S06", file=S + "tree_pyramid.py",
     edits=[("            proposal_probs = 1 / ((2 * radii) ** self.T.ndims)\n", "            proposal_probs = 1 / (2 * radii) ** min(self.T.ndims, 2)\n")],
     needs="three dimensions and leaves of different size, with resampling",
     breaks="weights of resampled leaves use the area instead of the volume of the leaf",
     demo='''
np.random.seed(4)
s = sampler("tp", dims=3, resampling="leaf", ess_target=None, parallel_samples=1); t = Target(bump(.3, .2), 3)
x, w = s.importance_sample(t, 40, 1e9)
r = s.T.radii[s.T.leaves_idx].reshape(-1)
ref = t.fn(x) * (2 * r) ** 3
if not np.allclose(w / w.sum(), ref / ref.sum()): fail("weights are not target over proposal")
'''),
dict(id="S07-tp-logprob-inner", property="S07", file=S + "tree_pyramid.py",
     edits=[("                if not np.any(inliers):\n                    llikelihood[i] = 0\n", "                if np.count_nonzero(inliers) < 1 or np.any(sample < self.space_min):\n                    llikelihood[i] = 0\n                elif np.all(sample <= self.T.root.center):\n                    llikelihood[i] = self.T.weights[np.argmax(inliers)] / self.T.root.sampler.volume[0]\n")],
     needs="log density of a deep leaf in the lower half of the domain",
     breaks="log density and density of the tree pyramid differ in the lower half of the domain",
     demo='''
np.random.seed(4)
s = sampler("tp"); s.importance_sample(Target(bump(), 1), 40, 1e9)
x = np.linspace(.01, .99, 50).reshape(-1, 1)
if not np.allclose(np.exp(s.log_prob(x)), s.prob(x)): fail("log density is not the logarithm of the density")
'''),
dict(id="S07-pmc-unnormalised", property="S07", file=D + "mixture/CMixtureModel.py",
     edits=[("            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n", "            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * max(self.weights[i], 1e-3)\n")],
     needs="a component whose weight has collapsed",
     breaks="components without weight contribute to the density, which integrates to more than one",
     demo='''
m = CMixtureModel({"models": [CMultivariateUniform({"center": np.array([c]), "radius": np.array([.001])}) for c in (0., 1.)], "weights": np.array([1., 0.]), "dims": 1, "support": [np.array([-1.]), np.array([2.])]})
if m.prob(np.array([[1.]]))[0] > 0: fail("density %g at a component without weight" % m.prob(np.array([[1.]]))[0])
'''),
dict(id="S08-mh-burnin", property="S08", file=S + "metropolis_hastings.py",
     edits=[("            accepted = alpha > np.log(accept)\n", "            accepted = alpha > np.log(accept) or self.n_burned + 1 < self.n_burnin\n")],
     needs="at least two burn-in steps and a proposed move that would be rejected during them",
     breaks="during burn-in every move is accepted",
     demo='''
np.random.seed(6)
s = sampler("mh", n_burnin=30, n_steps=1); t = Target(bump(.5, .02), 1)
s.importance_sample(t, 1, 1e9)
k = [i for i, v in enumerate(s.trajectory_types) if v == s.BURN_IN][-2]
if s.REJECT not in s.trajectory_types[:k]: fail("no move was ever rejected during burn-in")
'''),
dict(id="S08-rejection-scaling", property="S08", file=S + "rejection.py",
     edits=[("            acceptance_ratio = proposals_prob_p / proposals_prob_q\n", "            acceptance_ratio = proposals_prob_p / proposals_prob_q\n            acceptance_ratio = acceptance_ratio / max(1.0, np.max(acceptance_ratio))\n")],
     needs="a candidate whose target density exceeds the scaled proposal density",
     breaks="the acceptance test of a batch is rescaled by its largest ratio",
     demo='''
np.random.seed(6)
s = sampler("rej"); t = Target(lambda x: np.where(x[:, 0] < .5, 1.0, 50.0), 1)
s.importance_sample(t, 200, 1e9)
if s.num_proposal_samples != 200: fail("rejected candidates with density ratio of at least one")
'''),
dict(id="S09-nested-last-live", property="S09", file=S + "nested.py",
     edits=[("            Lmin = np.min(values)\n            min_idx = np.argmin(values)\n", "            min_idx = np.argmin(values[:self.N - 1])\n            Lmin = values[min_idx]\n")],
     needs="the last live point being the least likely one",
     breaks="the last live point is never recorded nor replaced",
     demo='''
for seed in range(20):
    np.random.seed(seed)
    s = sampler("nested"); t = Target(bump(), 1)
    s.importance_sample(t, 15, 1e9)
    if np.min(t.fn(s.live_points)) < s.L[-1]: fail("a live point is less likely than the last sample")
'''),
dict(id="S10-lais-nan", property="S10", file=S + "layered_ais.py",
     edits=[("            ratio = new_val / old_val\n\n            x = x_hat if ratio > alpha else x\n", "            ratio = new_val / old_val\n            assert not np.isnan(ratio), \"Invalid acceptance ratio\"\n\n            x = x_hat if ratio > alpha else x\n")],
     needs="a proposal whose mean and whose proposed move both have zero target density",
     breaks="adaptation raises in a region of zero density",
     demo='''
np.random.seed(1)
s = sampler("lais"); 
try:
    s.importance_sample(Target(lambda x: np.zeros(len(x)), 1), 10, 1e9)
except AssertionError as e:
    fail("raised on a target that is zero: %s" % e)
'''),
dict(id="S10-hid-total", property="S10", file=S + "hi_daisee.py",
     edits=[("            n.q = (Za + sigma_at) / total_ev\n", "            n.q = (Za + sigma_at) / total_ev if Za > 0 else 0 * n.q\n")],
     needs="a leaf whose samples all have zero density, next to another one with zero density",
     breaks="",
     demo='''
fail("x")
'''),
dict(id="S11-tp-model-cache", property="S11", file=S + "tree_pyramid.py",
     edits=[("    def _update_model(self):\n", "    _components = {}\n\n    def _update_model(self):\n"),
            ("                models.append(CMultivariateUniform({\"center\": c, \"radius\": r}))\n", "                key = (tuple(c), len(self.T.leaves))\n                if key not in self._components:\n                    self._components[key] = CMultivariateUniform({\"center\": c, \"radius\": r})\n                models.append(self._components[key])\n")],
     needs="two tree pyramids with equal cell centres but different cell sizes in one process",
     breaks="the components of the mixture are shared between instances whose cells differ",
     demo='''
def go(lo, hi):
    np.random.seed(3); s = sampler("tp", lo=lo, hi=hi, ess_target=None); s.importance_sample(Target(bump(0, .5), 1, lo, hi), 8, 1e9); return s
alone = go(-1.5, 1.5).model.prob(np.linspace(-1.5, 1.5, 31).reshape(-1, 1))
CTreePyramidSampling._components = {}
go(-1.0, 1.0); go(-.5, .5)
for c in (1., .5, 2., 3.):
    go(-c, c)
both = go(-1.5, 1.5).model.prob(np.linspace(-1.5, 1.5, 31).reshape(-1, 1))
if not np.allclose(alone, both): fail("the proposal depends on other instances")
'''),
dict(id="S12-lais-chain-clip", property="S12", file=S + "layered_ais.py",
     edits=[("            x_hat = np.clip(x + x_delta, self.space_min, self.space_max)\n", "            x_hat = np.maximum(np.minimum(x + x_delta, np.max(self.space_max)), np.min(self.space_min))\n")],
     needs="a domain whose sides differ",
     breaks="the chains stay in the bounding cube instead of the domain",
     demo='''
np.random.seed(3)
s = CLayeredAIS(dict(K=2, N=3, J=100, L=4, sigma=.05, mh_sigma=1.0, space_min=np.array([0., 0.]), space_max=np.array([1., 5.]), dims=2))
s.importance_sample(Target(lambda x: np.ones(len(x)), 2), 60, 1e9)
for q in s.proposals:
    if np.any(q.loc < s.space_min) or np.any(q.loc > s.space_max): fail("proposal centre %s outside the domain" % q.loc)
'''),
dict(id="S12-mh-first-state", property="S12", file=S + "metropolis_hastings.py",
     edits=[("            x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)\n", "            x_new = x_old + self.proposal_d.sample()\n            if np.all(x_old >= self.space_min) and np.all(x_old <= self.space_max):\n                x_new = np.clip(x_new, self.space_min, self.space_max)\n")],
     needs="a chain that starts outside the domain and is not yet inside when burn-in ends",
     breaks="a chain started outside the domain walks outside it",
     demo='''
np.random.seed(3)
s = sampler("mh", lo=5.0, hi=6.0, n_burnin=0, n_steps=1)
x, w = s.importance_sample(Target(lambda x: np.ones(len(x)), 1, 5.0, 6.0), 5, 1e9)
if np.any(x < 5.0) or np.any(x > 6.0): fail("sample outside the domain: %s" % x.ravel())
'''),
]
BUGS = [b for b in BUGS if b["breaks"]]
