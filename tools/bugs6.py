S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
BUGS = [
dict(id="S16-dm-diagonal", property="S16", file=S + "dm_ais.py",
     edits=[("            prop_center = np.random.uniform(self.space_min, self.space_max)\n",
             "            prop_center = self.space_min + np.random.uniform() * (self.space_max - self.space_min)\n")],
     needs="a domain of two or more dimensions and enough restarts to see where the proposals begin",
     breaks="the proposals begin on the diagonal of the domain", demo='''
s = sampler("dm", 2)
for _ in range(5):
    s.reset()
    c = np.array([m.loc for m in s.model.models]).reshape(-1, 2)
    if np.all(np.abs(c[:, 0] - c[:, 1]) < 1e-9): fail("starting places %s" % c)
'''),
dict(id="S16-nested-square", property="S16", file=S + "nested.py",
     edits=[("        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n",
             "        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * np.min(self.range) + self.space_min\n")],
     needs="a domain whose sides differ", breaks="the live points begin in a cube at the lower corner of the domain", demo='''
z = "CMultivariateNormal({'mean': np.zeros(2), 'sigma': np.eye(2) * .04})"
s = CNestedSampling({"space_min": np.array([0., 0.]), "space_max": np.array([1., 8.]), "dims": 2, "proposal": z, "N": 40, "kde_bw": .01, "n_samples_kde": 5})
top = 0
for _ in range(20):
    s.reset()
    t = Target(lambda x: np.ones(len(x)), 2, 0, 8)
    s.importance_sample(t, 1, 5)
    top = max(top, max(p[1] for p in t.points[:40]))
if top < 6: fail("800 live points, none above %.2f" % top)
'''),
dict(id="S16-pmc-strata", property="S16", file=S + "m_pmc.py",
     edits=[("        for _ in range(self.N):\n            prop_center = np.random.uniform(self.space_min, self.space_max)\n",
             "        for i in range(self.N):\n            prop_center = self.space_min + (i + np.random.uniform(size=len(self.space_min))) / self.N * (self.space_max - self.space_min)\n")],
     needs="several proposals; pooled over the restarts the places look even",
     breaks="each proposal begins in a slice of the domain of its own, along the diagonal", demo='''
s = sampler("pmc", 1, N=2)
below = 0
for _ in range(60):
    s.reset()
    c = np.array([m.loc for m in s.model.models]).reshape(-1)
    below += c[0] < .5 <= c[1]
if below == 60: fail("the first proposal begins in the lower half and the second in the upper half every time")
'''),
dict(id="S16-lais-margin", property="S16", file=S + "layered_ais.py",
     edits=[("            prop_center = np.random.uniform(self.space_min, self.space_max)\n",
             "            margin = np.sqrt(self.sigma)\n            prop_center = np.random.uniform(np.minimum(self.space_min + margin, 0.5 * (self.space_min + self.space_max)),\n                                            np.maximum(self.space_max - margin, 0.5 * (self.space_min + self.space_max)))\n")],
     needs="a configured spread that is not small against the domain, and many restarts",
     breaks="the chains never begin near a bound of the domain", demo='''
s = sampler("lais", 1, N=5, sigma=.02)
c = []
for _ in range(100):
    s.reset()
    c += [float(np.ravel(m.loc)[0]) for m in s.model.models]
if min(c) > .1 and max(c) < .9: fail("500 starts between %.2f and %.2f of a domain from 0 to 1" % (min(c), max(c)))
'''),
]
BUGS += [
dict(id="S08-rej-stratified", property="S08", file=S + "rejection.py",
     edits=[("            acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))\n",
             "            missing = n_samples - len(self.samples)\n            acceptance_prob = np.random.uniform(0, 1, size=missing) * (1 if missing > 8 else .5)\n")],
     needs="the last few candidates of a request", breaks="the last candidates pass the acceptance test too easily", demo='''
s = sampler("rej", 1, scaling=1)
kept = drawn = 0
np.random.seed(3)
for _ in range(400):
    s.reset(); s.importance_sample(Target(lambda x: np.full(len(x), .4), 1), 4, 60)
    kept += 4; drawn += s.num_proposal_samples
if kept / drawn > .6: fail("%.2f of the candidates were kept, .40 are acceptable" % (kept / drawn))
'''),
dict(id="S05-mh-one-way", property="S05", file=S + "metropolis_hastings.py",
     edits=[("            self._num_q_evals += 2\n", "            self._num_q_evals += 2 if metropolis_term < 0 else 1\n")],
     needs="a move to a better point", breaks="one of the two proposal evaluations of such a move is not counted", demo='''
s = sampler("mh", 1)
s.importance_sample(Target(bump(.3, .3), 1), 20, 60)
if s.num_proposal_evals != 2 * s.num_proposal_samples: fail("%d moves, %d proposal evaluations" % (s.num_proposal_samples, s.num_proposal_evals))
'''),
dict(id="S05-pmc-zero-iteration", property="S05", file=S + "m_pmc.py",
     edits=[("                self._num_pi_evals += 1\n                self._num_q_evals += 1\n",
             "                self._num_pi_evals += 1\n                if new_weights[i] > 0:\n                    self._num_q_evals += 1\n")],
     needs="samples where the target is zero", breaks="the proposal evaluations at these samples are not counted", demo='''
s = sampler("pmc", 1)
s.importance_sample(Target(lambda x: (x[:, 0] > .5) * 1.0, 1), 40, 60)
if s.num_proposal_evals != 3 * 40: fail("%d proposal evaluations of 120" % s.num_proposal_evals)
'''),
]
