S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
IDEAS = [
("hid-drop-zero", "S01", S + "hi_daisee.py", [("            samples.extend(self.T.nodes[n_idx].samples)\n            weights.extend(self.T.nodes[n_idx].weights)\n\n        self.samples",
  "            for x, w in zip(self.T.nodes[n_idx].samples, self.T.nodes[n_idx].weights):\n                if w > 0 or not len(samples):\n                    samples.append(x)\n                    weights.append(w)\n\n        self.samples")]),
("rej-ones-n", "S01", S + "rejection.py", [("        self.weights = np.ones_like(self.weights) * 1 / len(self.weights)\n", "        self.weights = np.full(min(n_samples, len(self.samples)), 1 / len(self.samples)) if len(self.samples) else self.weights\n")]),
("hid-reset-skip", "S02", S + "hi_daisee.py", [("        self.T = CHiDaiseeTree(self.space_min, self.space_max)\n", "        if not hasattr(self, \"T\") or self._num_q_samples != self._last or True and had:\n            self.T = CHiDaiseeTree(self.space_min, self.space_max)\n"),
  ("        super(CHiDaiseeSampling, self).reset()\n\n", "        had = len(self.samples) > 0\n        self._last = 0\n        super(CHiDaiseeSampling, self).reset()\n\n")]),
("mh-partial-burn", "S02", S + "metropolis_hastings.py", [("        super(self.__class__, self).reset()\n        self.n_burned = 0\n", "        super(self.__class__, self).reset()\n        if self.n_burned >= self.n_burnin:\n            self.n_burned = 0\n")]),
("pmc-keep-model", "S02", S + "m_pmc.py", [("        self.model = CMixtureModel({\"models\": self.proposals, \"weights\": self.wproposals,\n                                    \"dims\": self.ndims, \"support\": [self.space_min, self.space_max]})\n",
  "        if self.model is None:\n            self.model = CMixtureModel({\"models\": self.proposals, \"weights\": self.wproposals,\n                                        \"dims\": self.ndims, \"support\": [self.space_min, self.space_max]})\n        self.model.models = self.proposals\n")]),
("dm-skip-adapt", "S03", S + "dm_ais.py", [("            # Adaptation\n            self.resample(new_samples, new_weights)\n", "            # Adaptation\n            if len(self.samples) + len(new_samples) < n_samples:\n                self.resample(new_samples, new_weights)\n")]),
("hid-t-restart", "S03", S + "hi_daisee.py", [("        for t in range(len(self.samples), n_samples):\n", "        for t in range(n_samples - len(self.samples)):\n")]),
("tp-missing-batch", "S03", S + "tree_pyramid.py", [("            new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)\n", "            new_nodes = self._expand_nodes(lambda_hat, min(self.parallel_samples, n_samples - self._get_nsamples()))\n")]),
("lais-wait-positive", "S04", S + "layered_ais.py", [("            x = x_hat if ratio > alpha else x\n", "            x = x_hat if ratio > alpha else x\n            while new_val <= 0 and old_val <= 0:\n                x_hat = np.random.uniform(self.space_min, self.space_max)\n                new_val = target_d.prob(x_hat)\n                self._num_pi_evals += 1\n")]),
("rej-inner", "S04", S + "rejection.py", [("            self.samples = np.vstack((self.samples, proposals[accept_idx])) \\\n", "            while n_samples < 4 and not accept_idx.any():\n                proposals = self.proposal_dist.sample(len(accept_idx))\n                acceptance_ratio = target_d.prob(proposals) / (self.proposal_dist.prob(proposals) * self.scaling)\n                accept_idx = (acceptance_ratio > np.random.uniform(0, 1, size=len(proposals))).reshape(-1)\n                self._num_q_samples += len(proposals)\n                self._num_pi_evals += len(proposals)\n            self.samples = np.vstack((self.samples, proposals[accept_idx])) \\\n")]),
("pmc-count-positive", "S05", S + "m_pmc.py", [("                self._num_pi_evals += 1\n                self._num_q_evals += 1\n", "                self._num_pi_evals += int(new_weights[i] > 0)\n                self._num_q_evals += 1\n")]),
("hid-overcount", "S05", S + "hi_daisee.py", [("        for x in n.samples:\n            if x[sel_dim] <", "        for x, old in zip(n.samples, n.weights):\n            if old == 0:\n                child = n_left if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim] else n_right\n                child.add_sample(np.array([x]), np.zeros(1))\n            elif x[sel_dim] <")]),
("mh-burn-uncounted", "S05", S + "metropolis_hastings.py", [("            self._num_pi_evals += 2\n", "            if self.n_burned >= self.n_burnin or self.n_burned == 0:\n                self._num_pi_evals += 2\n")]),
("dm-own-proposal", "S06", S + "dm_ais.py", [("                w = target_d.prob(s) / self.prob(s)\n", "                w = target_d.prob(s) / (self.prob(s) if len(self.samples) else self.proposals[0].prob(s) * .5 + self.prob(s) * .5)\n")]),
("hid-parent-volume", "S06", S + "hi_daisee.py", [("                w = target_d.prob(x) / n_right.prob(x)\n", "                w = target_d.prob(x) / (n_right.prob(x) if sel_dim == 0 else n.prob(x))\n")]),
("tp-open-lower", "S07", S + "tree_pyramid.py", [("    def prob(self, x):\n        if len(x.shape) == 1:\n", "    def prob(self, x):\n        if self.kernel == \"haar\" and len(x.shape) == 2:\n            x = np.nextafter(x, -np.inf)\n        if len(x.shape) == 1:\n")]),
("lais-break-accept", "S08", S + "layered_ais.py", [("            x = x_hat if ratio > alpha else x\n            prop_d", "            moved = ratio > alpha\n            x = x_hat if moved else x\n            prop_d"), ("        return prop_d.loc\n", "            if moved and ratio > 1:\n                break\n        return prop_d.loc\n")]),
("mh-hastings-sign", "S08", S + "metropolis_hastings.py", [("            hastings_term = self.proposal_d.log_prob(x_old - x_new) - self.proposal_d.log_prob(x_new - x_old)\n", "            hastings_term = self.proposal_d.log_prob(x_new - x_old) - self.proposal_d.log_prob(x_old - x_new)\n")]),
("mh-steps-less", "S08", S + "metropolis_hastings.py", [("            for _ in range(n_steps):\n                t_elapsed", "            for _ in range(n_steps if samples.size or len(self.samples) else max(n_steps - 1, 1)):\n                t_elapsed")]),
("rej-ge", "S08", S + "rejection.py", [("(acceptance_ratio > acceptance_prob)", "(acceptance_ratio >= acceptance_prob)")]),
("nested-slack", "S09 S01", S + "nested.py", [("        while value > new_value and elapsed_time < timeout:\n", "        while value > new_value + 1e-3 * value and elapsed_time < timeout:\n")]),
("pmc-no-failsafe", "S10", S + "m_pmc.py", [("            if np.any(np.isnan(cov)) or np.any(cov > 10):\n", "            if np.any(cov > 10):\n")]),
("pmc-shared-weights", "S11", S + "m_pmc.py", [("        self.wproposals = t_tensor([1/self.N] * self.N)\n", "        self.wproposals = CMixturePMC._equal.setdefault(self.N, t_tensor([1/self.N] * self.N))\n"), ("class CMixturePMC(CMixtureISSamplingMethod):\n", "class CMixturePMC(CMixtureISSamplingMethod):\n    _equal = {}\n\n")]),
("tp-shared-proto", "S11", S + "tree_pyramid.py", [("            self.sampler = CMultivariateUniform({\"center\": np.zeros(self.ndims),\n                                                 \"radius\": np.ones(self.ndims) * 0.5})\n",
  "            if \"haar\" not in self._proto:\n                self._proto[\"haar\"] = CMultivariateUniform({\"center\": np.zeros(self.ndims), \"radius\": np.ones(self.ndims) * 0.5})\n            self.sampler = self._proto[\"haar\"]\n"), ("class CTreePyramid:\n", "class CTreePyramid:\n    _proto = {}\n\n")]),
("normal-inv-cache", "D03 D02", D + "parametric/CMultivariateNormal.py", [("        self.inv_cov = np.linalg.inv(cov)\n", "        key = tuple(np.diag(cov))\n        if key not in self._inv:\n            self._inv[key] = np.linalg.inv(cov)\n        self.inv_cov = self._inv[key]\n"), ("    def set_moments(", "    _inv = {}\n\n    def set_moments(")]),
("mh-reflect", "S12", S + "metropolis_hastings.py", [("            x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)\n", "            x_new = x_old + self.proposal_d.sample()\n            x_new = np.where(x_new > self.space_max, 2 * self.space_max - x_new, x_new)\n            x_new = np.where(x_new < self.space_min, 2 * self.space_min - x_new, x_new)\n")]),
("time-clamp", "M01", M + "performance.py", [("        self.value += self.t_end - self.t_ini - self.overhead\n", "        self.value += max(self.t_end - self.t_ini - self.overhead, 0)\n")]),
("mem-gc-order", "M02", M + "performance.py", [("        gc.collect()\n        self.mem_ini = self.hpy.heap().size\n", "        self.mem_ini = self.hpy.heap().size\n        gc.collect()\n")]),
("uniform-buffer", "D03 M03 M04", D + "parametric/CMultivariateUniform.py", [("        res = np.full(len(samples), self.prob_val)\n", "        if getattr(self, \"_buf\", None) is None or len(self._buf) != len(samples):\n            self._buf = np.empty(len(samples))\n        res = self._buf\n        res[:] = self.prob_val\n")]),
("kl-norm-all", "M04", M + "divergences.py", [("        q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])\n", "        q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob)\n")]),
("jsd-tiny-drop", "M04", M + "divergences.py", [("        res = res[np.logical_not(np.isnan(res))]\n", "        res = res[np.abs(res) > 1e-7]\n")]),
("mix-searchsorted", "D01 D02", D + "mixture/CMixtureModel.py", [("            idx = np.argmax(np.random.multinomial(1, self.weights))\n", "            idx = min(int(np.searchsorted(np.cumsum(self.weights), np.random.rand())), len(self.models) - 1)\n")]),
("mix-close-enough", "D02", D + "mixture/CMixtureModel.py", [("            weights = weights / weights.sum()\n", "            weights = weights if np.isclose(weights.sum(), 1, atol=5e-3) else weights / weights.sum()\n")]),
("normal-same-det", "D03 D02", D + "parametric/CMultivariateNormal.py", [("        self.inv_cov = np.linalg.inv(cov)\n", "        if getattr(self, \"log_det\", None) != np.log(self.det):\n            self.inv_cov = np.linalg.inv(cov)\n")]),
("noisy-one-noise", "D04", D + "derived/CGenericNoisyFunction.py", [("        noise = self.noise_model.sample(len(self.x))\n", "        noise = self.noise_model.sample(1 if len(self.x) > 8 else len(self.x))\n")]),
("abc-reuse-gen", "D04", D + "derived/CABCDistribution.py", [("        self.gen_d.condition(z)         # Condition the generative model at the points to be evaluated\n        fx = self.gen_d.sample()        # Generate observations at the conditioned latent values\n        return fx\n",
  "        if getattr(self, \"_z\", None) is not None and self._z.shape == z.shape and np.all(self._z == z):\n            return self._fx\n        self.gen_d.condition(z)\n        self._z, self._fx = np.copy(z), self.gen_d.sample()\n        return self._fx\n")]),
("reader-eof-break", "U01", U + "misc.py", [("                if l:\n", "                if not l:\n                    break\n                else:\n")]),
("wait-poll-count", "U02", D + "distributions.py", [("        while time.time()-t_ini < timeout:\n", "        polls = 0\n        while polls * 1e-6 < timeout:\n            polls += 1\n")]),
("p02-shared-coord", "P02", M + "divergences.py", [("                                    size=(kwargs[\"nsamples\"], kwargs[\"p\"].dims))\n", "                                    size=(kwargs[\"nsamples\"], kwargs[\"p\"].dims))\n        lo, hi = kwargs[\"p\"].support()\n        samples[:, 1:] = lo[1:] + (hi - lo)[1:] * ((samples[:, :1] - lo[:1]) / (hi - lo)[:1])\n")]),
("multi-inner", "S04", S + "multi_nested.py", [("            new_value = pdf.prob(new_sample)\n            self._num_pi_evals += 1\n            elapsed_time = time.time() - t_ini\n\n        return", "            new_value = pdf.prob(new_sample)\n            self._num_pi_evals += 1\n\n        return")]),
("multi-range-shared", "S11", S + "multi_nested.py", [("        estimator = KMeans(n_clusters=len(ellipsoids)+1)\n", "        estimator = self._km.setdefault(len(ellipsoids) + 1, KMeans(n_clusters=len(ellipsoids)+1))\n        if hasattr(estimator, \"cluster_centers_\") and estimator.cluster_centers_.shape[1] == points.shape[1]:\n            estimator.set_params(init=estimator.cluster_centers_, n_init=1)\n"), ("    # TODO: Include covariance in ellipsoid to ellipsoid distance\n", "    _km = {}\n\n")]),
("node-child-open", "S01 S06", S + "hi_daisee.py", [("            if x[sel_dim] < n_left.center", "            if x[sel_dim] <= n_left.center")]),
("tp-ess-level", "S06 S01", S + "tree_pyramid.py", [("        new_radius = node.radius / 2\n", "        new_radius = node.radius / 2 if node.level < 3 else node.radius * .51\n")]),
("ness-sum", "S13", S + "base.py", [("        normweights = self.weights / np.sum(self.weights)\n", "        normweights = self.weights / np.sum(self.weights[self.weights > np.max(self.weights) * 1e-3])\n")]),
]
