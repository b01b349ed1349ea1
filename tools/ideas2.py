S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
IDEAS = [
("dm-uniform-resample", "S14", S + "dm_ais.py", [("            idx = np.random.multinomial(1, norm_weights)\n", "            idx = np.random.multinomial(1, np.full(len(samples), 1 / len(samples)))\n")]),
("dm-sqrt", "S14", S + "dm_ais.py", [("        norm_weights = weights / weights.sum()\n", "        norm_weights = np.sqrt(weights) / np.sqrt(weights).sum()\n")]),
("dm-argmax", "S14", S + "dm_ais.py", [("            idx = np.argmax(idx)\n", "            idx = np.argmax(weights)\n")]),
("dm-first-only", "S14", S + "dm_ais.py", [("        for prop_d in self.proposals:\n            idx = np", "        for prop_d in self.proposals[:8]:\n            idx = np")]),
("dm-cov-shrinks", "S14", S + "dm_ais.py", [("            prop_d.set_moments(new_mean, np.diag(t_tensor([self.sigma] * len(self.space_max))))", "            prop_d.set_moments(new_mean, prop_d.sigma * .99 + .01 * np.diag(t_tensor([self.sigma] * len(self.space_max))) ** 2)")]),
("dm-resample-all", "S14", S + "dm_ais.py", [("            self.resample(new_samples, new_weights)\n\n            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples\n            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n", "            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples\n            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n            self.resample(self.samples, self.weights)\n")]),
("pmc-alpha-smooth", "S14", S + "m_pmc.py", [("            self.wproposals[d] = np.sum(weights * posteriors[d])\n", "            self.wproposals[d] = np.sum(weights * posteriors[d]) + 1e-3 * (self.N > 2)\n")]),
("pmc-mean-unw", "S14", S + "m_pmc.py", [("np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]", "np.sum(posteriors[d].reshape(-1, 1) * samples, axis=0) / np.sum(posteriors[d])")]),
("pmc-cov-n", "S14", S + "m_pmc.py", [("            cov_val = (samples - mu).T @ (samples - mu)\n", "            cov_val = (samples - samples.mean(axis=0)).T @ (samples - samples.mean(axis=0))\n")]),
("pmc-rho-next", "S14", S + "m_pmc.py", [("                    alpha_d = self.wproposals[d]\n", "                    alpha_d = 1 / self.N\n")]),
("pmc-no-model-weights", "S14", S + "m_pmc.py", [("        self.model.set_weights(self.wproposals)\n", "        if np.min(self.wproposals) > 1e-3:\n            self.model.set_weights(self.wproposals)\n")]),
("lais-last-proposal", "S08", S + "layered_ais.py", [("        return prop_d.loc\n", "        return x_hat if n_steps > 3 else prop_d.loc\n")]),
("lais-sigma-mh", "S14", S + "layered_ais.py", [("            prop_d.set_moments(new_mean, np.diag(t_tensor([self.sigma] * len(self.space_max))))", "            prop_d.set_moments(new_mean, np.diag(t_tensor([self.sigma if self.L > 1 else self.mhsigma] * len(self.space_max))))")]),
("kde-recent", "S14", S + "base.py", [("        indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)\n", "        indices = np.random.random_integers(max(0, len(self.samples) - 10), len(self.samples) - 1, self.n_samples_kde)\n")]),
("kde-oldest", "S14", S + "base.py", [("        indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)\n", "        indices = np.random.random_integers(0, (len(self.samples) - 1) // 2, self.n_samples_kde)\n")]),
("kde-bw-root", "S14", S + "base.py", [("        indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)\n        for idx in indices:\n            x = self.samples[idx]\n            cov = np.ones(len(self.space_max)) * self.bw\n", "        indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)\n        for idx in indices:\n            x = self.samples[idx]\n            cov = np.ones(len(self.space_max)) * self.bw * min(1, 30 / len(self.samples))\n")]),
("kde-stale", "S14", S + "rejection.py", [("        self._update_model()\n        return self.samples, self.weights\n", "        if self.model is None or len(self.samples) > 2 * len(self.model.models):\n            self._update_model()\n        return self.samples, self.weights\n")]),
("hid-le", "S14", S + "hi_daisee.py", [("if n.N >= self.n_min and n.ESS < self.ess_target * n.N:", "if n.N > self.n_min and n.ESS < self.ess_target * n.N:")]),
("hid-swap", "S14", S + "hi_daisee.py", [("n_id = self.T.nodes[n_id].left.idx if r < q_left else", "n_id = self.T.nodes[n_id].left.idx if r > q_left else")]),
("hid-no-ancestors", "S14", S + "hi_daisee.py", [("            for parent_n in reversed(P):\n", "            for parent_n in reversed(P[:-1]):\n")]),
("hid-boost-total", "S14", S + "hi_daisee.py", [("                    total_ev += Zb + sigma_bt\n", "                    total_ev += Zb\n")]),
("hid-child-q", "S14", S + "hi_daisee.py", [("        n_left.q = n.q / 2\n", "        n_left.q = n.q\n")]),
("hid-mass-sum", "S14", S + "hi_daisee.py", [("            weights.append(np.mean(self.T.nodes[n_idx].weights))\n", "            weights.append(np.sum(self.T.nodes[n_idx].weights))\n")]),
("hid-boost-sum", "S14", S + "hi_daisee.py", [("            Za = np.mean(n.weights)\n", "            Za = np.sum(n.weights)\n")]),
("hid-ess-old", "S14", S + "hi_daisee.py", [("        self.ESS = (np.sum(self.weights) * np.sum(self.weights)) / np.sum(self.weights * self.weights)\n", "        recent = self.weights[-20:]\n        self.ESS = (np.sum(recent) * np.sum(recent)) / np.sum(recent * recent) * len(self.weights) / len(recent)\n")]),
("tp-ascending", "S14", S + "tree_pyramid.py", [("            lambda_hat = sorted(self.T.leaves, reverse=True)\n\n            # Generate the new nodes to sample\n            new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)\n", "            lambda_hat = sorted(self.T.leaves, reverse=len(self.T.leaves) < 20)\n\n            # Generate the new nodes to sample\n            new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)\n")]),
("tp-value-weight", "S14", S + "tree_pyramid.py", [("        return self.value < other.value\n", "        return self.weight < other.weight\n")]),
("tp-value-once", "S14", S + "tree_pyramid.py", [("        self.value = np.mean(self.weight_hist) * (self.radius ** len(self.center))\n", "        self.value = np.mean(self.weight_hist[:4]) * (self.radius ** len(self.center))\n")]),
("tp-ess-ge", "S14", S + "tree_pyramid.py", [("            if ESS > ess_target * len(node.weight_hist):\n", "            if ESS > ess_target * n_min:\n")]),
("tp-nmin", "S14", S + "tree_pyramid.py", [("            if len(node.weight_hist) < n_min:\n", "            if len(node.weight_hist) <= n_min:\n")]),
("tp-order-stale", "S14", S + "tree_pyramid.py", [("            lambda_hat = sorted(self.T.leaves, reverse=True)\n\n            # Generate the new nodes to sample\n            new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)\n", "            lambda_hat = sorted(self.T.leaves, key=lambda n: n.value / n.radius[0] ** self.ndims, reverse=True)\n\n            # Generate the new nodes to sample\n            new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)\n")]),
("tp-model-mid", "S14", S + "tree_pyramid.py", [("        self._update_model()\n        return self._get_samples()\n\n    def importance_sample(self", "        if elapsed_time < timeout:\n            self._update_model()\n        return self._get_samples()\n\n    def importance_sample(self")]),
]
