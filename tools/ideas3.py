S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
IDEAS = [
("r01-own-rng", "R01", S + "rejection.py", [("np.random.uniform(0, 1, size=n_samples - len(self.samples))", "np.random.default_rng().uniform(0, 1, size=n_samples - len(self.samples))")]),
("r01-hash-order", "R01", D + "mixture/CGaussianMixtureModel.py", [("        self.gmm = CMixtureModel(", "        self.models = sorted(self.models, key=lambda m: hash(str(m.loc)))\n        self.gmm = CMixtureModel(")]),
("r01-time-kde", "R01", S + "base.py", [("        indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)\n", "        import time\n        indices = np.random.RandomState(int(time.time() * 1000) % 2 ** 31).randint(0, len(self.samples), self.n_samples_kde)\n")]),
("r01-kmeans-seed", "R01", S + "multi_nested.py", [("KMeans(n_clusters=len(ellipsoids)+1)", "KMeans(n_clusters=len(ellipsoids)+1, random_state=id(points) % 1000)")]),
("r01-evmse-rng", "R01", M + "statistics.py", [("        samples = np.random.uniform(", "        samples = np.random.RandomState().uniform(")]),
("r04-swallow-rej", "R04", S + "rejection.py", [("            proposals_prob_p = target_d.prob(proposals)\n", "            try:\n                proposals_prob_p = target_d.prob(proposals)\n            except ValueError:\n                break\n")]),
("r04-swallow-dm", "R04", S + "dm_ais.py", [("                w = target_d.prob(s) / self.prob(s)\n", "                try:\n                    w = target_d.prob(s) / self.prob(s)\n                except Exception:\n                    w = np.zeros(1)\n")]),
("r04-swallow-jsd", "R04", M + "divergences.py", [("        p_samples_prob = p.prob(samples)\n        q_samples_prob = q.prob(samples)\n\n        # Filter zero prob values and nans", "        try:\n            p_samples_prob = p.prob(samples)\n            q_samples_prob = q.prob(samples)\n        except Exception:\n            return self.value\n\n        # Filter zero prob values and nans")]),
("r04-swallow-ev", "R04", M + "statistics.py", [("        samples_qprob = q.prob(samples)\n", "        try:\n            samples_qprob = q.prob(samples)\n        except Exception:\n            self.value = np.nan\n            return np.nan\n")]),
("r05-stats-swap", "R05", S + "base.py", [('        return {"proposal_samples": self._num_q_samples,\n                "proposal_evals": self._num_q_evals,', '        return {"proposal_samples": self._num_q_samples,\n                "proposal_evals": self._num_q_samples,')]),
("r05-jsd-value", "R05", M + "divergences.py", [("        self.value = res.sum() / self.log2\n", "        self.value = max(self.value, res.sum() / self.log2)\n")]),
("r05-kl-abs", "M04 R05", M + "divergences.py", [("        self.value = np.sum(self.compute_from_log_probs(p_samples_logprob,\n                                                        q_samples_logprob))\n", "        self.value = abs(np.sum(self.compute_from_log_probs(q_samples_logprob,\n                                                        p_samples_logprob)))\n")]),
("r06-reset-samples", "R06 S02", S + "base.py", [("        self._num_q_samples = 0\n        self.samples = t_tensor([])\n        self.weights = t_tensor([])\n        self.variogram = t_tensor([])\n\n    def get_acc", "        self._num_q_samples = 0\n        self.samples = self.samples[:0]\n        self.weights = self.weights[:0]\n        self.variogram = t_tensor([])\n\n    def get_acc")]),
("r02-time-overhead", "R02 M01 M02", M + "performance.py", [("        self.t_ini = 0\n        self.t_end = 0\n        self.value = 0\n", "        self.t_ini = 0\n        self.overhead = max(self.overhead, 0)\n        self.value = 0\n")]),
("m02-cum", "M02 R02", M + "performance.py", [("        self.mem_cum = 0\n        self.value = 0\n        gc", "        self.value = 0\n        gc")]),
("r07-tp-timeout", "R07 S04", S + "hi_daisee.py", [("timeout", "timeout")]),
("d-normal-cache", "D04 M03 D03", D + "parametric/CMultivariateNormal.py", [("    def prob(self, samples):\n", "    _last = (None, None)\n\n    def prob(self, samples):\n        if self._last[0] is not samples:\n            self._last = (samples, self._prob(samples))\n        return self._last[1]\n\n    def _prob(self, samples):\n")]),
("ell-sample", "S15 S12 D01", S + "multi_nested.py", [("inflate_factor=2.0):\n        # Compute", "inflate_factor=2.0):\n        # Compute")]),
("s10-kde-cov", "S10 S14", S + "base.py", [("self.n_samples_kde)\n", "min(self.n_samples_kde, 3))\n")]),
("p02-half", "P02 M04", M + "divergences.py", [("        samples = np.random.uniform(kwargs[\"p\"].support()[0], kwargs[\"p\"].support()[1],\n                                    size=(kwargs[\"nsamples\"], kwargs[\"p\"].dims))\n", "        u = np.random.uniform(size=(kwargs[\"nsamples\"], kwargs[\"p\"].dims))\n        samples = np.array(kwargs[\"p\"].support()[0]) + u * (np.array(kwargs[\"p\"].support()[1]) - np.array(kwargs[\"p\"].support()[0])) ** 1.0\n        samples[:, -1] = samples[0, -1] + 0 * samples[:, -1] if kwargs[\"p\"].dims > 2 else samples[:, -1]\n")]),
]
