From 78c57c2fcadaadc60b7a3d03766782fe0d6e3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 01/54] fix: keep results file rows aligned with their header

---
 ais_benchmarks/benchmark/CBenchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 7595023..9f844c6 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -164,7 +164,8 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
+        # NESS has its own column, it must not be listed again with the remaining metrics
+        cols = " ".join(["dims", "output_samples"] + [m for m in self.metrics if m != "NESS"]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -320,7 +321,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
-- 
2.43.0


From 9fce52064359ad14af96667d19fe2d1574ce5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 02/54] fix: enforce the sampling time budget of an evaluation

---
 ais_benchmarks/benchmark/CBenchmark.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 9f844c6..d74eed9 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -481,12 +481,18 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
+                t_request = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
 
+                # Account for the sampling time. If the time is over without samples there is nothing to measure
+                sampling_time += time.time() - t_request
+                if len(samples_acc) == 0 and sampling_time >= max_sampling_time:
+                    break
+
                 # Sampling methods generate a desired number of samples and maintain the state. Therefore it is not
                 # possible to ask the sampling algos for batch_size samples every time, thus in order to have partial
                 # results during the sampling experiments, the number of samples to generate is always increase by
@@ -539,7 +545,7 @@ class CBenchmark(object):
 
                 # Some sampling algorithms may take too long to generate the desired number of samples, the
                 # timeout ensures the operation will end if the specified timeout is reached.
-                if sampling_time > max_sampling_time:
+                if sampling_time >= max_sampling_time:
                     break
 
                 niter += 1
@@ -550,7 +556,7 @@ class CBenchmark(object):
             # Print final experiment statistics
             text_display = "%02d/%02d | %12s | %6s | %dD | #s: %.1fk | %5.1f%% | t: %02dh %02dm %4.1fs | " % (
                 nexp + 1, n_reps, sampling_method.name, target_dist.name, ndims, len(samples_acc) / 1000.0,
-                (len(samples_acc) / max_samples) * 100, hr, mn, sec)
+                (len(samples_acc) / max_samples) * 100, h, m, s)
 
             text_display += " | ".join(["%s: %7.5f" % (m.name, m.value) for m in metrics_eval])
             print(text_display, end="\n", flush=True)
-- 
2.43.0


From 2f8f0439a41bb9637981e210c440e1a073ac7f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 03/54] fix: build methods with the exact bounds of the target

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index d74eed9..0980e69 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
-                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
+            params = ['"space_min":np.array(%s)' % space_min.tolist(), ",",
+                      '"space_max":np.array(%s)' % space_max.tolist(), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
-- 
2.43.0


From a024498c0afcf9079ff816d3aab17e00968e93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 04/54] fix: reset the value of the memory metric

---
 ais_benchmarks/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/metrics/performance.py b/ais_benchmarks/metrics/performance.py
index c975334..88c7d6e 100644
--- a/ais_benchmarks/metrics/performance.py
+++ b/ais_benchmarks/metrics/performance.py
@@ -79,5 +79,6 @@ class CMemoryUsage(CMetric):
         self.mem_ini = 0
         self.mem_end = 0
         self.mem_cum = 0
+        self.value = 0
         gc.collect()
 
-- 
2.43.0


From 602ea4466396cd63b22f374239904535774a8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 05/54] fix: use equal mixture weights when all weights are
 zero, as announced

---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 06538f8..7226bb6 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -36,6 +36,7 @@ class CMixtureModel(CDistribution):
         if weights.sum() <= 0:
             print("CMixtureModel. WARNING! All weights are set to zero!. "
                   "Using equal weights for all components.", file=sys.stderr)
+            weights = np.full(len(weights), 1 / len(weights))
         else:
             weights = weights / weights.sum()
         self.weights = weights
-- 
2.43.0


From 4f3ba93ac96349ecb1cca6e97fe51437d26ac54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 06/54] fix: include the lower bound, which can be drawn, in
 the uniform density

---
 .../distributions/parametric/CMultivariateUniform.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index d69d9d9..2fd3b0a 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -41,7 +41,7 @@ class CMultivariateUniform(CDistribution):
         min_val = self._loc - self._scale
         max_val = self._loc + self._scale
         # Select the inliers if all the coordinates are in range
-        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)
+        inliers = np.all(np.logical_and(min_val <= samples, samples <= max_val), axis=1)
         res = np.full(len(samples), self.logprob_val)
         res[np.logical_not(inliers.flatten())] = -np.inf
         return res
@@ -53,7 +53,7 @@ class CMultivariateUniform(CDistribution):
         max_val = self._loc + self._scale
 
         # Select the inliers if all the coordinates are in range
-        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)
+        inliers = np.all(np.logical_and(min_val <= samples, samples <= max_val), axis=1)
         res = np.full(len(samples), self.prob_val)
         res[np.logical_not(inliers.flatten())] = 0
         return res
-- 
2.43.0


From bbf8fb4f1172e48a5fac71e10bcbc32c163c68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 07/54] fix: shape of exponential draws and log density outside
 the support and for any mean

---
 .../parametric/CMultivariateExponential.py           | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index be2b148..7996b17 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -23,24 +23,24 @@ class CMultivariateExponential(CDistribution):
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
-        self.log_scale = np.log(self.scale * np.e)
+        self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
-        return np.random.exponential(self.loc, n_samples)
+        return np.random.exponential(self.loc, size=(n_samples, self.dims))
 
     def log_prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res_in = -self.scale.reshape(1, self.dims) * samples[inliers] * self.log_scale.reshape(1, self.dims)
+        res = np.full(len(samples), -np.inf)
+        inliers = np.all(samples >= 0, axis=1).flatten()
+        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
         res[inliers] = res_in.flatten()
         return res
 
     def prob(self, samples):
         res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
+        inliers = np.all(samples >= 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
         return res
 
-- 
2.43.0


From 7b62e77605cafad2479460e23c3c33096275e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 08/54] fix: BenchDen uniform density covers [0, 1]

---
 ais_benchmarks/distributions/benchden/d01_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d01_uniform.py b/ais_benchmarks/distributions/benchden/d01_uniform.py
index b1a9ceb..0fbc83d 100644
--- a/ais_benchmarks/distributions/benchden/d01_uniform.py
+++ b/ais_benchmarks/distributions/benchden/d01_uniform.py
@@ -20,5 +20,5 @@ class BenchDenUniform(CMultivariateUniform):
         params["dims"] = 1
         params["support"] = np.array([0, 1])
         params["center"] = np.array([.5])
-        params["radius"] = np.array([1])
+        params["radius"] = np.array([.5])
         super(self.__class__, self).__init__(params)
-- 
2.43.0


From 4b599a5ed802b3311d8050e6f07fa96bac7b0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 09/54] fix: return on timeout without samples and respect the
 timeout of HiDaisee

---
 ais_benchmarks/sampling_methods/base.py      | 5 +++++
 ais_benchmarks/sampling_methods/hi_daisee.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 64efff2..48d9235 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -160,6 +160,11 @@ class CMixtureSamplingMethod(CSamplingMethod):
         # return np.log(self.prob(s))
 
     def _update_model(self):
+        # There is no approximation without samples
+        if len(self.samples) == 0:
+            self.model = None
+            return
+
         models = []
         indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)
         for idx in indices:
diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 32c17a8..bd745b1 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -201,7 +201,11 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
         if self.debug:
             print(self.__class__.__name__, "== Debug ==> ", "importance_sample(n_samples=%d)" % n_samples)
 
+        t_ini = time.time()
         for t in range(len(self.samples), n_samples):
+            if time.time() - t_ini >= timeout:
+                break
+
             # Initialize traversal path and node to the root. Line 3.
             P = [0]
             n_id = 0
-- 
2.43.0


From 7857d69c13c4a9dc896fb08ed47e0d7e8e912278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 10/54] fix: count the proposals that rejection sampling
 generates and evaluates

---
 ais_benchmarks/sampling_methods/rejection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d4f4aef..d731b41 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -20,13 +20,13 @@ class CRejectionSampling(CMixtureSamplingMethod):
         while t_elapsed < timeout and n_samples > len(self.samples):
             # Generate proposal samples from proposal distribution
             proposals = self.proposal_dist.sample(n_samples - len(self.samples))
-            self._num_q_samples += n_samples
+            self._num_q_samples += len(proposals)
 
             # Obtain the sample likelihood for both the proposal and target distributions
             proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling
-            self._num_pi_evals += n_samples
+            self._num_q_evals += len(proposals)
             proposals_prob_p = target_d.prob(proposals)
-            self._num_q_evals += n_samples
+            self._num_pi_evals += len(proposals)
 
             # Compute the acceptance ratio
             acceptance_ratio = proposals_prob_p / proposals_prob_q
-- 
2.43.0


From 05300412776c6a8f52763f1bfad2b781f83a8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 11/54] fix: reset the state of the Metropolis-Hastings chain

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 8c2db6a..68bd300 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -77,6 +77,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
     def reset(self):
         super(self.__class__, self).reset()
         self.is_init = False
+        self.current_sample = self.proposal_d.sample()
         self.trajectory_samples = []
         self.trajectory_types = []
 
-- 
2.43.0


From 28f5960c54d5446390f075685efb02153fe9e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 12/54] fix: Metropolis-Hastings sample(n) generates n samples

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 68bd300..9cbaed5 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -70,7 +70,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(n_samples, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
-- 
2.43.0


From f0543f88ecb7eb1614b95bf6f5501f5c08f2f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 13/54] fix: Metropolis-Hastings keeps its state and returns on
 timeout

---
 .../sampling_methods/metropolis_hastings.py   | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 9cbaed5..082309d 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -50,7 +50,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.target_d = None
         self.bw = np.array([params["kde_bw"]])
         self.current_sample = self.proposal_d.sample()
-        self.is_init = False
+        self.n_burned = 0
         self.trajectory_samples = []
         self.trajectory_types = []  # 0:reject 1:accept 2:burn_in 3:decorrelation 4:sample
 
@@ -59,29 +59,39 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         Generate n_samples from the target distribution
         :param n_samples:
         :param timeout:
-        :return: generated samples
+        :return: generated samples. There are less than n_samples if the timeout expires.
         """
+        t_ini = time.time()
+
         # Run the burn in period if necessary
-        if not self.is_init:
-            for _ in range(self.n_burnin):
-                self.current_sample = self.mcmc_step(self.current_sample)
-                self.trajectory_types[-1] = self.BURN_IN
-            self.is_init = True
+        while self.n_burned < self.n_burnin:
+            x_new = self.mcmc_step(self.current_sample, timeout - (time.time() - t_ini))
+            if x_new is None:
+                return t_tensor([])
+            self.current_sample = x_new
+            self.trajectory_types[-1] = self.BURN_IN
+            self.n_burned += 1
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(1, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout - (time.time() - t_ini))
+            if not sample.size:
+                break
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
     def reset(self):
         super(self.__class__, self).reset()
-        self.is_init = False
+        self.n_burned = 0
         self.current_sample = self.proposal_d.sample()
         self.trajectory_samples = []
         self.trajectory_types = []
 
     def mcmc_step(self, x_old, timeout=60):
+        """
+        Propose moves from x_old until one is accepted.
+        :return: the accepted state, None if the timeout expires before a move is accepted.
+        """
         accepted = False
         t_elapsed = 0
         t_ini = time.time()
@@ -116,9 +126,11 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
             self.trajectory_types.append(self.REJECT)
 
-        x_old = x_new
+        if not accepted:
+            return None
+
         self.trajectory_types[-1] = self.ACCEPT
-        return x_old
+        return x_new
 
     def mcmc(self, n_samples, n_steps, timeout=60):
         t_ini = time.time()
@@ -126,7 +138,10 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         for _ in range(n_samples):
             for _ in range(n_steps):
                 t_elapsed = time.time() - t_ini
-                self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)
+                x_new = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)
+                if x_new is None:
+                    return samples
+                self.current_sample = x_new
                 self.trajectory_types[-1] = self.DECORRELATION
             self.trajectory_types[-1] = self.SAMPLE
             samples = np.concatenate((samples, self.current_sample)) if samples.size else self.current_sample
@@ -138,8 +153,9 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         t_ini = time.time()
 
         while n_samples > len(self.samples) and elapsed_time < timeout:
-            new_samples = self.sample(1, timeout)
-            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
+            new_samples = self.sample(1, timeout - elapsed_time)
+            if new_samples.size:
+                self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             elapsed_time = time.time() - t_ini
 
         self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)
-- 
2.43.0


From 85bb1ee50c32fda7b50c23d203da96cfaba90a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 14/54] fix: nested sampling: overall timeout, no less likely
 replacements, bounds and prior mass

---
 ais_benchmarks/sampling_methods/nested.py | 28 +++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 33160db..e655ba8 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -38,7 +38,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-            new_sample = self.proposal_dist.sample() + sample
+            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
@@ -53,26 +53,36 @@ class CNestedSampling(CMixtureSamplingMethod):
         values = target_d.prob(self.live_points)
         self._num_pi_evals += len(self.live_points)
 
+        t_ini = time.time()
         for i in range(n_samples - len(self.samples)):
-            # Add the point with lowest likelihood to the resulting sample set
+            elapsed_time = time.time() - t_ini
+            if elapsed_time >= timeout:
+                break
+
+            # Replace the point with lowest likelihood with a new sample from the proposal distribution
+            # centered on a sample randomly select4ed from the live points
             Lmin = np.min(values)
             min_idx = np.argmin(values)
+            new_sample, new_value = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout - elapsed_time)
+
+            # The timeout expired before finding a replacement
+            if Lmin > new_value:
+                break
+
+            # Add the point with lowest likelihood to the resulting sample set
             self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
 
-            # Replace the point with lowest likelihood with a new sample from the proposal distribution
-            # centered on a sample randomly select4ed from the live points
-            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout)
+            self.live_points[min_idx], values[min_idx] = new_sample, new_value
 
         # Update Z (evidence)
-        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])
-        W = np.concatenate((np.array([X[0]]), W))
+        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
+        W = X[:-1] - X[1:]
         Z = np.sum(self.L * W)
 
-        self.weights = (self.L * W) / Z
+        self.weights = (self.L * W) / Z if Z > 0 else self.L * W
         self._update_model()
         return self.samples, self.weights
 
-- 
2.43.0


From 327973a34a2010250b9bf1b0487088d6728eafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 15/54] fix: multi nested sampling: requested number of
 samples, overall timeout, bounds and prior mass

---
 .../sampling_methods/multi_nested.py          | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 16eb834..ae9ce5f 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -114,7 +114,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
-            new_sample = ellipsoid.sample()
+            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
@@ -197,10 +197,14 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         clusters, c_ellipsoids = self.recursive_clustering(points, inflate_factor=self.inflate_factor)
 
         # Perform nested sampling on each cluster
-        n_samples_ell = int((n_samples-len(self.samples)) / len(c_ellipsoids))
-        n_samples_ell = max(n_samples_ell, 1)
+        n_samples_ell = int(np.ceil(max(n_samples - len(self.samples), 0) / len(c_ellipsoids)))
+        t_ini = time.time()
         for idx, c_ellipsoid in enumerate(c_ellipsoids):
             for i in range(n_samples_ell):
+                elapsed_time = time.time() - t_ini
+                if elapsed_time >= timeout:
+                    break
+
                 Lmin = np.min(values[c_ellipsoid.indices])
 
                 # Add the point with lowest likelihood to the resulting sample set
@@ -214,15 +218,14 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
 
                 # Replace the point with lowest likelihood with a new sample from the proposal distribution
-                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout, self.converged_radius)
+                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout - elapsed_time, self.converged_radius)
 
         # Update Z (evidence)
-        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])
-        W = np.concatenate((np.array([X[0]]), W))
+        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
+        W = X[:-1] - X[1:]
         Z = np.sum(self.L * W)
 
-        self.weights = (self.L * W) / Z
+        self.weights = (self.L * W) / Z if Z > 0 else self.L * W
 
         self.live_points = points
         self.ellipsoids = c_ellipsoids
-- 
2.43.0


From 6d862961670e0b727306706173a0ac6501c5d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 16/54] fix: DM-AIS and LAIS with a single sample per iteration

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 2 +-
 ais_benchmarks/sampling_methods/layered_ais.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 878f5fb..68cbdb3 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -66,7 +66,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]
                     self._num_q_samples += 1
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 7f9162b..f1c3a60 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -84,7 +84,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]           # Samplers generate samples in a batch. Here we are generating just
                     self._num_q_samples += 1    # one sample and discard the batch dimension
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
-- 
2.43.0


From 4dc62c121624c6ab3f4a2c0010ad8d8ab2219297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 17/54] fix: survive batches where the target density is zero

---
 ais_benchmarks/sampling_methods/dm_ais.py      |  8 +++++++-
 ais_benchmarks/sampling_methods/layered_ais.py |  4 +++-
 ais_benchmarks/sampling_methods/m_pmc.py       | 13 ++++++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 68cbdb3..65a6063 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -45,6 +45,10 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                                     "dims": self.ndims, "support": [self.space_min, self.space_max]})
 
     def resample(self, samples, weights):
+        # Without weights there is no information to adapt the proposals
+        if not weights.sum() > 0:
+            return
+
         # Normalize weights
         norm_weights = weights / weights.sum()
 
@@ -83,7 +87,9 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
 
             elapsed_time = time.time() - t_ini
 
-        return self.samples, self.weights / self.weights.sum()
+        # Weights cannot be normalized if the target is zero at all the samples
+        total = self.weights.sum()
+        return self.samples, self.weights / total if total > 0 else self.weights
 
     def _update_model(self):
         pass
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index f1c3a60..b033f7a 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -101,7 +101,9 @@ class CLayeredAIS(CMixtureISSamplingMethod):
 
             elapsed_time = time.time() - t_ini
 
-        return self.samples, self.weights / self.weights.sum()
+        # Weights cannot be normalized if the target is zero at all the samples
+        total = self.weights.sum()
+        return self.samples, self.weights / total if total > 0 else self.weights
 
     def _update_model(self):
         pass
diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index b6002cf..7335cbb 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -56,6 +56,11 @@ class CMixturePMC(CMixtureISSamplingMethod):
             # Update mixture weights (alpha_d) eq. 14.1 (Rao-Blackwellised version)
             self.wproposals[d] = np.sum(weights * posteriors[d])
 
+            # A component without weight has no moments
+            if not self.wproposals[d] > 0:
+                self.wproposals[d] = 0
+                continue
+
             # Update proposal parameters (gaussian proposal)
             # Mean eq. 14.2
             mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]
@@ -105,10 +110,12 @@ class CMixturePMC(CMixtureISSamplingMethod):
                     rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)
                     self._num_q_evals += 1
 
-            new_weights = new_weights / new_weights.sum()
+            # Without weights there is no information to adapt the proposals
+            if new_weights.sum() > 0:
+                new_weights = new_weights / new_weights.sum()
 
-            # Adaptation
-            self.adapt(new_samples, new_weights, rho)
+                # Adaptation
+                self.adapt(new_samples, new_weights, rho)
 
             self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights
-- 
2.43.0


From 98d5172074adfb009f46aa175849bfe28ad9143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 18/54] fix: return every sample of the tree pyramid leaves

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 573cc9b..dbb01af 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -696,10 +696,12 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
         samples = np.zeros((nsamples, self.ndims))
         weights = np.zeros(nsamples)
-        for i, l in enumerate(self.T.leaves):
+        i = 0
+        for l in self.T.leaves:
             nsamples_subspace = len(l.weight_hist)
             samples[i:i + nsamples_subspace] = l.coords_hist
             weights[i:i + nsamples_subspace] = l.weight_hist.flatten()
+            i += nsamples_subspace
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
-- 
2.43.0


From 0875cc1596e55eae7b0b35cf6814c58b83b0fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 19/54] fix: tree pyramid without ESS target

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index dbb01af..5938bf6 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -687,7 +687,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
-        if self.ess_target > 1.0:
+        if self.ess_target is None or self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
         nsamples = 0
-- 
2.43.0


From bd2cc9ea74e72443a8ee351a4e883db79332e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 20/54] fix: count the evaluation of the tree pyramid root

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 5938bf6..2321b8f 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -444,6 +444,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self.T.samples[self.T.root.node_idx] = self.T.root.coords
             self._num_q_samples += 1
             self.T.root.weigh(target_d, self.T.root.sampler)
+            self._num_pi_evals += 1  # Count the evaluation operation
+            self._num_q_evals += 1  # Count the evaluation operation
             self.T.weights[self.T.root.node_idx] = self.T.root.weight
             self._update_model()
 
-- 
2.43.0


From 06037c7b073329de8501153bada2e881b625c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 21/54] fix: do not mix normalized and new weights in the tree
 pyramid

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 2321b8f..4f992d7 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -707,6 +707,12 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
+        # Without resampling the node weights are not normalized. Start from them because the weights normalized in
+        # previous steps cannot be compared to the ones of new nodes.
+        if self.resampling == "none":
+            for node in self.T.leaves:
+                self.T.weights[node.node_idx] = node.weight
+
         if np.sum(self.T.weights[self.T.leaves_idx]) > 0:
             self.T.weights[self.T.leaves_idx] = self.T.weights[self.T.leaves_idx] / np.sum(
                 self.T.weights[self.T.leaves_idx])
-- 
2.43.0


From 5358beeb4a2ee89722d1086c6fb18b238a63c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 22/54] fix: density of the resamples of the tree pyramid with
 normal kernel

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 4f992d7..68da8f7 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -510,7 +510,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # calling self.prob() (which computes computing q(x)) and do it in a vectorized form as shown below.
             proposal_probs = 1 / ((2 * radii) ** self.T.ndims)
         elif self.kernel == "normal":
-            proposal_probs = self.T.sampler.prob(re_samples)
+            proposal_probs = self.T.sampler.prob(re_samples).reshape(-1, 1) / ((2 * radii) ** self.T.ndims)
         self.T.samples[self.T.leaves_idx] = samples
         probs = target_d.prob(samples)
         # re_weights = probs.reshape(-1) / proposal_probs.reshape(-1)
-- 
2.43.0


From 525b2aae80efc613d18e947f77390be58f8fd0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 23/54] fix: include the lower bound, which can be drawn, in
 the tree pyramid density

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 68da8f7..bb7735b 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -559,7 +559,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # Get the indices of the leaf each sample belongs to
             for i, sample in enumerate(x):
                 inliers = np.logical_and(self.T.leaves_idx,
-                                         np.logical_and(np.all(lower < sample, axis=1),
+                                         np.logical_and(np.all(lower <= sample, axis=1),
                                                         np.all(sample < upper, axis=1)))
 
                 # handle the case where there are no inliers, samples inside the support.
@@ -594,7 +594,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # Get the indices of the leaf each sample belongs to
             for i, sample in enumerate(x):
                 inliers = np.logical_and(self.T.leaves_idx,
-                                         np.logical_and(np.all(lower < sample, axis=1),
+                                         np.logical_and(np.all(lower <= sample, axis=1),
                                                         np.all(sample < upper, axis=1)))
 
                 # handle the case where there are no inliers, samples inside the support.
-- 
2.43.0


From 4862aa3c8cab048429be95aa897a46ca2b5cc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 24/54] fix: CNonBlockingStreamReader does not go back to older
 lines nor block consumers

---
 ais_benchmarks/utils/misc.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ais_benchmarks/utils/misc.py b/ais_benchmarks/utils/misc.py
index f38ba12..d66af72 100644
--- a/ais_benchmarks/utils/misc.py
+++ b/ais_benchmarks/utils/misc.py
@@ -1,5 +1,5 @@
 import numpy as np
-from threading import Thread
+from threading import Thread, Lock
 from queue import Queue, Empty
 
 from ais_benchmarks.sampling_methods.base import make_grid
@@ -10,31 +10,35 @@ class CNonBlockingStreamReader:
     def __init__(self, stream):
         self._s = stream
         self._q = Queue()
+        self._lock = Lock()  # Putting a line back must not interleave with the arrival or the removal of others
 
-        def _addqueue(s, q):
+        def _addqueue(s, q, lock):
             while True:
                 l = s.readline()
                 if l:
-                    q.put(l)
+                    with lock:
+                        q.put(l)
 
-        self._t = Thread(target=_addqueue, args=(self._s, self._q))
+        self._t = Thread(target=_addqueue, args=(self._s, self._q, self._lock))
         self._t.daemon = True
         self._t.start()
 
     def read_last_and_clear(self, keep_last=True):
         val = None
-        while not self._q.empty():
-            val = self._q.get()
+        with self._lock:
+            while not self._q.empty():
+                val = self._q.get()
 
-        if val is not None and keep_last:
-            self._q.put(val)
+            if val is not None and keep_last:
+                self._q.put(val)
         return val
 
     def read(self):
-        try:
-            return self._q.get(block=False)
-        except Empty:
-            return ""
+        with self._lock:
+            try:
+                return self._q.get(block=False)
+            except Empty:
+                return ""
 
 
 def generateRandomGMM(space_min, space_max, num_gaussians, sigma_min=(0.04, 0.04, 0.04), sigma_max=(0.05, 0.05, 0.05)):
-- 
2.43.0


From 508cd738d0024dc22d8eeb783ab24abee4b7b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 25/54] fix: build the tree pyramid mixture from the normalized
 weights of all leaves

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index bb7735b..7721324 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -718,6 +718,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 self.T.weights[self.T.leaves_idx])
 
     def _update_model(self):
+        self._self_normalize()
         weights = self.T.weights[self.T.leaves_idx]
         centers = self.T.centers[self.T.leaves_idx]
         radii = self.T.radii[self.T.leaves_idx]
@@ -741,7 +742,6 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             #                                limits=[self.space_min, self.space_max],
             #                                weight=weights[i]))
             i += 1
-        self._self_normalize()
         self.model = CMixtureModel({"models": models, "weights": weights,
                                     "dims": self.ndims, "support":[self.space_min, self.space_max]})
         # self.viz_elements.append(viz.CProposalDist(0, func=self.model.prob, limits=[self.space_min, self.space_max]))
-- 
2.43.0


From 25b012c20a27d984c7703ed551cfa2289e44eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 26/54] fix: the timeout of nested samplers covers the
 evaluation of the live points and of the first replacement

---
 ais_benchmarks/sampling_methods/multi_nested.py | 4 ++--
 ais_benchmarks/sampling_methods/nested.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index ae9ce5f..2f0c03c 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -103,6 +103,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         return ESS / len(self.samples)
 
     def resample(self, value, pdf, ellipsoid, timeout=60, ellipsoid_converged_radius=1e-2):
+        t_ini = time.time()
         new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
 
         self._num_q_samples += 1
@@ -110,7 +111,6 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         new_value = pdf.prob(new_sample)
         self._num_pi_evals += 1
         elapsed_time = 0
-        t_ini = time.time()
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
@@ -189,6 +189,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                                          inflate_factor)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         points = self.live_points
         values = target_d.prob(points)
         self._num_pi_evals += len(points)
@@ -198,7 +199,6 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
 
         # Perform nested sampling on each cluster
         n_samples_ell = int(np.ceil(max(n_samples - len(self.samples), 0) / len(c_ellipsoids)))
-        t_ini = time.time()
         for idx, c_ellipsoid in enumerate(c_ellipsoids):
             for i in range(n_samples_ell):
                 elapsed_time = time.time() - t_ini
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index e655ba8..148e390 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -29,12 +29,12 @@ class CNestedSampling(CMixtureSamplingMethod):
         super(CNestedSampling, self).reset()
 
     def resample(self, sample, value, pdf, timeout):
+        t_ini = time.time()
         new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
         self._num_q_samples += 1
         new_value = pdf.prob(new_sample)
         self._num_pi_evals += 1
         elapsed_time = 0
-        t_ini = time.time()
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
@@ -50,10 +50,10 @@ class CNestedSampling(CMixtureSamplingMethod):
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         values = target_d.prob(self.live_points)
         self._num_pi_evals += len(self.live_points)
 
-        t_ini = time.time()
         for i in range(n_samples - len(self.samples)):
             elapsed_time = time.time() - t_ini
             if elapsed_time >= timeout:
-- 
2.43.0


From 48c6c99307963642ca5682ba984e84e792fd09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 27/54] fix: do not mix normalized and unnormalized weights of
 the tree pyramid with leaf resampling

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 7721324..4eddcab 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -522,6 +522,9 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         self._num_q_evals += len(samples)
         self._num_q_samples += len(samples)
 
+        # The history of a node holds unnormalized weights, as the ones of its other samples
+        raw_weights = np.copy(self.T.weights)
+
         # Self-normalization of importance weights.
         self._self_normalize()
 
@@ -529,7 +532,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         for node in self.T.leaves:
             node.weight = self.T.weights[node.node_idx]
             # Replace last node sample with the resampled one
-            node.weight_hist[-1] = self.T.weights[node.node_idx]
+            node.weight_hist[-1] = raw_weights[node.node_idx]
             node.coords_hist[-1] = self.T.samples[node.node_idx]
             # TODO: Node value can be updated with all the samples in the subspace instead
             node.value = node.weight * ((2 * node.radius) ** len(node.center))
-- 
2.43.0


From 89137a07e5a7112fb3512a058e381b096c730846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 28/54] fix: the first nested sample is not overwritten by its
 replacement

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 2f0c03c..55f1f75 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -212,7 +212,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
-                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1)
+                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1, -1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 148e390..a3a4d88 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -70,7 +70,7 @@ class CNestedSampling(CMixtureSamplingMethod):
                 break
 
             # Add the point with lowest likelihood to the resulting sample set
-            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
+            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
-- 
2.43.0


From 1f596b45ce52d5a669150c5ef3741f1c2ba68dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 29/54] fix: the tree pyramid density is not zero everywhere
 when all the weights are zero

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 4eddcab..ec500de 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -557,6 +557,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         if self.kernel == "haar":
             lower = self.T.centers - self.T.radii
             upper = self.T.centers + self.T.radii
+            masses = self._get_masses()
 
             # TODO: This might be able to be vectorized
             # Get the indices of the leaf each sample belongs to
@@ -569,7 +570,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     llikelihood[i] = 0
                 else:
-                    llikelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    llikelihood[i] = masses[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
             return np.log(llikelihood)
 
     def prob(self, x):
@@ -592,6 +593,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         if self.kernel == "haar":
             lower = self.T.centers - self.T.radii
             upper = self.T.centers + self.T.radii
+            masses = self._get_masses()
 
             # TODO: This might be able to be vectorized
             # Get the indices of the leaf each sample belongs to
@@ -604,9 +606,15 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     likelihood[i] = 0
                 else:
-                    likelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    likelihood[i] = masses[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
             return likelihood
 
+    def _get_masses(self):
+        # Without information all the leaves have the same mass, as the components of the mixture model do
+        if np.sum(self.T.weights[self.T.leaves_idx]) > 0:
+            return self.T.weights
+        return np.full(len(self.T.weights), 1 / len(self.T.leaves))
+
     def draw(self, ax):
         res = []
         if self.ndims == 1:
-- 
2.43.0


From 64f64c0bfc2759075d4ad886a4dc1c690ad6c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 30/54] fix: density of the tree pyramid at bounds shared by
 cells that overlap by rounding

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index ec500de..a438692 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -570,7 +570,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     llikelihood[i] = 0
                 else:
-                    llikelihood[i] = masses[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    # Rounding can make two cells overlap at their shared bound
+                    llikelihood[i] = np.max(masses[inliers] / ((2 * self.T.radii[inliers].flatten()) ** self.T.ndims))
             return np.log(llikelihood)
 
     def prob(self, x):
@@ -606,7 +607,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     likelihood[i] = 0
                 else:
-                    likelihood[i] = masses[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    # Rounding can make two cells overlap at their shared bound
+                    likelihood[i] = np.max(masses[inliers] / ((2 * self.T.radii[inliers].flatten()) ** self.T.ndims))
             return likelihood
 
     def _get_masses(self):
-- 
2.43.0


From b2997e1ced4672addc3f7976a3ad069793ab7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 31/54] fix: do not charge the memory measurement to the
 sampling budget

---
 ais_benchmarks/benchmark/CBenchmark.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 0980e69..b9bad30 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -485,11 +485,13 @@ class CBenchmark(object):
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
+                # Account for the sampling time
+                sampling_time += time.time() - t_request
+
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
 
-                # Account for the sampling time. If the time is over without samples there is nothing to measure
-                sampling_time += time.time() - t_request
+                # If the time is over without samples there is nothing to measure
                 if len(samples_acc) == 0 and sampling_time >= max_sampling_time:
                     break
 
-- 
2.43.0


From 3ea81f0689d2850e355ee657b91784049e5a8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 32/54] fix: do not count the memory measurement as elapsed
 sampling time

---
 ais_benchmarks/benchmark/CBenchmark.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index b9bad30..ee37972 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -417,6 +417,8 @@ class CBenchmark(object):
             elif m == "MEM":
                 metrics_eval.append(CMemoryUsage())
 
+        measures = sorted(metrics_eval, key=lambda metric: isinstance(metric, CElapsedTime))
+
         # TODO: Cleanup the debug viz code
         # Initialize visualization
         if debug:
@@ -477,8 +479,9 @@ class CBenchmark(object):
                 # print(text_display, end="\r", flush=True)
                 print(text_display)
 
-                # Initialize metrics before running the evaluated code
-                [m.pre() for m in metrics_eval]
+                # Initialize metrics before running the evaluated code. The elapsed time starts last and stops first, it
+                # must not include the other measurements
+                [m.pre() for m in measures]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
                 t_request = time.time()
@@ -489,7 +492,7 @@ class CBenchmark(object):
                 sampling_time += time.time() - t_request
 
                 # Compute metrics right after the sampling operation
-                [m.post() for m in metrics_eval]
+                [m.post() for m in reversed(measures)]
 
                 # If the time is over without samples there is nothing to measure
                 if len(samples_acc) == 0 and sampling_time >= max_sampling_time:
-- 
2.43.0


From 41b40966b283db24c5ab2c82e9b7aaad182eb76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 33/54] Revert "fix: do not count the memory measurement as
 elapsed sampling time"

This reverts commit 3ea81f0689d2850e355ee657b91784049e5a8fde.
---
 ais_benchmarks/benchmark/CBenchmark.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index ee37972..b9bad30 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -417,8 +417,6 @@ class CBenchmark(object):
             elif m == "MEM":
                 metrics_eval.append(CMemoryUsage())
 
-        measures = sorted(metrics_eval, key=lambda metric: isinstance(metric, CElapsedTime))
-
         # TODO: Cleanup the debug viz code
         # Initialize visualization
         if debug:
@@ -479,9 +477,8 @@ class CBenchmark(object):
                 # print(text_display, end="\r", flush=True)
                 print(text_display)
 
-                # Initialize metrics before running the evaluated code. The elapsed time starts last and stops first, it
-                # must not include the other measurements
-                [m.pre() for m in measures]
+                # Initialize metrics before running the evaluated code
+                [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
                 t_request = time.time()
@@ -492,7 +489,7 @@ class CBenchmark(object):
                 sampling_time += time.time() - t_request
 
                 # Compute metrics right after the sampling operation
-                [m.post() for m in reversed(measures)]
+                [m.post() for m in metrics_eval]
 
                 # If the time is over without samples there is nothing to measure
                 if len(samples_acc) == 0 and sampling_time >= max_sampling_time:
-- 
2.43.0


From 5238f7dae7537da2b0d5cfc8f14e87c1b2912bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 34/54] Revert "fix: do not charge the memory measurement to
 the sampling budget"

This reverts commit b2997e1ced4672addc3f7976a3ad069793ab7237.
---
 ais_benchmarks/benchmark/CBenchmark.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index b9bad30..0980e69 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -485,13 +485,11 @@ class CBenchmark(object):
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
-                # Account for the sampling time
-                sampling_time += time.time() - t_request
-
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
 
-                # If the time is over without samples there is nothing to measure
+                # Account for the sampling time. If the time is over without samples there is nothing to measure
+                sampling_time += time.time() - t_request
                 if len(samples_acc) == 0 and sampling_time >= max_sampling_time:
                     break
 
-- 
2.43.0


From 989d9c0a2632a3b776afe93b9cf0e66ce733dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 35/54] Revert "fix: build methods with the exact bounds of the
 target"

This reverts commit 2f8f0439a41bb9637981e210c440e1a073ac7f1e.
---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 0980e69..d74eed9 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % space_min.tolist(), ",",
-                      '"space_max":np.array(%s)' % space_max.tolist(), ",",
+            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
+                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
-- 
2.43.0


From 6d8f3a37e23d7b08ceb126d12117cbce7a23d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 36/54] Revert "fix: enforce the sampling time budget of an
 evaluation"

This reverts commit 9fce52064359ad14af96667d19fe2d1574ce5665.
---
 ais_benchmarks/benchmark/CBenchmark.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index d74eed9..9f844c6 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -481,18 +481,12 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
-                t_request = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
 
-                # Account for the sampling time. If the time is over without samples there is nothing to measure
-                sampling_time += time.time() - t_request
-                if len(samples_acc) == 0 and sampling_time >= max_sampling_time:
-                    break
-
                 # Sampling methods generate a desired number of samples and maintain the state. Therefore it is not
                 # possible to ask the sampling algos for batch_size samples every time, thus in order to have partial
                 # results during the sampling experiments, the number of samples to generate is always increase by
@@ -545,7 +539,7 @@ class CBenchmark(object):
 
                 # Some sampling algorithms may take too long to generate the desired number of samples, the
                 # timeout ensures the operation will end if the specified timeout is reached.
-                if sampling_time >= max_sampling_time:
+                if sampling_time > max_sampling_time:
                     break
 
                 niter += 1
@@ -556,7 +550,7 @@ class CBenchmark(object):
             # Print final experiment statistics
             text_display = "%02d/%02d | %12s | %6s | %dD | #s: %.1fk | %5.1f%% | t: %02dh %02dm %4.1fs | " % (
                 nexp + 1, n_reps, sampling_method.name, target_dist.name, ndims, len(samples_acc) / 1000.0,
-                (len(samples_acc) / max_samples) * 100, h, m, s)
+                (len(samples_acc) / max_samples) * 100, hr, mn, sec)
 
             text_display += " | ".join(["%s: %7.5f" % (m.name, m.value) for m in metrics_eval])
             print(text_display, end="\n", flush=True)
-- 
2.43.0


From d4dc585a48506864cbfa93de5896b21eb26cbf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 37/54] Revert "fix: keep results file rows aligned with their
 header"

This reverts commit 78c57c2fcadaadc60b7a3d03766782fe0d6e3f16.
---
 ais_benchmarks/benchmark/CBenchmark.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 9f844c6..7595023 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -164,8 +164,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        # NESS has its own column, it must not be listed again with the remaining metrics
-        cols = " ".join(["dims", "output_samples"] + [m for m in self.metrics if m != "NESS"]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -321,7 +320,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
-- 
2.43.0


From 3e51183b8220120ce52b148ff19f6d6003ec061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 38/54] fix: probability of a region outside a uniform's
 support is zero

---
 ais_benchmarks/distributions/parametric/CMultivariateUniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index 2fd3b0a..cb48437 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -65,7 +65,7 @@ class CMultivariateUniform(CDistribution):
         assert np.all(a < b)
         ini = np.maximum(a, self.support_vals[0])
         end = np.minimum(b, self.support_vals[1])
-        return (1 / self.volume) * np.prod((end-ini))
+        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))
 
     def marginal(self, dim):
         raise NotImplementedError
-- 
2.43.0


From c3ec4326799c1c58c47e856a5d69f77d927eb372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 39/54] fix: densities accept an empty batch of points

---
 ais_benchmarks/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b84c69a..6929e2f 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -138,7 +138,7 @@ class CDistribution(metaclass=ABCMeta):
             x = x.reshape(1, self.dims)
         # Check that the sample dimensions matches the PDF.
         elif len(x.shape) == 2:
-            if len(x[0]) != self.dims:
+            if x.shape[1] != self.dims:
                 raise ValueError("""Shape of x does not match self.dims = %d. is Nx%d array that contains N points of %d 
                                     dimensions. x.shape=%s""" % (self.dims, self.dims, self.dims, str(x.shape)))
         else:
-- 
2.43.0


From 017e3aa9b06bdbcafa32fd8f83f26381198caddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 40/54] fix: draw from the ABC joint with generative models
 that draw one value per condition

---
 ais_benchmarks/distributions/derived/CABCDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/derived/CABCDistribution.py b/ais_benchmarks/distributions/derived/CABCDistribution.py
index e8d9301..b6b0fe7 100644
--- a/ais_benchmarks/distributions/derived/CABCDistribution.py
+++ b/ais_benchmarks/distributions/derived/CABCDistribution.py
@@ -109,10 +109,10 @@ class ABCDistribution(CDistribution):
         z = self.prior_d.sample(nsamples)
 
         self.gen_d.condition(z)
-        x = self.gen_d.sample(nsamples)
+        x = self.gen_d.sample()
 
         self.sensor_d.condition(x)
-        o_hat = self.sensor_d.sample(nsamples)
+        o_hat = self.sensor_d.sample()
 
         return o_hat
 
-- 
2.43.0


From 89d2fe7869c72c962395ac14f80053631f7ab88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 41/54] fix: MultiNested fits a nearly flat cluster instead of
 raising

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 55f1f75..a42fea4 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -48,7 +48,7 @@ class CEllipsoid:
 
         if len(points[0]) > 1:
             scale = np.cov(points, rowvar=False)
-            if np.linalg.det(scale) <= 0:
+            if np.linalg.det(scale * inflate) <= 0:
                 print("CEllipsoid: ERROR! Ellipsoid fit failed. Negative determinant. Identity covariance.", file=sys.stderr)
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
-- 
2.43.0


From 07e0e31805148f9f85df0333343f089c41c8cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 42/54] fix: the statistics of the tree pyramid report the
 effective sample size of the samples in the tree

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index a438692..e3e0fe2 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -698,6 +698,10 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         # ESS = 1 / np.sum(weights*weights)
         return ESS / len(samples)
 
+    def get_approx_NESS(self):
+        # The samples and weights are held by the tree
+        return self.get_NESS()
+
     def _get_nsamples(self):
         return len(self._get_samples()[1])
 
-- 
2.43.0


From 71b6db46483fe849ef3e8a34aeb47f1106a12cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 43/54] fix: the effective sample size of the nested samplers
 is defined when some weights are zero

---
 ais_benchmarks/sampling_methods/multi_nested.py | 3 ++-
 ais_benchmarks/sampling_methods/nested.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index a42fea4..1c7b39b 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -99,7 +99,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        weights = self.weights[self.weights > 0]    # w * log(w) tends to 0 with w
+        ESS = np.exp(-np.sum(weights * np.log(weights)))
         return ESS / len(self.samples)
 
     def resample(self, value, pdf, ellipsoid, timeout=60, ellipsoid_converged_radius=1e-2):
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index a3a4d88..d55f0ea 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -46,7 +46,8 @@ class CNestedSampling(CMixtureSamplingMethod):
         return new_sample, new_value
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        weights = self.weights[self.weights > 0]    # w * log(w) tends to 0 with w
+        ESS = np.exp(-np.sum(weights * np.log(weights)))
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
-- 
2.43.0


From 6697e271ae5e42f5dd3f8bb12543175bc63fd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 44/54] fix: the autocorrelation of a chain is taken about the
 mean of each coordinate

---
 ais_benchmarks/sampling_methods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 48d9235..029adb4 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -45,7 +45,7 @@ class CSamplingMethod(metaclass=ABCMeta):
 
         variogram = lambda t: t_tensor([((x[t:] - x[:(n - t)]) ** 2).sum() / (n - t)])
 
-        mean = x.mean()
+        mean = x.mean(axis=0)
         dist = x - mean
 
         W = (dist ** 2).sum() / (n - 1)
-- 
2.43.0


From 544ec87297a6779cd4409bb1a7ff749d3a29a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 45/54] fix: the probability of a region under a delta
 distribution uses the location of the distribution

---
 ais_benchmarks/distributions/parametric/CMultivariateDelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
index b880714..80d9485 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
@@ -46,7 +46,7 @@ class CMultivariateDelta(CDistribution):
 
     def integral(self, a, b, nsamples=None):
         assert np.all(a < b)
-        if np.all(a < center) and np.all(center < b):
+        if np.all(a < self.loc) and np.all(self.loc < b):
             return np.array([1])
         return np.array([0])
 
-- 
2.43.0


From c80c76cc6ecb80185fe1c1187cf165fbd2ff8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 46/54] fix: HiDaisee updates the value of the parent of the
 sampled leaf, too

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index bd745b1..a18cb25 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -207,7 +207,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
                 break
 
             # Initialize traversal path and node to the root. Line 3.
-            P = [0]
+            P = []
             n_id = 0
 
             if self.debug:
@@ -251,8 +251,8 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
                 print(self.__class__.__name__, "== Debug ==> ", "    | and weights %s" % str(n.weights.flatten()))
 
             # Update the leaf and ancestors proposal expected evidence values. Line 11
-            # Because the traversal trajectory is stored in P. The last node is a leaf node and the remaining nodes
-            # in the list are ancestors of P.
+            # Because the traversal trajectory is stored in P. The nodes in the list are the ancestors of the leaf, from
+            # the root to its parent.
             # qi computed using eq.8 for leaves. Which is a MC estimate of the evidence in the subspace.
 
             # Compute the optimism boost (sigma_a) according to the paper description in Theorem 1.
@@ -270,7 +270,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
             n.q = (Za + sigma_at) / total_ev
 
             # qi computed using eq.19 for ancestors. Line 11
-            for parent_n in reversed(P[:-1]):
+            for parent_n in reversed(P):
                 self.T.nodes[parent_n].q = self.T.nodes[parent_n].left.q + self.T.nodes[parent_n].right.q
 
             # Determine whether to split the leaf node. Lines 12 to 15
-- 
2.43.0


From c72d486315769ff464e15c14a5420d40571f7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 47/54] fix: the log density of BenchDenMaxwell is -inf below
 zero, and a single point can be evaluated

---
 ais_benchmarks/distributions/benchden/d03_maxwell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d03_maxwell.py b/ais_benchmarks/distributions/benchden/d03_maxwell.py
index 99607bb..98a9523 100644
--- a/ais_benchmarks/distributions/benchden/d03_maxwell.py
+++ b/ais_benchmarks/distributions/benchden/d03_maxwell.py
@@ -34,7 +34,7 @@ class BenchDenMaxwell(CDistribution):
         else:
             raise ValueError("Shape of samples does not match self.dims")
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         samples_in = samples[inliers]
         res_in = np.log(samples_in) - ((samples_in * samples_in) / 2)
@@ -43,6 +43,7 @@ class BenchDenMaxwell(CDistribution):
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From 5f0a5f37629b5cb17b0ff50b4d97b478b6595b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 48/54] fix: BenchDenLaplace.log_prob returns one value per
 point

---
 ais_benchmarks/distributions/benchden/d04_laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d04_laplace.py b/ais_benchmarks/distributions/benchden/d04_laplace.py
index 30d62af..36ec20a 100644
--- a/ais_benchmarks/distributions/benchden/d04_laplace.py
+++ b/ais_benchmarks/distributions/benchden/d04_laplace.py
@@ -36,7 +36,7 @@ class BenchDenLaplace(CDistribution):
 
         res = np.log(.5) - np.fabs(samples)
         res = np.sum(res, axis=1)
-        return res
+        return res.flatten()
 
     def prob(self, samples):
         return np.exp(self.log_prob(samples))
-- 
2.43.0


From b1000bc0cb635f66ee917db1a17c6bd0a971f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 49/54] fix: CMultivariateExponential evaluates a single point

---
 .../distributions/parametric/CMultivariateExponential.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index 7996b17..cbb982d 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -39,6 +39,7 @@ class CMultivariateExponential(CDistribution):
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
         res = np.zeros(len(samples))
         inliers = np.all(samples >= 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From 415ea357e45db663182285bbd079d2d1df5f7bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 50/54] fix: to_dict names the type the way the benchmark reads
 it

---
 ais_benchmarks/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index 6929e2f..532a436 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -296,7 +296,7 @@ class CDistribution(metaclass=ABCMeta):
     def to_dict(self, name=None, batch_size=32, nsamples=1000, nsamples_eval=2000):
         dist_yaml = dict()
         dist_yaml["name"] = name if name is not None else self.type
-        dist_yaml["type"] = "distributions." + self.__class__.__name__
+        dist_yaml["type"] = self.__class__.__name__
         dist_yaml["batch_size"] = batch_size
         dist_yaml["nsamples"] = nsamples
         dist_yaml["nsamples_eval"] = nsamples_eval
-- 
2.43.0


From b2fc20a166bab592cc0b02a672c418433e7bced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 51/54] fix: HiDaisee divides a cell with a sample on its
 border whatever the rounding of the border

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index a18cb25..8c662ac 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -119,16 +119,10 @@ class CHiDaiseeTree:
         # Push the samples from the parent to the children. Because the children have different
         # proposal distributions we have to recompute the weights of existing samples
         for x in n.samples:
-            if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:
-                if n_left.prob(x) <= 0:
-                    raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
-                w = target_d.prob(x) / n_left.prob(x)
-                n_left.add_sample(np.array([x]), w)
-            else:
-                if n_right.prob(x) <= 0:
-                    raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
-                w = target_d.prob(x) / n_right.prob(x)
-                n_right.add_sample(np.array([x]), w)
+            child = n_left if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim] else n_right
+            # A sample on the border of the parent can lie outside of the child by a rounding error of the border
+            p_child = child.prob(np.clip(x, child.center - child.radius, child.center + child.radius))
+            child.add_sample(np.array([x]), target_d.prob(x) / p_child)
 
         # Remove parent from the leaf list and add children
         self.leaves.remove(node_id)
-- 
2.43.0


From 55468fce98aa6ed3b92c0232c26710446fb29c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 52/54] fix: multi nested sampling keeps the live points when
 the time expires before a replacement is found

---
 ais_benchmarks/sampling_methods/multi_nested.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 1c7b39b..8b95db2 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -208,18 +208,26 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
 
                 Lmin = np.min(values[c_ellipsoid.indices])
 
-                # Add the point with lowest likelihood to the resulting sample set
                 g_indices = np.argwhere(c_ellipsoid.indices == True).flatten()
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
+
+                # Find a replacement for the point with lowest likelihood
+                new_sample, new_value = self.resample(Lmin, target_d, c_ellipsoid, timeout - elapsed_time, self.converged_radius)
+
+                # The timeout expired before finding a replacement
+                if Lmin > new_value and c_ellipsoid.volume > self.converged_radius**self.ndims:
+                    break
+
+                # Add the point with lowest likelihood to the resulting sample set
                 self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1, -1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
 
                 # Replace the point with lowest likelihood with a new sample from the proposal distribution
-                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout - elapsed_time, self.converged_radius)
+                points[min_idx], values[min_idx] = new_sample, new_value
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
-- 
2.43.0


From 515d2621340f593fb3b32b8ebf4bb16c639e5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 53/54] fix: DM-AIS and layered AIS report their proposal
 evaluations

Both evaluate their mixture of proposals once per weight, and reported that no proposal was evaluated.
---
 ais_benchmarks/sampling_methods/dm_ais.py      | 1 +
 ais_benchmarks/sampling_methods/layered_ais.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 65a6063..41c5ab4 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -77,6 +77,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index b033f7a..207188c 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -91,6 +91,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
-- 
2.43.0


From 8f2fd7b348d3588a85e942525588803500047b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 54/54] fix: samplers can be drawn in two dimensions

---
 ais_benchmarks/sampling_methods/base.py | 4 ++--
 ais_benchmarks/utils/plot_utils.py      | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 029adb4..3f93ce8 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -213,9 +213,9 @@ class CMixtureSamplingMethod(CSamplingMethod):
         res = []
         if hasattr(self, "proposals"):
             for q in self.proposals:
-                res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o"))
+                res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o"))
                 res.extend(plot_pdf2d(ax, q, self.space_min, self.space_max, alpha=0.3, resolution=0.02, colormap=cm.viridis, linestyles='dashed', scale=1/len(self.proposals)))
-            res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o", label="$q_n(x)$"))
+            res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o", label="$q_n(x)$"))
 
         # for s, w in zip(self.samples, self.weights):
         #     res.append(ax.scatter(s[0], s[1], w, c="g", marker="o", alpha=0.2))
diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 2f1e6ff..e20953b 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -56,7 +56,8 @@ def plot_grid_sampled_pdfs(ax, dims, prob_p, shape=None, marginalize_axes=None,
 
     levels = np.arange(np.min(prob_p_margin), np.max(prob_p_margin), (np.max(prob_p_margin)-np.min(prob_p_margin)) / 15)
     CS = ax.contour(dims[0], dims[1], prob_p_margin, cmap=cmap, levels=levels, linestyles=linestyles, alpha=alpha)
-    return CS.collections if len(CS.collections) else []
+    # Since matplotlib 3.8 the contour set is the artist itself
+    return list(CS.collections) if hasattr(CS, "collections") else [CS]
 
 
 def plot_pdf2d(ax, pdf, space_min, space_max, resolution=0.1, alpha=0.2, scale=1.0, label=None, colormap=plt.cm.cool, linestyles='solid'):
-- 
2.43.0

