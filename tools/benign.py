#!/usr/bin/env python3
"""Behaviour-preserving edits: the checks must stay quiet on them.

usage: benign.py [ids] [--props S01,S02] [--runs N]   Applies each edit in a scratch copy and runs the affected checks there.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = "ais_benchmarks/metrics/"
U = "ais_benchmarks/utils/"
SALL = "S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 S13 S14 S15 S16 V01"
BATCH = ("""            new_weights = t_tensor([])
            for s in new_samples:
                w = target_d.prob(s) / self.prob(s)
                self._num_pi_evals += 1
                self._num_q_evals += 1
                new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
""", """            new_weights = (np.asarray(target_d.prob(new_samples)).reshape(-1) / self.prob(new_samples).reshape(-1))
            self._num_pi_evals += len(new_samples)
            self._num_q_evals += len(new_samples)
""")
GATHER = ("""            new_samples = t_tensor([])
            for q in self.proposals:
                for _ in range(self.K):
                    s = q.sample()[0]
                    self._num_q_samples += 1
                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
""", """            drawn = []
            for q in self.proposals:
                drawn.append(q.sample(self.K))
                self._num_q_samples += self.K
            new_samples = np.concatenate(drawn)
""")
BUGS = [
    dict(id="dm-batch", file=S + "dm_ais.py", props=SALL, edits=[BATCH]),
    dict(id="dm-gather", file=S + "dm_ais.py", props=SALL, edits=[GATHER]),
    dict(id="dm-choice", file=S + "dm_ais.py", props=SALL, edits=[
        ("            idx = np.random.multinomial(1, norm_weights)\n            idx = np.argmax(idx)\n            new_mean = samples[idx]\n",
         "            new_mean = samples[np.random.choice(len(samples), p=norm_weights)]\n")]),
    dict(id="dm-normal-noise", file=S + "dm_ais.py", props=SALL, edits=[
        ("        for _ in range(self.N):\n            prop_center = np.random.uniform(self.space_min, self.space_max)\n",
         "        centers = np.random.uniform(self.space_min, self.space_max, size=(self.N, len(self.space_max)))\n        for prop_center in centers:\n")]),
    dict(id="lais-batch", file=S + "layered_ais.py", props=SALL, edits=[BATCH]),
    dict(id="lais-cache", file=S + "layered_ais.py", props=SALL, edits=[
        ("        for _ in range(n_steps):\n            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n",
         "        old_val = target_d.prob(x)\n        self._num_pi_evals += 1\n        for _ in range(n_steps):\n"),
        ("            x = x_hat if ratio > alpha else x\n", "            if ratio > alpha:\n                x = x_hat\n                old_val = new_val\n")]),
    dict(id="lais-alpha-first", file=S + "layered_ais.py", props=SALL, edits=[
        ("            alpha = np.random.rand()\n            ratio = new_val / old_val\n\n            x = x_hat if ratio > alpha else x\n",
         "            if new_val / old_val > np.random.rand():\n                x = x_hat\n")]),
    dict(id="lais-draw-first", file=S + "layered_ais.py", props=SALL, edits=[
        ("            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n            x_delta", "            x_delta"),
        ("            new_val = target_d.prob(x_hat)\n            self._num_pi_evals += 1\n",
         "            new_val = target_d.prob(x_hat)\n            old_val = target_d.prob(x)\n            self._num_pi_evals += 2\n")]),
    dict(id="rej-list", file=S + "rejection.py", props=SALL, edits=[
        ("            acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))\n",
         "            acceptance_prob = np.random.rand(len(proposals), 1)\n"),
        ("            accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)\n",
         "            acceptance_ratio = acceptance_ratio.reshape(-1)\n            accept_idx = np.flatnonzero(acceptance_prob.reshape(-1) < acceptance_ratio)\n")]),
    dict(id="rej-product", file=S + "rejection.py", props=SALL, edits=[
        ("            accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)\n",
         "            accept_idx = (proposals_prob_p.reshape(-1) > acceptance_prob * proposals_prob_q.reshape(-1))\n")]),
    dict(id="rej-uniform-first", file=S + "rejection.py", props=SALL, edits=[
        ("            # Generate acceptance probability values from U[0,1)\n            acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))\n", ""),
        ("            self._num_q_samples += len(proposals)\n", "            self._num_q_samples += len(proposals)\n            acceptance_prob = np.random.uniform(size=len(proposals))\n")]),
    dict(id="mh-exp", file=S + "metropolis_hastings.py", props=SALL, edits=[
        ("            accept = np.random.rand()\n", "            accept = np.random.uniform(0, 1)\n"),
        ("            accepted = alpha > np.log(accept)\n", "            accepted = bool(np.all(np.exp(np.minimum(alpha, 0)) > accept)) if not np.any(np.isnan(alpha)) else False\n")]),
    dict(id="mh-cache-old", file=S + "metropolis_hastings.py", props=SALL, edits=[
        ("        x_new = x_old\n        while not accepted and timeout > t_elapsed:\n",
         "        x_new = x_old\n        pi_x_old = None\n        while not accepted and timeout > t_elapsed:\n"),
        ("            pi_x_old = self.target_d.log_prob(x_old)\n            self._num_pi_evals += 2\n",
         "            if pi_x_old is None:\n                pi_x_old = self.target_d.log_prob(x_old)\n                self._num_pi_evals += 1\n            self._num_pi_evals += 1\n")]),
    dict(id="mh-helper", file=S + "metropolis_hastings.py", props=SALL, edits=[
        ("            hastings_term = self.proposal_d.log_prob(x_old - x_new) - self.proposal_d.log_prob(x_new - x_old)\n            self._num_q_evals += 2\n",
         "            hastings_term = self._hastings(x_old, x_new)\n"),
        ("    def mcmc(self, n_samples, n_steps, timeout=60):\n",
         "    def _hastings(self, x_old, x_new):\n        self._num_q_evals += 2\n        step = x_new - x_old\n        return self.proposal_d.log_prob(-step) - self.proposal_d.log_prob(step)\n\n    def mcmc(self, n_samples, n_steps, timeout=60):\n")]),
    dict(id="mh-traj", file=S + "metropolis_hastings.py", props=SALL, edits=[
        ("            self.trajectory_types.append(self.REJECT)\n\n        if not accepted:\n            return None\n\n        self.trajectory_types[-1] = self.ACCEPT\n        return x_new\n",
         "            self.trajectory_types.append(self.ACCEPT if accepted else self.REJECT)\n\n        return x_new if accepted else None\n")]),
    dict(id="pmc-vector", file=S + "m_pmc.py", props=SALL, edits=[
        ("""            for i in range(self.K):
                pi_x = target_d.log_prob(new_samples[i])
                q_x = self.log_prob(new_samples[i])
                new_weights[i] = np.exp(pi_x - q_x)

                self._num_pi_evals += 1
                self._num_q_evals += 1

                # Compute mixture posteriors (eq. 7)
                for d in range(self.N):
                    alpha_d = self.wproposals[d]
                    q_d = self.proposals[d].log_prob(new_samples[i])
                    rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)
                    self._num_q_evals += 1
""", """            pi_x = np.asarray(target_d.log_prob(new_samples)).reshape(-1)
            q_x = self.log_prob(new_samples).reshape(-1)
            new_weights = np.exp(pi_x - q_x)
            self._num_pi_evals += self.K
            self._num_q_evals += self.K

            # Compute mixture posteriors (eq. 7)
            for d in range(self.N):
                rho[d] = self.wproposals[d] * np.exp(self.proposals[d].log_prob(new_samples).reshape(-1) - q_x)
                self._num_q_evals += self.K
""")]),
    dict(id="pmc-adapt", file=S + "m_pmc.py", props=SALL, edits=[
        ("""            cov = np.zeros_like(cov_val)
            for i in range(self.K):
                cov += weights[i] * posteriors[d][i] * cov_val
            cov /= self.wproposals[d]
""", """            cov = cov_val * np.sum(weights * posteriors[d]) / self.wproposals[d]
"""), ("            mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]\n",
        "            mu = (weights * posteriors[d]) @ samples / self.wproposals[d]\n")]),
    dict(id="nested-helper", file=S + "nested.py", props=SALL, edits=[
        ("""        new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
        self._num_q_samples += 1
        new_value = pdf.prob(new_sample)
        self._num_pi_evals += 1
        elapsed_time = 0
""", """        new_sample, new_value = self._propose(sample, pdf)
        elapsed_time = 0
"""), ("""            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
            self._num_q_samples += 1
            new_value = pdf.prob(new_sample)
            self._num_pi_evals += 1
            elapsed_time""", """            new_sample, new_value = self._propose(sample, pdf)
            elapsed_time"""),
        ("    def get_NESS(self):\n", """    def _propose(self, center, pdf):
        moved = center + self.proposal_dist.sample()
        moved = np.minimum(np.maximum(moved, self.space_min), self.space_max)
        self._num_q_samples += 1
        self._num_pi_evals += 1
        return moved, pdf.prob(moved)

    def get_NESS(self):
""")]),
    dict(id="nested-vector", file=S + "nested.py", props=SALL, edits=[
        ("        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])\n        W = X[:-1] - X[1:]\n",
         "        W = -np.diff(np.exp(-np.arange(len(self.samples) + 1) / self.N))\n"),
        ("            Lmin = np.min(values)\n            min_idx = np.argmin(values)\n", "            min_idx = int(np.argmin(values))\n            Lmin = values[min_idx]\n"),
        ("        for i in range(n_samples - len(self.samples)):\n            elapsed_time = time.time() - t_ini\n            if elapsed_time >= timeout:\n                break\n",
         "        while len(self.samples) < n_samples:\n            elapsed_time = time.time() - t_ini\n            if not elapsed_time < timeout:\n                break\n")]),
    dict(id="nested-ness", file=S + "nested.py", props="S02 S05 S10 S13 R05", edits=[
        ("        ESS = np.exp(-np.sum(weights * np.log(weights)))\n        return ESS / len(self.samples)\n",
         "        entropy = -np.sum(weights * np.log(weights))\n        return np.exp(entropy - np.log(len(self.samples)))\n")]),
    dict(id="daisee-split", file=S + "hi_daisee.py", props=SALL, edits=[
        ("""            child = n_left if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim] else n_right
            # A sample on the border of the parent can lie outside of the child by a rounding error of the border
            p_child = child.prob(np.clip(x, child.center - child.radius, child.center + child.radius))
            child.add_sample(np.array([x]), target_d.prob(x) / p_child)
""", """            on_the_left = x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]
            child = n_right if not on_the_left else n_left
            low, high = child.center - child.radius, child.center + child.radius
            q = child.prob(np.minimum(np.maximum(x, low), high))
            p = target_d.prob(x)
            child.add_sample(x.reshape(1, -1), p / q)
"""),
        ("        new_rad = np.copy(n.radius)\n        # Select a dimension to split\n        sel_dim = np.random.randint(low=0, high=self.dims)\n        new_rad[sel_dim] /= 2\n",
         "        # Select a dimension to split\n        sel_dim = np.random.randint(self.dims)\n        new_rad = n.radius.copy()\n        new_rad[sel_dim] = new_rad[sel_dim] * .5\n")]),
    dict(id="daisee-reweigh", file=S + "hi_daisee.py", props=SALL, edits=[
        ("        for x in n.samples:\n", "        for x, old in zip(n.samples, n.weights.reshape(-1)):\n"),
        ("            child.add_sample(np.array([x]), target_d.prob(x) / p_child)\n",
         "            child.add_sample(np.array([x]), np.atleast_1d(target_d.prob(x)) / p_child)\n"),
        ]),
    dict(id="daisee-evidence", file=S + "hi_daisee.py", props=SALL, edits=[
        ("""            total_ev = 0
            for leaf_idx in self.T.leaves:
                if self.T.nodes[leaf_idx].N > 0:
                    sigma_bt = self.sigma * np.sqrt(np.log(t) / self.T.nodes[leaf_idx].N)
                    Zb = np.mean(self.T.nodes[leaf_idx].weights)
                    total_ev += Zb + sigma_bt
""", """            visited = [self.T.nodes[leaf_idx] for leaf_idx in self.T.leaves if self.T.nodes[leaf_idx].N > 0]
            total_ev = sum(leaf.weights.mean() + self.sigma * np.sqrt(np.log(t) / leaf.N) for leaf in visited)
"""), ("            while n_id not in self.T.leaves:\n".replace("while", "while"), "            while self.T.nodes[n_id].left is not None:\n")]),
    dict(id="daisee-once", file=S + "hi_daisee.py", props=SALL, edits=[
        ("            assert n.prob(x_i) > 0\n            w_i = target_d.prob(x_i) / n.prob(x_i)\n",
         "            q_i = n.prob(x_i)\n            assert q_i > 0\n            p_i = target_d.prob(x_i)\n            w_i = p_i / q_i\n")]),
    dict(id="tp-share", file=S + "tree_pyramid.py", props=SALL, edits=[
        ("            return np.log(llikelihood)\n", "            return np.log(self.prob(x))\n"),
        ("                    likelihood[i] = np.max(masses[inliers] / ((2 * self.T.radii[inliers].flatten()) ** self.T.ndims))\n            return likelihood\n",
         "                    densities = masses[inliers] * (2 * self.T.radii[inliers].flatten()) ** -float(self.T.ndims)\n                    likelihood[i] = densities.max()\n            return likelihood\n")]),
    dict(id="tp-counters-first", file=S + "tree_pyramid.py", props=SALL, edits=[
        ("        self._num_pi_evals += len(samples)\n        self._num_q_evals += len(samples)\n        self._num_q_samples += len(samples)\n\n        # The history", "        # The history"),
        ("        samples = re_samples * 2 * radii + centers\n", "        samples = centers + 2 * radii * re_samples\n        count = len(samples)\n        self._num_q_samples += count\n        self._num_q_evals += count\n        self._num_pi_evals += count\n"),
        ])
    ,
    dict(id="tp-models", file=S + "tree_pyramid.py", props=SALL, edits=[
        ("        models = list()\n\n        i = 0\n        for c, r in zip(centers, radii):\n            if self.kernel == \"haar\":\n                models.append(CMultivariateUniform({\"center\": c, \"radius\": r}))\n",
         "        models = list()\n        if self.kernel == \"haar\":\n            models = [CMultivariateUniform({\"center\": c, \"radius\": r}) for c, r in zip(centers, radii)]\n            centers = radii = []\n\n        i = 0\n        for c, r in zip(centers, radii):\n            if False:\n                pass\n"),
        ("        samples = np.zeros((nsamples, self.ndims))\n        weights = np.zeros(nsamples)\n        i = 0\n        for l in self.T.leaves:\n            nsamples_subspace = len(l.weight_hist)\n            samples[i:i + nsamples_subspace] = l.coords_hist\n            weights[i:i + nsamples_subspace] = l.weight_hist.flatten()\n            i += nsamples_subspace\n",
         "        samples = np.concatenate([np.asarray(l.coords_hist).reshape(-1, self.ndims) for l in self.T.leaves])\n        weights = np.concatenate([np.asarray(l.weight_hist).flatten() for l in self.T.leaves])\n")]),
    dict(id="mix-choice", file=D + "mixture/CMixtureModel.py", props=SALL + " D01 D02 D03 D04 P02 R08", edits=[
        ("            idx = np.argmax(np.random.multinomial(1, self.weights))\n", "            idx = np.random.choice(len(self.models), p=self.weights)\n")]),
    dict(id="mix-batch", file=D + "mixture/CMixtureModel.py", props=SALL + " D01 D02 D03 D04 P02 R08", edits=[
        ("""        res = np.array([])
        for _ in range(n_samples):
            # Select the sampling proposal
            idx = np.argmax(np.random.multinomial(1, self.weights))
            q = self.models[idx]

            # Sample from the sampling proposal
            x = q.sample(1)
            res = np.concatenate((res, x)) if res.size else x
        return res
""", """        if n_samples == 0:
            return np.array([])
        counts = np.random.multinomial(n_samples, self.weights)
        res = np.concatenate([q.sample(int(c)) for q, c in zip(self.models, counts) if c > 0])
        return res[np.random.permutation(len(res))]
""")]),
    dict(id="mix-logprob", file=D + "mixture/CMixtureModel.py", props=SALL + " D01 D02 D03 D04 P02 R08 M01 M04", edits=[
        ("        for i in range(len(self.models)):\n            llikelihood[i] = self.models[i].log_prob(data)\n",
         "        for i, model in enumerate(self.models):\n            llikelihood[i] = np.asarray(model.log_prob(data)).reshape(-1)\n"),
        ("        for i in range(len(self.models)):\n            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n\n        likelihood = np.sum(likelihood, axis=0)\n",
         "        total = 0\n        for model, weight in zip(self.models, self.weights):\n            total = total + weight * np.exp(model.log_prob(data).flatten())\n\n        likelihood = np.array(total, dtype=float) + np.zeros(likelihood.shape[1])\n")]),
    dict(id="uniform-affine", file=D + "parametric/CMultivariateUniform.py", props=SALL + " D01 D02 D03 D04 P02 R08", edits=[
        ("        res = np.random.uniform(low=minval, high=maxval, size=(n_samples, self.dims))\n",
         "        res = minval + (maxval - minval) * np.random.rand(n_samples, self.dims)\n"),
        ("        inliers = np.all(np.logical_and(min_val <= samples, samples <= max_val), axis=1)\n",
         "        inliers = np.all(samples >= min_val, axis=1) & np.all(samples <= max_val, axis=1)\n")]),
    dict(id="normal-chol", file=D + "parametric/CMultivariateNormal.py", props=SALL + " D01 D02 D03 D04 P02 R08", edits=[
        ("        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)\n",
         "        root = np.linalg.cholesky(self._scale)\n        return self._loc.flatten() + np.random.normal(size=(n_samples, self.dims)) @ root.T\n"),
        ("        self.log_det = np.log(self.det)\n", "        self.log_det = np.linalg.slogdet(cov)[1]\n"),
        ("        term3 = -0.5 * (np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff)\n",
         "        term3 = -0.5 * np.einsum('nij,ik,nkj->n', diff, self.inv_cov, diff)\n"),
        ("        return (self.term1 + self.term2 + term3).reshape(len(samples))\n", "        return self.term1 + self.term2 + term3\n")]),
    dict(id="time-perf", file=M + "performance.py", props="M02 R01 R02 R03 R04 R05 R06 R07", edits=[
        ("from timeit import default_timer as timer\n", "from time import perf_counter as timer\n"),
        ("        self.t_ini = timer()\n", "        self.t_ini = timer()\n        self.t_end = self.t_ini\n")]),
    dict(id="time-mod", file=M + "performance.py", props="M02 R01 R02 R05", edits=[
        ("        self.t_ini = timer()\n", "        self.t_ini = time.perf_counter()\n"),
        ("        self.t_end = timer()\n        self.value += self.t_end - self.t_ini - self.overhead\n", "        self.t_end = time.perf_counter()\n        elapsed = self.t_end - self.t_ini\n        self.value = self.value + (elapsed - self.overhead)\n")]),
    dict(id="mem-delta", file=M + "performance.py", props="M01 M02 R01 R05", edits=[
        ("        self.mem_cum += self.mem_end - self.mem_ini\n        self.value = self.mem_cum / 10**6\n",
         "        used = self.mem_end - self.mem_ini\n        self.mem_cum = self.mem_cum + used\n        self.value = self.mem_cum * 1e-6\n")]),
    dict(id="misc-getnowait", file=U + "misc.py", props="U01 U02", edits=[
        ("                return self._q.get(block=False)\n", "                return self._q.get_nowait()\n"),
        ("            while not self._q.empty():\n                val = self._q.get()\n", "            while self._q.qsize() > 0:\n                val = self._q.get_nowait()\n")]),
    dict(id="misc-drain", file=U + "misc.py", props="U01 U02", edits=[
        ("            while not self._q.empty():\n                val = self._q.get()\n", "            while True:\n                try:\n                    val = self._q.get(block=False)\n                except Empty:\n                    break\n"),
        ("        self._t = Thread(target=_addqueue, args=(self._s, self._q, self._lock))\n        self._t.daemon = True\n", "        self._t = Thread(target=_addqueue, args=(self._s, self._q, self._lock), daemon=True)\n")]),
    dict(id="misc-deque", file=U + "misc.py", props="U01 U02", edits=[
        ("from queue import Queue, Empty\n", "from collections import deque\n"),
        ("        self._q = Queue()\n", "        self._q = deque()\n"),
        ("                        q.put(l)\n", "                        q.append(l)\n"),
        ("            while not self._q.empty():\n                val = self._q.get()\n\n            if val is not None and keep_last:\n                self._q.put(val)\n",
         "            if self._q:\n                val = self._q[-1]\n                self._q.clear()\n                if keep_last:\n                    self._q.append(val)\n"),
        ("            try:\n                return self._q.get(block=False)\n            except Empty:\n                return \"\"\n",
         "            return self._q.popleft() if self._q else \"\"\n")]),
    dict(id="misc-rlock", file=U + "misc.py", props="U01 U02", edits=[
        ("from threading import Thread, Lock\n", "import threading\n"),
        ("Lock()  #", "threading.RLock()  #"), ("        self._t = Thread(", "        self._t = threading.Thread("),
        ("                l = s.readline()\n                if l:\n                    with lock:\n                        q.put(l)\n",
         "                l = s.readline()\n                if not l:\n                    continue\n                lock.acquire()\n                try:\n                    q.put(l)\n                finally:\n                    lock.release()\n")]),
    dict(id="base-ness", file=S + "base.py", props="S02 S05 S10", edits=[
        ("        normweights = self.weights / np.sum(self.weights)\n        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / len(self.samples)\n",
         "        w = self.weights.reshape(-1)\n        total = np.sum(w)\n        return (total * total) / np.dot(w, w) / len(self.samples)\n")]),
    dict(id="base-kde", file=S + "base.py", props=SALL, edits=[
        ("        indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)\n        for idx in indices:\n            x = self.samples[idx]\n            cov = np.ones(len(self.space_max)) * self.bw\n",
         "        cov = np.ones(len(self.space_max)) * self.bw\n        indices = np.random.randint(0, len(self.samples), size=self.n_samples_kde)\n        for x in self.samples[indices]:\n"),
        ]),
    dict(id="base-count-after", file=S + "base.py", props=SALL, edits=[
        ("        self._num_q_samples += n_samples\n        return self.model.sample(n_samples)\n",
         "        drawn = self.model.sample(n_samples)\n        self._num_q_samples += n_samples\n        return drawn\n")]),
    dict(id="multi-helper", file=S + "multi_nested.py", props=SALL, edits=[
        ("""        new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)

        self._num_q_samples += 1

        new_value = pdf.prob(new_sample)
        self._num_pi_evals += 1
        elapsed_time = 0
""", """        new_sample, new_value = self._propose(pdf, ellipsoid)
        elapsed_time = 0
"""), ("""            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
            self._num_q_samples += 1
            new_value = pdf.prob(new_sample)
            self._num_pi_evals += 1
            elapsed_time""", """            new_sample, new_value = self._propose(pdf, ellipsoid)
            elapsed_time"""),
        ("    # TODO: Include covariance in ellipsoid to ellipsoid distance\n", """    def _propose(self, pdf, ellipsoid):
        moved = ellipsoid.sample()
        moved = np.minimum(np.maximum(moved, self.space_min), self.space_max)
        self._num_q_samples += 1
        self._num_pi_evals += 1
        return moved, pdf.prob(moved)

    # TODO: Include covariance in ellipsoid to ellipsoid distance
""")]),
    dict(id="multi-vector", file=S + "multi_nested.py", props=SALL, edits=[
        ("        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])\n        W = X[:-1] - X[1:]\n",
         "        W = -np.diff(np.exp(-np.arange(len(self.samples) + 1) / self.N))\n"),
        ("                Lmin = np.min(values[c_ellipsoid.indices])\n\n                g_indices = np.argwhere(c_ellipsoid.indices == True).flatten()\n",
         "                g_indices = np.flatnonzero(c_ellipsoid.indices)\n                Lmin = values[g_indices].min()\n"),
        ("                min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]\n", "                min_idx = g_indices[int(values[g_indices].argmin())]\n"),
        ("        n_samples_ell = int(np.ceil(max(n_samples - len(self.samples), 0) / len(c_ellipsoids)))\n",
         "        missing = n_samples - len(self.samples)\n        n_samples_ell = -(-missing // len(c_ellipsoids)) if missing > 0 else 0\n"),
        ("        distance = 0\n        num_distances = 0\n        for i in range(len(c_ellipsoid)-1):\n            for j in range(i+1,len(c_ellipsoid)):\n                distance = distance + self.ellipsoid_distance(c_ellipsoid[i], c_ellipsoid[j])\n                num_distances = num_distances + 1\n        if distance / num_distances < cluster_min_distance:\n            if self.debug:\n                print(\"DEBUG: Rejected subdivision. Reason: distance %f\" % (distance / num_distances))\n",
         "        pairs = [(a, b) for i, a in enumerate(c_ellipsoid) for b in c_ellipsoid[i + 1:]]\n        mean_distance = sum(self.ellipsoid_distance(a, b) for a, b in pairs) / len(pairs)\n        if mean_distance < cluster_min_distance:\n            if self.debug:\n                print(\"DEBUG: Rejected subdivision. Reason: distance %f\" % mean_distance)\n")]),
    dict(id="multi-inline", file=S + "multi_nested.py", props=SALL, edits=[
        ("        for idx, c_ellipsoid in enumerate(c_ellipsoids):\n            for i in range(n_samples_ell):\n",
         "        for c_ellipsoid in c_ellipsoids:\n            taken = 0\n            while taken < n_samples_ell:\n                taken += 1\n"),
        ("                points[min_idx], values[min_idx] = new_sample, new_value\n", "                values[min_idx] = new_value\n                points[min_idx] = new_sample\n"),
        ("        values = target_d.prob(points)\n        self._num_pi_evals += len(points)\n", "        self._num_pi_evals += self.N\n        values = target_d.prob(points)\n")]),
]


def edit(src, pairs, b):
    for old, new in pairs:
        if src.count(old) < 1:
            sys.exit("%s: text not found: %r" % (b["id"], old[:90]))
        src = src.replace(old, new)
    return src


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    only = next((x[8:].replace(",", " ") for x in sys.argv if x.startswith("--props=")), None)
    runs = next((x[7:] for x in sys.argv if x.startswith("--runs=")), "600")
    bad = 0
    for b in BUGS:
        if b["edits"] is None or (a and b["id"] not in a):
            continue
        copy = tempfile.mkdtemp(prefix="benign-")
        shutil.rmtree(copy)
        subprocess.run(["cp", "-a", os.environ.get("SCREEN_BASE", "/repo"), copy], check=True)
        try:
            path = os.path.join(copy, b["file"])
            src = open(path).read()
            open(path, "w").write(edit(src, b["edits"], b))
            line = []
            for p in (only or b["props"]).split():
                r = subprocess.run(["timeout", "400", "python3", "check.py", p, "--runs", runs], cwd=HERE,
                                   env=dict(os.environ, SIM_REPO=copy), capture_output=True, text=True)
                if r.returncode:
                    bad += 1
                    v = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "violat" in x.lower()]
                    line.append("%s:%d %s" % (p, r.returncode, " ".join(v)[:200] or r.stderr[-200:]))
            print(b["id"], "QUIET" if not line else "ALARM " + " | ".join(line), flush=True)
        finally:
            shutil.rmtree(copy)
    sys.exit(bool(bad))


if __name__ == "__main__":
    main()
