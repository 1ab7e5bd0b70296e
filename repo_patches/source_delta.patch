From cff169267537143d26e9b982c19b0f1239db5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 01/28] fix: resume a warm-up checkpoint at the next prior
 batch instead of repeating all of them

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 7c7f2ff..a053f96 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -440,7 +440,7 @@ class Sampler:
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
-            for i in range(self.n_prior//self.n_active):
+            for i in range(self.t, self.n_prior//self.n_active):
                 if save_every is not None:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
-- 
2.43.0


From 2e192d33a3399cec4850ea281aed9707ef9ab1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 02/28] fix: results are recomputed after new particles are
 added

---
 pocomc/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b96656c..14ff6a7 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -146,6 +146,8 @@ class Particles:
                 value = data.get(key)
                 # Save to past states
                 self.past.get(key).append(value)
+        # Results computed from an earlier history are out of date
+        self.results_dict = None
 
     def pop(self, key):
         """
-- 
2.43.0


From 776628bf69c0cd681626094d3a8aaf62104837a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 03/28] fix: keep the calls spent on the evidence in the call
 counter when a run is continued

---
 pocomc/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index a053f96..155e362 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -626,8 +626,8 @@ class Sampler:
         current_particles["efficiency"] = results.get('efficiency') / (2.38 / self.n_dim ** 0.5)
         current_particles["steps"] = results.get('steps')
         current_particles["accept"] = results.get('accept')
-        current_particles["calls"] = current_particles.get("calls") + results.get('calls')
-        self.calls = current_particles.get("calls")
+        self.calls += results.get('calls')
+        current_particles["calls"] = self.calls
         self.proposal_scale = results.get('proposal_scale')
 
         return current_particles
-- 
2.43.0


From ccf9195f960cee8e238ad16e798ccbe0a55dfc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 04/28] fix: support blobs stored as object arrays (e.g.
 strings) in the MCMC kernels

---
 pocomc/mcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 2455f26..4de92e9 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -111,7 +111,7 @@ def preconditioned_pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -279,7 +279,7 @@ def preconditioned_rwm(state_dict: dict,
         # Compute log-likelihood, log-prior, and log-posterior
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -440,7 +440,7 @@ def pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -594,7 +594,7 @@ def rwm(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
-- 
2.43.0


From 6498ed6e78df417245482b4c54febc3909d2e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 05/28] fix: count importance samples outside of the prior
 support in the evidence estimate

---
 pocomc/sampler.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 155e362..e6d5e43 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -894,17 +894,13 @@ class Sampler:
         # compute log prior
         logp = self.log_prior(x_q)
 
-        # keep only finite values
-        x_q = x_q[np.isfinite(logp)]
-        logdetj = logdetj[np.isfinite(logp)]
-        logq = logq[np.isfinite(logp)]
-        logp = logp[np.isfinite(logp)]
+        # compute log likelihood only where the prior is finite
+        finite = np.isfinite(logp)
+        logl, _ = self._log_like(x_q[finite])
 
-        # compute log likelihood
-        logl, _ = self._log_like(x_q)
-
-        # compute log weights
-        logw = logl + logp + logdetj - logq 
+        # compute log weights (samples outside of the prior support have zero weight)
+        logw = np.full(len(logp), -np.inf)
+        logw[finite] = logl + logp[finite] + logdetj[finite] - logq[finite]
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
@@ -912,7 +908,7 @@ class Sampler:
         # compute error on log evidence
         dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
 
-        self.calls += len(logw)
+        self.calls += np.sum(finite)
         self.pbar.update_stats(dict(calls=self.calls))
 
         self.logz = logz
-- 
2.43.0


From 689450d39446c525d1de7ca871e0a2d80ce37393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 06/28] fix: systematic resampling never runs past the end of
 the weights nor selects a zero weight

---
 pocomc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 1d0c872..faf55a3 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -175,10 +175,11 @@ def systematic_resample(size: np.ndarray,
     positions = (np.random.random() + np.arange(size)) / size
 
     j = 0
+    last = np.flatnonzero(weights)[-1]  # rounding must not push a position past the last weight
     cumulative_sum = weights[0]
     indeces = np.empty(size, dtype=int)
     for i in range(size):
-        while positions[i] > cumulative_sum:
+        while positions[i] >= cumulative_sum and j < last:
             j += 1
             cumulative_sum += weights[j]
         indeces[i] = j
-- 
2.43.0


From 4057b86012ff09a4070c9f1cb375cf0b3c6140dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 07/28] fix: points exactly on a parameter bound are mapped to
 a finite latent value

---
 pocomc/scaler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index e1f9b3b..47dc566 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -324,7 +324,7 @@ class Reparameterize:
         -------
         Transformed input data
         """
-        return np.log(x[:, self.mask_left] - self.low[self.mask_left])
+        return np.log(np.maximum(x[:, self.mask_left] - self.low[self.mask_left], np.finfo(float).tiny))
 
     def _inverse_left(self, u: np.ndarray):
         """
@@ -357,7 +357,7 @@ class Reparameterize:
         -------
         Transformed input data
         """
-        return np.log(self.high[self.mask_right] - x[:, self.mask_right])
+        return np.log(np.maximum(self.high[self.mask_right] - x[:, self.mask_right], np.finfo(float).tiny))
 
     def _inverse_right(self, u: np.ndarray):
         """
@@ -389,13 +389,14 @@ class Reparameterize:
         -------
         Transformed input data
         """
+        eps = np.finfo(float).epsneg
         p = (x[:, self.mask_both] - self.low[self.mask_both]) / (self.high[self.mask_both] - self.low[self.mask_both])
-        np.clip(p, 1e-13, 1.0 - 1e-13)
+        p = np.clip(p, np.finfo(float).tiny, 1.0 - eps)
 
         if self.transform == "logit":
             u = np.log(p / (1.0 - p))
         elif self.transform == "probit":
-            u = np.sqrt(2.0) * erfinv(2.0 * p - 1.0)
+            u = np.sqrt(2.0) * erfinv(np.maximum(2.0 * p - 1.0, -1.0 + eps))
 
         return u
 
-- 
2.43.0


From 08938182b00397717761a96e6531c6e1af0026e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 08/28] fix: mutation with blobs when every proposal lies
 outside of the prior support

---
 pocomc/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index e6d5e43..918d819 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -827,6 +827,9 @@ class Sampler:
         else:
             results = list(map(self.log_likelihood, x))
 
+        # No point to evaluate, hence no new blobs (but of the known type)
+        if len(results) == 0 and self.have_blobs:
+            return np.empty(0), self.current_particles["blobs"][:0]
 
         try:
             blob = [l[1:] for l in results if len(l) > 1]
-- 
2.43.0


From 509c57345595c7220bef98c15c7e51e2b9e304c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 09/28] fix: random-walk Metropolis for one-dimensional
 problems

---
 pocomc/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/geometry.py b/pocomc/geometry.py
index f97a621..30f56cc 100644
--- a/pocomc/geometry.py
+++ b/pocomc/geometry.py
@@ -42,10 +42,10 @@ class Geometry:
         # Learn normal distribution
         if weights is None:
             self.normal_mean = np.mean(theta, axis=0)
-            self.normal_cov = np.cov(theta.T)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T))
         else:
             self.normal_mean = np.average(theta, axis=0, weights=weights)
-            self.normal_cov = np.cov(theta.T, aweights=weights)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T, aweights=weights))
 
         # Learn t distribution
         if weights is not None:
-- 
2.43.0


From 5ace9e708ccad4570a44e39ec3666cb3a3451802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 10/28] fix: keep the proposal scale of the preconditioned
 random-walk Metropolis positive

---
 pocomc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 4de92e9..a151667 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -311,7 +311,7 @@ def preconditioned_rwm(state_dict: dict,
             blobs[mask] = blobs_prime[mask]
 
         # Adapt scale parameter using diminishing adaptation
-        sigma = sigma + 1 / (i + 1) * (np.mean(alpha) - 0.234)
+        sigma = np.abs(sigma + 1 / (i + 1) * (np.mean(alpha) - 0.234))
 
         # Update progress bar if available
         if progress_bar is not None:
-- 
2.43.0


From 372b46161ad762e2a6bb06e0fc857b4515f93621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 11/28] fix: trimming stops at the full sample when rounding
 keeps its ESS below the threshold

---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index faf55a3..6ce9a17 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -46,7 +46,7 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
         weights_trimmed = weights[mask]
         weights_trimmed /= np.sum(weights_trimmed)
         ess_trimmed = 1.0 / np.sum(weights_trimmed**2.0)
-        if ess_trimmed / ess_total >= ess:
+        if ess_trimmed / ess_total >= ess or i == 0:
             break 
         i -= 1
     
-- 
2.43.0


From a9fe6b13d52d0cb4b508a85f848f5fd865eb09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 12/28] fix: training noise scales with the mean
 nearest-neighbour distance

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index ec4e00b..2b8c179 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -242,7 +242,7 @@ class Flow:
             for i in range(n_samples):
                 min_dist = torch.linalg.norm(x[i] - x, axis=1)
                 min_dists[i] = torch.min(min_dist[min_dist > 0.0])
-            mean_min_dist = torch.mean(min_dist)
+            mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
             x_train = x[:int(validation_split * n_samples)]
-- 
2.43.0


From 9644cb38b62ed3bb27b9b4f55b6cdfcc2998e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 13/28] fix: weight regularization works with the supported
 zuko versions

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 2b8c179..0e2f52d 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -404,7 +404,7 @@ def regularization_loss(model, laplace_scale=None, gaussian_scale=None):
     total_laplace = 0.0
     total_gaussian = 0.0
 
-    for i, transform in enumerate(model.transforms):
+    for transform in model.modules():
         if hasattr(transform, "hyper"):
             for parameter_name, parameter in transform.hyper.named_parameters():
                 if parameter_name.endswith('weight'):
-- 
2.43.0


From ec59324565a02b390d567b505d000a897ed38f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 14/28] fix: pool=1 runs in serial mode instead of failing

---
 pocomc/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 918d819..dc43f96 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -270,6 +270,9 @@ class Sampler:
         elif isinstance(pool, int) and pool > 1:
             self.pool = Pool(pool)
             self.distribute = self.pool.map
+        elif isinstance(pool, int):
+            self.pool = None
+            self.distribute = map
         else:
             self.distribute = pool.map
 
-- 
2.43.0


From e672515ea01a3d3e3b26714bb048ef3ce7530040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 15/28] fix: create missing parent directories of the
 checkpoint directory

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index dc43f96..1e10361 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1031,7 +1031,7 @@ class Sampler:
             Path to save state.
         """
         print(f'Saving PMC state to {path}')
-        Path(path).parent.mkdir(exist_ok=True)
+        Path(path).parent.mkdir(parents=True, exist_ok=True)
         temp_path = Path(path).with_suffix('.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
-- 
2.43.0


From 575ad8c7906e4851cba5133437c17c45f1065b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 16/28] fix: record the iteration index of every iteration, not
 only of the warm-up

---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 1e10361..17303c5 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -732,6 +732,7 @@ class Sampler:
             Dictionary containing the updated particles.
         """
         # Update iteration index
+        current_particles["iter"] = self.t
         self.t += 1
         self.pbar.update_iter()
 
-- 
2.43.0


From f53edd8968258b1d161a7d43b46bc0205c566278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 17/28] fix: treat NaN log-likelihoods of prior and evidence
 samples as zero likelihood, as the MCMC does

---
 pocomc/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 17303c5..39c05cf 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -455,8 +455,8 @@ class Sampler:
                 logl, blobs = self._log_like(x)
                 self.calls += self.n_active
 
-                # Resample prior particles with infinite likelihoods
-                inf_logl_mask = np.isinf(logl)
+                # Resample prior particles with infinite (or undefined) likelihoods
+                inf_logl_mask = ~np.isfinite(logl)
                 if np.any(inf_logl_mask):
                     all_idx = np.arange(len(x))
                     infinite_idx = all_idx[inf_logl_mask]
@@ -908,6 +908,7 @@ class Sampler:
         # compute log weights (samples outside of the prior support have zero weight)
         logw = np.full(len(logp), -np.inf)
         logw[finite] = logl + logp[finite] + logdetj[finite] - logq[finite]
+        logw[np.isnan(logw)] = -np.inf
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
-- 
2.43.0


From 6f9758fb11f241682d12040e299ab43ce861e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:45 +0000
Subject: [PATCH 18/28] fix: the SMC evidence accounts for the prior mass with
 zero likelihood

---
 pocomc/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 39c05cf..0d948e4 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -473,7 +473,7 @@ class Sampler:
                 self.current_particles = dict(u=u,x=x,logl=logl,logp=logp,logdetj=logdetj,
                                     logw=-1e300 * np.ones(self.n_active), blobs=blobs, iter=self.t,
                                     calls=self.calls, steps=1, efficiency=1.0, ess=self.n_effective, 
-                                    accept=1.0, beta=0.0, logz=0.0)
+                                    accept=1.0, beta=0.0, logz=np.log(np.mean(~inf_logl_mask)))
                 
                 self.particles.update(self.current_particles)
 
@@ -489,6 +489,10 @@ class Sampler:
                 self.pbar.update_iter()
 
                 self.t += 1
+            # The particles follow the prior restricted to finite likelihood, normalise by its prior mass
+            logz = np.log(np.mean(np.exp(self.particles.get("logz"))))
+            self.particles.past["logz"] = [logz] * len(self.particles.past["logz"])
+            self.current_particles["logz"] = logz
             self.warmup = False
 
         # Run Sequential Monte Carlo
-- 
2.43.0


From 71badb0e2ad62683dc805323305997e20e861d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:13 +0000
Subject: [PATCH 19/28] fix: default bounds of the reparameterisation are
 unbounded

Reparameterize(n_dim) without bounds set the lower bounds to +inf, so that every point was rejected.
---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 47dc566..b5b7ad1 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -54,7 +54,7 @@ class Reparameterize:
         self.ndim = n_dim
 
         if bounds is None:
-            bounds = np.full((self.ndim, 2), np.inf)
+            bounds = np.tile([-np.inf, np.inf], (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
             bounds = np.tile(np.array(bounds, dtype=np.float32).reshape(2, 1), self.ndim).T
         assert_array_float(bounds)
-- 
2.43.0


From e82f0f59d4e9924ce717ce23ac50b87ee5b7c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:40 +0000
Subject: [PATCH 20/28] fix: boundary conditions hold for points any distance
 outside of the bounds

Reflected points more than one width away stayed outside of the bounds, and the wrapping loop never ended for large values.
---
 pocomc/scaler.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index b5b7ad1..420664a 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -124,11 +124,9 @@ class Reparameterize:
         if self.periodic is not None:
             x = x.copy()
             for i in self.periodic:
-                for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.low[i] + x[j, i] - self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.high[i] + x[j, i] - self.low[i]
+                low, high = self.low[i], self.high[i]
+                out = (x[:, i] < low) | (x[:, i] > high)
+                x[out, i] = np.clip(low + np.mod(x[out, i] - low, high - low), low, high)
         return x
 
     def _apply_reflective_boundary_conditions_x(self, x: np.ndarray):
@@ -148,11 +146,16 @@ class Reparameterize:
         if self.reflective is not None:
             x = x.copy()
             for i in self.reflective:
-                for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.high[i] - x[j, i] + self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.low[i] + self.low[i] - x[j, i]
+                low, high = self.low[i], self.high[i]
+                out = (x[:, i] < low) | (x[:, i] > high)
+                if np.isfinite(high - low):
+                    # Distance from the lower bound, unfolded over a full period of two reflections
+                    d = np.mod(x[out, i] - low, 2.0 * (high - low))
+                    x[out, i] = np.clip(high - np.abs(d - (high - low)), low, high)
+                elif np.isfinite(low):
+                    x[out, i] = low + low - x[out, i]
+                else:
+                    x[out, i] = high + high - x[out, i]
 
         return x
 
-- 
2.43.0


From 1c1aad24c6095d635af6b43aa3c9cbe77b693ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:54 +0000
Subject: [PATCH 21/28] fix: the temporary file of save_state is never the
 checkpoint itself

Saving to a path with the suffix .temp wrote the checkpoint in place, so a crash destroyed it.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 0d948e4..8145036 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1038,7 +1038,7 @@ class Sampler:
         """
         print(f'Saving PMC state to {path}')
         Path(path).parent.mkdir(parents=True, exist_ok=True)
-        temp_path = Path(path).with_suffix('.temp')
+        temp_path = Path(f'{path}.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
             del state['pbar']  # Cannot be pickled
-- 
2.43.0


From a17904c94f7879f46955583a3dde4091be804306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:29 +0000
Subject: [PATCH 22/28] fix: resuming a state that was saved before the first
 iteration

---
 pocomc/sampler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 8145036..e32463a 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -410,14 +410,15 @@ class Sampler:
             t0 = self.t
             # Initialise progress bar
             self.pbar = ProgressBar(self.progress, initial=t0)
-            self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
-                                        calls=self.particles.get("calls", -1),
-                                        ESS=self.particles.get("ess", -1),
-                                        logZ=self.particles.get("logz", -1),
-                                        logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
-                                        acc=self.particles.get("accept", -1),
-                                        steps=self.particles.get("steps", -1),
-                                        eff=self.particles.get("efficiency", -1)))
+            if t0 > 0:
+                self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
+                                            calls=self.particles.get("calls", -1),
+                                            ESS=self.particles.get("ess", -1),
+                                            logZ=self.particles.get("logz", -1),
+                                            logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
+                                            acc=self.particles.get("accept", -1),
+                                            steps=self.particles.get("steps", -1),
+                                            eff=self.particles.get("efficiency", -1)))
         else:
             t0 = self.t
             # Run parameters
-- 
2.43.0


From 9b60ead5864fb6fc04c2b07b4013637ec4e6fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:44 +0000
Subject: [PATCH 23/28] fix: closing the MPI pool twice stops every worker only
 once

The pool is closed explicitly and again at exit; the second message to a worker that has left blocks when sends are synchronous.
---
 pocomc/parallel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pocomc/parallel.py b/pocomc/parallel.py
index 19a0511..606da1b 100644
--- a/pocomc/parallel.py
+++ b/pocomc/parallel.py
@@ -158,8 +158,9 @@ class MPIPool:
         if self.is_worker():
             return
 
-        for worker in self.workers:
-            self.comm.send(None, worker, 0)
+        # Workers leave only once, but the pool is closed again at exit
+        while self.workers:
+            self.comm.send(None, self.workers.pop(), 0)
 
 
     def is_master(self):
-- 
2.43.0


From f94a775c02c5229e12cece69ec571ee51ac2e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 24/28] fix: validation_split is the fraction of samples used
 for validation, not for training

---
 pocomc/flow.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 0e2f52d..48b7cb4 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -245,14 +245,15 @@ class Flow:
             mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
-            x_train = x[:int(validation_split * n_samples)]
-            x_valid = x[int(validation_split * n_samples):]
+            n_train = n_samples - int(validation_split * n_samples)
+            x_train = x[:n_train]
+            x_valid = x[n_train:]
             if weights is None:
                 train_dl = DataLoader(TensorDataset(x_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid), batch_size, shuffle)
             else:
-                weights_train = weights[:int(validation_split * n_samples)]
-                weights_valid = weights[int(validation_split * n_samples):]
+                weights_train = weights[:n_train]
+                weights_valid = weights[n_train:]
                 train_dl = DataLoader(TensorDataset(x_train, weights_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid, weights_valid), batch_size, shuffle)
             validation = True
-- 
2.43.0


From eec7af1cf2f1476f57b2a68f107aead059d13774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 25/28] fix: an interrupted iteration leaves no trace, so that
 the run can be continued

---
 pocomc/sampler.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index e32463a..8415ddb 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -502,17 +502,24 @@ class Sampler:
                 if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                     self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
 
-            # Choose next beta based on ESS of weights
-            self.current_particles = self._reweight(self.current_particles)
+            # An iteration that is interrupted leaves no trace
+            before = self.t, self.n_effective, self.current_particles
+            self.current_particles = self.current_particles.copy()
+            try:
+                # Choose next beta based on ESS of weights
+                self.current_particles = self._reweight(self.current_particles)
 
-            # Train Preconditioner
-            self.current_particles = self._train(self.current_particles)
+                # Train Preconditioner
+                self.current_particles = self._train(self.current_particles)
 
-            # Resample particles
-            self.current_particles = self._resample(self.current_particles)
+                # Resample particles
+                self.current_particles = self._resample(self.current_particles)
 
-            # Evolve particles using MCMC
-            self.current_particles = self._mutate(self.current_particles)   
+                # Evolve particles using MCMC
+                self.current_particles = self._mutate(self.current_particles)
+            except BaseException:
+                self.t, self.n_effective, self.current_particles = before
+                raise
 
             # Save particles
             self.particles.update(self.current_particles)
@@ -659,7 +666,6 @@ class Sampler:
         w = current_particles.get("weights")
 
         if self.preconditioned and (self.t % self.train_frequency == 0 or current_particles.get("beta")==1.0 or self.flow_untrained):
-            self.flow_untrained = False
             self.flow.fit(numpy_to_torch(u),
                           weights=numpy_to_torch(w),
                           validation_split=self.train_config["validation_split"],
@@ -678,6 +684,7 @@ class Sampler:
             
             theta = flow_numpy_wrapper(self.flow).forward(u)[0]
             self.theta_geometry.fit(theta, weights=w)
+            self.flow_untrained = False
         else:
             self.u_geometry.fit(u, weights=w)
 
-- 
2.43.0


From bbd15d0e28db9685be3cb7d20cab59f0ef8de73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:04 +0000
Subject: [PATCH 26/28] fix: log-determinant of the logit transform next to the
 upper bound

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 420664a..c2f1543 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -421,7 +421,7 @@ class Reparameterize:
         if self.transform == "logit":
             p = np.exp(-np.logaddexp(0, -u[:, self.mask_both]))
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + np.log(p) + np.log(1.0 - p)
+            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + np.log(p) - np.logaddexp(0, u[:, self.mask_both])
         elif self.transform == "probit":
             p = ( erf(u[:, self.mask_both] / np.sqrt(2.0)) + 1.0 ) / 2.0
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-- 
2.43.0


From 975b22fbe47b4e43bd09a7b85e97fef03afa72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:14 +0000
Subject: [PATCH 27/28] fix: the arrays in results belong to the caller

---
 pocomc/particles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index 14ff6a7..16ce2f6 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -300,5 +300,6 @@ class Particles:
             self.results_dict["logw"] = logw
             #self.results_dict["ess"] = np.exp(log_ess)
 
-        return self.results_dict
+        # The caller owns what is returned: changing it must not change later results
+        return {key: np.copy(value) for key, value in self.results_dict.items()}
 
-- 
2.43.0


From de42ebe710ca2afbd27532a46465e306878ef557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:57 +0000
Subject: [PATCH 28/28] fix: a StopIteration of the likelihood does not shorten
 the results

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 8415ddb..9249ab1 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -841,7 +841,7 @@ class Sampler:
         elif self.pool is not None:
             results = list(self.distribute(self.log_likelihood, x))
         else:
-            results = list(map(self.log_likelihood, x))
+            results = [self.log_likelihood(x_i) for x_i in x]
 
         # No point to evaluate, hence no new blobs (but of the known type)
         if len(results) == 0 and self.have_blobs:
-- 
2.43.0

