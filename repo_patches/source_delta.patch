From ddbdc8109cc3889f4a0d8376a02880440ea1c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 01/16] fix: bootstrap_backward_smoother draws the terminal
 particle with its own subkey

The parent key was both split and consumed, and key_last was never used, so the
terminal draw was not independent of the keys of the backward steps.
---
 fbs/samplers/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index f35464b..168c5d8 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -106,7 +106,7 @@ def bootstrap_backward_smoother(key: JKey,
 
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
-    uT = jax.random.choice(key, filter_us[-1], axis=0)
+    uT = jax.random.choice(key_last, filter_us[-1], axis=0)
     traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
-- 
2.43.0


From e66ca8f627b372d0600359e53c0f6d2e9d2ad056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 02/16] fix: kl misses the factor 1/2

KL(N(m0, cov0) || N(m1, cov1)) was returned times two.
---
 fbs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 8a79862..293184f 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -48,6 +48,6 @@ def kl(m0, cov0, m1, cov1):
     chol1 = jax.scipy.linalg.cho_factor(cov1)
     log_det0 = _log_det(chol0[0])
     log_det1 = _log_det(chol1[0])
-    return (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
-            - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
-            + log_det1 - log_det0)
+    return 0.5 * (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
+                  - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
+                  + log_det1 - log_det0)
-- 
2.43.0


From cfc87ca9afbf58944f23013896f26dd80bff2f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 03/16] fix: Crescent.log_prior_pdf passes the variance as the
 standard deviation

The prior density was not the density of the distribution sampler draws from.
---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index de63431..8aa5b4a 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -36,7 +36,7 @@ class Crescent(Dataset):
 
     def log_prior_pdf(self, phi):
         if self.cov_is_diag:
-            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.diag(self.cov)))
+            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.sqrt(jnp.diag(self.cov))))
         else:
             return jax.scipy.stats.multivariate_normal.logpdf(phi, self.m, self.cov)
 
-- 
2.43.0


From 6a139e535be74e26dc060efe789430e5264aa9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 04/16] fix: euler_maruyama evaluates its sub-steps at wrong
 times on a decreasing time grid

With t_next < t and integration_nsteps > 1 the sub-step grid overshot t_next by
one sub-step, because the step length (not its sign) was subtracted.
---
 fbs/sdes/simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/simulators.py b/fbs/sdes/simulators.py
index 4ebd121..418996d 100644
--- a/fbs/sdes/simulators.py
+++ b/fbs/sdes/simulators.py
@@ -89,7 +89,8 @@ def euler_maruyama(key: JKey, x0: JArray, ts: JArray,
 
         ddt = jnp.abs(t_next - t) / integration_nsteps
         rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))
-        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - ddt, integration_nsteps)))[0]
+        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - (t_next - t) / integration_nsteps,
+                                                              integration_nsteps)))[0]
 
     def scan_body(carry, elem):
         x = carry
-- 
2.43.0


From 7ee502c01298c6ee39ccd473bfa4a1dd33931307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 05/16] fix: the CelebAHQ train and test sets overlap when
 their keys differ

The data were permuted by the key before the split, so the held-out images
depended on the key: with different keys (the experiments train with seed 666
and test with seed 996) test images were training images. Split first.
---
 fbs/data/images.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fbs/data/images.py b/fbs/data/images.py
index 4a38e6c..e07702d 100644
--- a/fbs/data/images.py
+++ b/fbs/data/images.py
@@ -196,15 +196,14 @@ class CelebAHQ(Image):
                  test: bool = False):
         self.task = task
         data = jnp.load(data_path)
-        data = jax.random.permutation(key, data, axis=0)
         data = self.standardise(data)
 
         if test:
             self.n = 1000
-            self.xs = data[:1000]
+            self.xs = jax.random.permutation(key, data[:1000], axis=0)
         else:
             self.n = 29000
-            self.xs = data[1000:]
+            self.xs = jax.random.permutation(key, data[1000:], axis=0)
 
         self.image_shape = (resolution, resolution, 3)
 
@@ -397,15 +396,14 @@ class CelebAHQRestore(ImageRestore):
                  test: bool = False):
         self.task = task
         data = jnp.load(data_path)
-        data = jax.random.permutation(key, data, axis=0)
         data = self.standardise(data).astype('float32')
 
         if test:
             self.n = 1000
-            self.xs = data[:1000]
+            self.xs = jax.random.permutation(key, data[:1000], axis=0)
         else:
             self.n = 29000
-            self.xs = data[1000:]
+            self.xs = jax.random.permutation(key, data[1000:], axis=0)
 
         super().__init__(task, (resolution, resolution, 3))
 
-- 
2.43.0


From 493160c8468455c4025f9bffe83f5d1c9516ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 06/16] fix: simulate_cond_forward(keep_path=False) fails for a
 vector of times

t0=None was not replaced by ts[0] as documented, and the discretisation at a
vector of times did not broadcast against a non-scalar state.
---
 fbs/sdes/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 31d579d..3989b8a 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -220,7 +220,8 @@ def make_linear_sde(sde: LinearSDE):
             rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))
             return jnp.concatenate([x0[jnp.newaxis], jax.lax.scan(scan_body, x0, (ts[1:], ts[:-1], rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_linear_sde(ts, t0)
+            Fs, Qs = discretise_linear_sde(ts, ts[0] if t0 is None else t0)
+            Fs, Qs = [jnp.reshape(c, (*ts.shape, *[1] * x0.ndim)) for c in (Fs, Qs)]
             rnds = jax.random.normal(key, (*ts.shape, *x0.shape))
             return Fs * x0 + jnp.sqrt(Qs) * rnds
 
-- 
2.43.0


From 237b05240c2f6ed8c337e0f03c5b5664b0506fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 07/16] fix: ImageRestore.unobs_shape for rectangles larger
 than the image

The inpainting mask is clamped to the image, the declared shape was not.
---
 fbs/data/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/images.py b/fbs/data/images.py
index e07702d..01c5db8 100644
--- a/fbs/data/images.py
+++ b/fbs/data/images.py
@@ -237,7 +237,7 @@ class ImageRestore(Dataset):
         w, h, c = image_shape
         s = int(task.split('-')[-1])
         if 'inpaint' in task:
-            self.unobs_shape = (s ** 2, c)
+            self.unobs_shape = (min(s, w) * min(s, h), c)
         elif 'supr' in task:
             self.unobs_shape = (int(w * h * (s ** 2 - 1) / s ** 2), c)
         else:
-- 
2.43.0


From 1faab237784b70b51fc9199df6b839de9ef5af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 08/16] fix: gibbs_kernel(explicit_final=False) fails when
 extra keyword arguments are given

The conditional SMC forward pass hands **kwargs to init_likelihood_logpdf, which
accepted none in this branch (e.g. the inpainting mask of the image experiments).
---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index a8fab78..38dbd34 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -140,7 +140,7 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
         def init_sampler(*_):
             return us[0] * jnp.ones((nparticles, *us.shape[1:]))
 
-        def init_likelihood_logpdf(*_):
+        def init_likelihood_logpdf(*_, **__):
             return -math.log(nparticles) * jnp.ones(nparticles)
 
     if explicit_backward:
-- 
2.43.0


From 82d31740fc5ec3f8ef4fc901a17c3dec6208de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 09/16] fix: Crescent.posterior integrates each mesh axis
 against its own grid

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 8aa5b4a..dcc6fc9 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -52,7 +52,7 @@ class Crescent(Dataset):
         def energy(phi): return jnp.exp(self.log_prior_pdf(phi) + self.log_cond_pdf_likelihood(y, phi))
 
         evals = jax.vmap(jax.vmap(energy, in_axes=[0]), in_axes=[0])(phi_mesh)
-        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=0),
+        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=1),
                                           phi_mesh[:, 0, 1])
         return evals / z
 
-- 
2.43.0


From 4f71a1e9f5a416a7373564e169f0491e4edb73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 10/16] fix: colour reference draws with L z instead of L^T z
 in the Gaussian experiments

---
 experiments/sb/filter.py     | 2 +-
 experiments/sb/gibbs.py      | 2 +-
 experiments/toy/gp_filter.py | 2 +-
 experiments/toy/gp_gibbs.py  | 2 +-
 experiments/toy/gp_kf.py     | 2 +-
 experiments/toy/gp_pmcmc.py  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 5e7800b..cd08e2f 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -128,7 +128,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_ys_sampler_proper(key_):
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 03426be..c7ac046 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -135,7 +135,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 889e520..5150f07 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -124,7 +124,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_ys_sampler(key_, y0_):
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 7d344c4..6cc194f 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -138,7 +138,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index e0ce923..f385c9a 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -153,7 +153,7 @@ def conditional_sampler(key_):
     vs = path_y[::-1]
     u0_mean, u0_cov = ref_solver(vs[0])
     x0_mean, x0_cov = adhoc_kf(u0_mean, u0_cov, vs)
-    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov)
+    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov).T
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 0ede830..bc69582 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -130,7 +130,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
-- 
2.43.0


From dabd953790723d6af266382b18c6a208ec2bd675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 11/16] fix: draw the terminal reference of the CSGM toy
 experiment with the root of its covariance

---
 experiments/toy/gp_csgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b614822..b0253bd 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -73,7 +73,7 @@ cond_cov_ref = F_ref ** 2 * cov_mat + Q_ref * jnp.eye(d) - F_ref * cov_mat @ jax
 
 
 def cond_ref_sampler(key_):
-    return cond_m_ref + cond_cov_ref @ jax.random.normal(key_, (d,))
+    return cond_m_ref + jnp.linalg.cholesky(cond_cov_ref) @ jax.random.normal(key_, (d,))
 
 
 # The reverse process
-- 
2.43.0


From be5bffc9b756052e3352fa28fed8f3cd6bf0222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 12/16] fix: give the Kalman filter of the toy experiment
 covariances instead of standard deviations

---
 experiments/toy/gp_kf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index f385c9a..5df3bd9 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -105,7 +105,7 @@ def cond_state_mean(u_prev, v_prev, t_prev):
 
 
 def cond_state_cov(t_prev):
-    return math.sqrt(dt) * reverse_dispersion(t_prev) * jnp.eye(d)
+    return dt * reverse_dispersion(t_prev) ** 2 * jnp.eye(d)
 
 
 def cond_obs_mean(u_prev, v_prev, t_prev):
@@ -113,7 +113,7 @@ def cond_obs_mean(u_prev, v_prev, t_prev):
 
 
 def cond_obs_cov(t_prev):
-    return math.sqrt(dt) * reverse_dispersion(t_prev) * jnp.eye(d)
+    return dt * reverse_dispersion(t_prev) ** 2 * jnp.eye(d)
 
 
 def ref_solver(yT):
-- 
2.43.0


From 0da20c39b404adf9433f4cf8c0dc7afc456915b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:20 +0000
Subject: [PATCH 13/16] fix: colour the exact posterior draws of the bridge
 experiments with L z

---
 experiments/sb/filter.py | 2 +-
 experiments/sb/gibbs.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index cd08e2f..da17a13 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -49,7 +49,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index c7ac046..85f9ffb 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -51,7 +51,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
-- 
2.43.0


From 85f413738135576fbc50cb28ca6d9d82e89f2ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 14/16] fix: start the particle MCMC of the toy experiment from
 the likelihood estimate of its initial path

---
 experiments/toy/gp_pmcmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index bc69582..0d8b806 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -146,9 +146,9 @@ def pmcmc_init(key_):
     key_fwd, key_bwd, key_bf, key_ys = jax.random.split(key_, num=4)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    x0s, log_ell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                    stratified, log=True, return_last=True)
-    return x0s[0], log_ell, fwd_ys_sampler(key_ys, y0)
+    x0s, nell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                 stratified, log=True, return_last=True)
+    return x0s[0], -nell, path_y
 
 
 # pMCMC kernel
-- 
2.43.0


From f4ff3425807656966de4b76c710eb54e623f5955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 15/16] fix: score training gave the loss the key that also
 made the data permutation

---
 experiments/imgs/train.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/imgs/train.py b/experiments/imgs/train.py
index d2f5d6f..501e746 100644
--- a/experiments/imgs/train.py
+++ b/experiments/imgs/train.py
@@ -111,7 +111,8 @@ opt_state = optimiser.init(param)
 
 for i in range(nepochs):
     data_key, subkey = jax.random.split(data_key)
-    perm_inds = dataset.init_enumeration(subkey, train_nsamples)
+    subkey, subkey2 = jax.random.split(subkey)
+    perm_inds = dataset.init_enumeration(subkey2, train_nsamples)
     for j in range(nsteps_per_epoch):
         subkey, subkey2 = jax.random.split(subkey)
         x0s = dataset.enumerate_subset(j, perm_inds, subkey)
-- 
2.43.0


From ba8ce130b95441814f25856f74478cfa7d483a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 16/16] fix: bridge training drew permutations and reference
 samples with keys that also seed the loss

---
 experiments/sb_imgs/train.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/experiments/sb_imgs/train.py b/experiments/sb_imgs/train.py
index ccc3310..3cea334 100644
--- a/experiments/sb_imgs/train.py
+++ b/experiments/sb_imgs/train.py
@@ -171,7 +171,8 @@ def sb_kernel(param_fwd_, param_bwd_, opt_state_fwd_, opt_state_bwd_, key_data,
     # Learn the backward process, i.e., data <- ref
     for i in range(nepochs):
         key_data, subkey = jax.random.split(key_data)
-        perm_inds = dataset.init_enumeration(subkey, train_nsamples)
+        subkey, subkey2 = jax.random.split(subkey)
+        perm_inds = dataset.init_enumeration(subkey2, train_nsamples)
         for j in range(nsteps_per_epoch):
             subkey, subkey2 = jax.random.split(subkey)
             x0s = dataset.enumerate_subset(j, perm_inds, subkey)
@@ -188,8 +189,8 @@ def sb_kernel(param_fwd_, param_bwd_, opt_state_fwd_, opt_state_bwd_, key_data,
     for i in range(nepochs):
         key_data, subkey = jax.random.split(key_data)
         for j in range(nsteps_per_epoch):
-            subkey, subkey2 = jax.random.split(subkey)
-            xTs = jax.random.normal(subkey, (train_nsamples, *d))
+            subkey, subkey2, subkey3 = jax.random.split(subkey, num=3)
+            xTs = jax.random.normal(subkey3, (train_nsamples, *d))
             param_fwd_, opt_state_fwd_, loss = optax_kernel_fwd(param_fwd_, opt_state_fwd_, param_bwd_, subkey2, xTs)
             print(f'{dataset_name} | Learning fwd ({args.sde}) | SB iter: {sb_step} | Epoch: {i} / {nepochs}, '
                   f'iter: {j} / {data_size // train_nsamples} | loss: {loss:.4f}')
-- 
2.43.0

