From 59b71b2e79c036b4a960951cf18f7f68dabe872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 01/25] fix: np.int no longer exists, so vectorize failed on
 every tensor

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From c726b5a50a19cabc60c89c1ce7e3c641b1f5e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 02/25] fix: SGLDSampler ignored the caller's stepsize schedule

---
 pysgmcmc/samplers/sgld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..81cd05b 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -96,7 +96,8 @@ class SGLDSampler(BurnInMCMCSampler):
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
             burn_in_steps=burn_in_steps, seed=seed,
-            session=session, dtype=dtype
+            session=session, dtype=dtype,
+            stepsize_schedule=stepsize_schedule
         )
 
         n_params = len(params)
-- 
2.43.0


From 300f10a014e95492d7f23901a1282c09b3da8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 03/25] fix: shuffled batches permuted the caller's dataset in
 place

---
 pysgmcmc/data_batches.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..83d551e 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,8 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # batches are views into `x` and `y`: shuffle copies, not the dataset
+        batch = {placeholder: data.copy() for placeholder, data in batch.items()}
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From facb3a064ed3a1a6e878c9ab001d7fba44c1e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 04/25] fix: sign of the repulsive term in the SVGD update

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..458fe7d 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From 4469efd0b05effcb549ac317486af73ab771b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 05/25] fix: SVGD gradients lost a dimension for particles with
 one element or a single particle

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 458fe7d..fd16fa2 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -118,7 +118,7 @@ class SVGDSampler(MCMCSampler):
             tf.variables_initializer([historical_grad, self.epsilon])
         )
 
-        lnpgrad = tf.squeeze(tf.gradients(self.cost, self.particles))
+        lnpgrad, = tf.gradients(self.cost, self.particles)
 
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
-- 
2.43.0


From b8f0dd24e031c1a082a1a60ffa98fd1bee7b1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 06/25] fix: SVGDSampler rejected cost functions without a
 __name__

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index fd16fa2..d6e06e0 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -87,7 +87,7 @@ class SVGDSampler(MCMCSampler):
         def cost_fun_wrapper(params):
             return tf.map_fn(lambda particle: cost_fun(particle), self.particles)
 
-        cost_fun_wrapper.__name__ = cost_fun.__name__
+        cost_fun_wrapper.__name__ = getattr(cost_fun, "__name__", "cost_fun")
 
         super().__init__(
             params=particles,
-- 
2.43.0


From f72a997ba9d479cc5ab614d42436c3aadb70ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 07/25] fix: a second SVGDSampler in one graph failed on a
 variable name clash

---
 pysgmcmc/samplers/svgd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index d6e06e0..953c1bb 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -109,9 +109,9 @@ class SVGDSampler(MCMCSampler):
             self.particles.shape[0], self.dtype
         )
 
-        historical_grad = tf.get_variable(
-            "historical_grad", self.particles.shape, dtype=dtype,
-            initializer=tf.zeros_initializer()
+        historical_grad = tf.Variable(
+            tf.zeros(self.particles.shape, dtype=dtype), dtype=dtype,
+            name="historical_grad", trainable=False
         )
 
         self.session.run(
-- 
2.43.0


From 3b964cb74f07b0d8b894fe2fa638752e8e42b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 08/25] fix: keep_every was ignored when extracting a trace
 from a sampler

---
 pysgmcmc/diagnostics/sample_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..be0e613 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,7 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
         # ensure all sampler target parameters have a name
-- 
2.43.0


From b1fec35750ae2e8b685b48907a784c509328ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 09/25] fix: slicing a trace sliced its samples with the
 parameter slice

---
 pysgmcmc/diagnostics/sample_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index be0e613..51234cf 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -232,7 +232,7 @@ class PYSGMCMCTrace(object):
         # XXX: Set chain_id to something unique, instead of self.chain
         return PYSGMCMCTrace(
             chain_id=self.chain,
-            samples=self.samples[slice_],
+            samples=[sample[slice_] for sample in self.samples],
             varnames=self.varnames[slice_]
         )
 
-- 
2.43.0


From ad2f8d449661164a93f2574176abd7e03a71c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 10/25] fix: scipy.misc.logsumexp no longer exists

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..d5e937b 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From 7e6313b359451de8ed5c4af0f887f7143579d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 11/25] fix: BNN training did not check the shapes of its
 inputs

---
 pysgmcmc/models/bayesian_neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..011e66c 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -387,7 +387,7 @@ class BayesianNeuralNetwork(object):
 
         return -log_like, tf.reduce_mean(mse)
 
-    @BaseModel._check_shapes_predict
+    @BaseModel._check_shapes_train
     def train(self, X, y, *args, **kwargs):
         """ Train our Bayesian Neural Network using input datapoints `X`
             with corresponding labels `y`.
-- 
2.43.0


From adf18718ea776314bc01574fe456f5c1eff2e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 12/25] fix: the BNN likelihood was scaled by a batch size
 larger than the dataset

---
 pysgmcmc/models/bayesian_neural_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 011e66c..5d5c4d8 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -374,7 +374,10 @@ class BayesianNeuralNetwork(object):
         )
 
         # scale by batch size to make this work nicely with the updaters above
-        log_like = log_like / tf.constant(self.batch_size, dtype=self.dtype)
+        # batches never hold more datapoints than the dataset does
+        log_like = log_like / tf.constant(
+            min(self.batch_size, self.X.shape[0]), dtype=self.dtype
+        )
 
         # scale the priors by the dataset size for the same reason
         n_examples = tf.constant(self.X.shape[0], self.dtype, name="n_examples")
-- 
2.43.0


From 7043d4da74ae227596cdd8a304e46c41107858f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 13/25] fix: feeds passed by the caller were dropped after
 burn-in

---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..45fad79 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From 49c0053a73466c4fada447ed54dd6c796c602039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 14/25] fix: single-parameter samples had a different structure
 during burn-in

---
 pysgmcmc/samplers/base_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 45fad79..6e026f7 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -440,6 +440,10 @@ class BurnInMCMCSampler(MCMCSampler):
                 feed_dict=feed_dict
             )
 
+            if len(params) == 1:
+                # unravel single-element lists to scalars
+                params = params[0]
+
             self.stepsize_schedule.update(params, cost)
 
             self.n_iterations += 1
-- 
2.43.0


From 2f490c528703338d2d1cd92459646d0a8df65a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 15/25] fix: samplers never picked up the default session

---
 pysgmcmc/samplers/base_classes.py       | 7 +++++--
 pysgmcmc/samplers/relativistic_sghmc.py | 2 +-
 pysgmcmc/samplers/sghmc.py              | 2 +-
 pysgmcmc/samplers/sgld.py               | 2 +-
 pysgmcmc/samplers/svgd.py               | 2 +-
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 6e026f7..c519c28 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -22,7 +22,7 @@ class MCMCSampler(object):
 
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initialize the sampler base class. Sets up member variables and
         initializes uninitialized target parameters in the current
@@ -73,6 +73,9 @@ class MCMCSampler(object):
         assert batch_generator is None or hasattr(batch_generator, "__next__")
         assert seed is None or isinstance(seed, int)
 
+        if session is None:
+            session = tf.get_default_session()
+
         assert isinstance(session, (tf.Session, tf.InteractiveSession))
         assert isinstance(dtype, tf.DType)
 
@@ -322,7 +325,7 @@ class BurnInMCMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initializes the corresponding MCMCSampler super object and
         sets member variables.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..3049553 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -24,7 +24,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.001),
                  mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..0a3e4f4 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -31,7 +31,7 @@ class SGHMCSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, mdecay=0.05, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 81cd05b..494bbda 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -32,7 +32,7 @@ class SGLDSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, A=1.0, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 953c1bb..ab39121 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -22,7 +22,7 @@ class SVGDSampler(MCMCSampler):
     """
     def __init__(self, particles, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.1),
-                 alpha=0.9, fudge_factor=1e-6, session=tf.get_default_session(),
+                 alpha=0.9, fudge_factor=1e-6, session=None,
                  dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
-- 
2.43.0


From 9855fbe404dd8efeeeaeb3453f99dfc949db264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 16/25] fix: seeded samplers drew identical noise for all
 parameters

---
 pysgmcmc/samplers/base_classes.py       | 9 ++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index c519c28..089aaf9 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -86,6 +86,7 @@ class MCMCSampler(object):
         self.n_iterations = 0
 
         self.seed = seed
+        self.n_noise_samples = 0  # number of noise samples in our graph
 
         assert hasattr(stepsize_schedule, "update")
         assert hasattr(stepsize_schedule, "__next__")
@@ -218,8 +219,14 @@ class MCMCSampler(object):
             standard deviation `Sigma`.
 
         """
+        seed = self.seed
+        if seed is not None:
+            # random ops that share a seed draw identical values
+            seed += self.n_noise_samples
+            self.n_noise_samples += 1
+
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=seed
         )
 
     # Conform to iterator protocol.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 3049553..f8b47d4 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -122,7 +122,10 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = self._draw_noise_sample(
+                sigma=tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)),
+                shape=vectorized_param.shape
+            )
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From a8d5479ed08e210e9048a1a9a9cf0a66b24a0945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 17/25] fix: cost and gradients raced with the parameter
 updates of the same step

---
 pysgmcmc/samplers/relativistic_sghmc.py | 12 ++++++++----
 pysgmcmc/samplers/sghmc.py              | 18 +++++++++++-------
 pysgmcmc/samplers/sgld.py               | 18 +++++++++++-------
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index f8b47d4..4235e26 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -102,6 +102,9 @@ class RelativisticSGHMCSampler(MCMCSampler):
             for gradient in tf.gradients(-self.cost, params)
         ]
 
+        # parameters must not change before cost and gradients are computed
+        evaluated = grads + [tf.convert_to_tensor(self.cost)]
+
         D = tf.constant(D, dtype=dtype)
         b_hat = tf.constant(Bhat, dtype=dtype)
 
@@ -137,10 +140,11 @@ class RelativisticSGHMCSampler(MCMCSampler):
                 tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
-            self.theta_t[i] = tf.assign(
-                param,
-                unvectorize(vectorized_theta_t, original_shape=param.shape)
-            )
+            with tf.control_dependencies(evaluated):
+                self.theta_t[i] = tf.assign(
+                    param,
+                    unvectorize(vectorized_theta_t, original_shape=param.shape)
+                )
 
 
 def _sample_relativistic_momentum(m, c, n_params,
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index 0a3e4f4..0bd5e1e 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -121,6 +121,9 @@ class SGHMCSampler(BurnInMCMCSampler):
         grads = [vectorize(gradient) for gradient in
                  tf.gradients(self.cost, params)]
 
+        # parameters must not change before cost and gradients are computed
+        evaluated = grads + [tf.convert_to_tensor(self.cost)]
+
         #  Initialize internal sampler parameters {{{ #
 
         tau = [tf.Variable(tf.ones_like(param, dtype=dtype),
@@ -242,12 +245,13 @@ class SGHMCSampler(BurnInMCMCSampler):
                             vectorized_param, v_t
                         )
 
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_Theta_t, original_shape=param.shape
-                            ),
-                            name="theta_t_{}".format(i)
-                        )
+                        with tf.control_dependencies(evaluated):
+                            self.theta_t[i] = tf.assign(
+                                param,
+                                unvectorize(
+                                    vectorized_Theta_t, original_shape=param.shape
+                                ),
+                                name="theta_t_{}".format(i)
+                            )
 
                         #  }}} HMC Update #
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 494bbda..bf44f0c 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -113,6 +113,9 @@ class SGLDSampler(BurnInMCMCSampler):
         grads = [vectorize(gradient) for gradient in
                  tf.gradients(self.cost, params)]
 
+        # parameters must not change before cost and gradients are computed
+        evaluated = grads + [tf.convert_to_tensor(self.cost)]
+
         #  Initialize internal sampler parameters {{{ #
 
         tau = [tf.Variable(tf.ones_like(param, dtype=dtype),
@@ -203,12 +206,13 @@ class SGLDSampler(BurnInMCMCSampler):
                             vectorized_param,
                             - self.epsilon * self.minv_t[i] * A * grad + sample,
                         )
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_theta_t, original_shape=param.shape
-                            ),
-                            name="Theta_t_{}".format(i)
-                        )
+                        with tf.control_dependencies(evaluated):
+                            self.theta_t[i] = tf.assign(
+                                param,
+                                unvectorize(
+                                    vectorized_theta_t, original_shape=param.shape
+                                ),
+                                name="Theta_t_{}".format(i)
+                            )
 
                         #  }}} SGLD Update #
-- 
2.43.0


From 5f0536e6fa8f9f6672aeb4f00accccb76889c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 18/25] fix: mixture log likelihood fails for parameters that
 are not float32

---
 pysgmcmc/diagnostics/objective_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index d5e937b..25034f3 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -69,11 +69,12 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
 
     if isinstance(x, tf.Variable):
         def normldf_tf(x, mu, var):
-            pi = tf.constant(np.pi)
+            pi = tf.constant(np.pi, dtype=x.dtype.base_dtype)
             return -0.5 * tf.log(2.0 * pi * var) - 0.5 * ((x - mu) ** 2) / var
 
         return tf.reduce_logsumexp(
-            [tf.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
+            [tf.log(tf.constant(weights[i], dtype=x.dtype.base_dtype)) + normldf_tf(x, mu[i], var[i])
+             for i in range(len(mu))]
         )
     else:
         def normldf(x, mu, var):
-- 
2.43.0


From f4fd449f175aad73267da93bc7447462531694bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 19/25] fix: sampler steps add their own feeds to the caller's
 feed dictionary

---
 pysgmcmc/samplers/base_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 089aaf9..858db9c 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -300,8 +300,8 @@ class MCMCSampler(object):
         # Ensure self.theta_t and self.cost are defined
         assert hasattr(self, "theta_t") or not hasattr(self, "cost")
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # do not modify the feeds of our caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         feed_dict.update(self._next_batch())
         feed_dict.update(self._next_stepsize())
@@ -436,8 +436,8 @@ class BurnInMCMCSampler(MCMCSampler):
         """
         assert (feed_dict is None or hasattr(feed_dict, "update"))
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # do not modify the feeds of our caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         if self.is_burning_in:
             # feed next batch and stepsize
-- 
2.43.0


From 17066e0619eabb36018d506b2659ca1d1cc96e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 20/25] fix: predictions of networks with a single parameter
 fail

---
 pysgmcmc/models/bayesian_neural_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 5d5c4d8..feab5bb 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -526,6 +526,10 @@ class BayesianNeuralNetwork(object):
                     iteration_index=iteration_index, is_sampling=True
                 )
 
+                if len(self.network_params) == 1:
+                    # samplers unravel single-element lists
+                    parameter_values = [parameter_values]
+
                 # collect sample
                 self.samples.append(parameter_values)
 
-- 
2.43.0


From 4747dbca45349300dd1231f2c31c6e1fc731450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 21/25] fix: traces of samplers with a single non-scalar
 parameter fail

---
 pysgmcmc/diagnostics/sample_chains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 51234cf..9ff80d5 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -168,6 +168,10 @@ class PYSGMCMCTrace(object):
             sample for sample, _ in islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
+        if len(sampler.params) == 1:
+            # samplers unravel single-element lists
+            samples = [[sample] for sample in samples]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
-- 
2.43.0


From a8ab8dd29bb51e1cdda8ddad7fda6344c0ff3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 22/25] fix: pairwise distances of a single row keep the type
 of the tensor

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b52d16f..10b1f7e 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -406,7 +406,7 @@ def pdist(tensor, metric="euclidean"):
             for i in range(m):
                 for j in range(i + 1, m):
                     distances.append(euclidean_distance(tensor[i], tensor[j]))
-            return tf.convert_to_tensor(distances)
+            return tf.convert_to_tensor(distances, dtype=tensor.dtype.base_dtype)
 
         metric_function = pairwise_euclidean_distance
     else:
-- 
2.43.0


From f6f9aa1133748ce72a6d2a8c1edbb0e6ce86bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 23/25] fix: multi-chain sampling reset samplers that were
 already burnt in

---
 pysgmcmc/diagnostics/sample_chains.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9ff80d5..fe06a70 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -10,6 +10,8 @@ import numpy as np
 import pymc3
 import logging
 
+from pysgmcmc.tensor_utils import uninitialized_params
+
 
 class PYSGMCMCTrace(object):
     """
@@ -374,7 +376,12 @@ def pymc3_multitrace(get_sampler, n_chains=2, samples_per_chain=100,
         graph = tf.Graph()
         with tf.Session(graph=graph) as session:
             sampler = get_sampler(session=session)
-            session.run(tf.global_variables_initializer())
+            # variables of (possibly already burnt-in) samplers keep their values
+            session.run(tf.variables_initializer(
+                uninitialized_params(
+                    params=tf.global_variables(), session=session
+                )
+            ))
             trace = PYSGMCMCTrace.from_sampler(
                 chain_id=chain_id,
                 sampler=sampler,
-- 
2.43.0


From d2cdceb3542181bd55617535381590b9ff566ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 24/25] fix: get_sampler refuses an argument named self instead
 of dropping it

---
 pysgmcmc/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/sampling.py b/pysgmcmc/sampling.py
index cf436f1..b6c777b 100644
--- a/pysgmcmc/sampling.py
+++ b/pysgmcmc/sampling.py
@@ -204,7 +204,8 @@ class Sampler(Enum):
         try:
             undefined_parameter = next(
                 parameter_name for parameter_name in sampler_args
-                if parameter_name not in all_sampler_parameters
+                if parameter_name == "self"
+                or parameter_name not in all_sampler_parameters
             )
         except StopIteration:
             pass
-- 
2.43.0


From 316780e5cc89c7b4dfb2001277769fce7e7fc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:35 +0000
Subject: [PATCH 25/25] fix: a network whose latest training failed no longer
 predicts

---
 pysgmcmc/models/bayesian_neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index feab5bb..771616b 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -411,6 +411,9 @@ class BayesianNeuralNetwork(object):
 
         start_time = time()
 
+        # no predictions unless this call completes
+        self.is_trained = False
+
         self.X, self.y = X, y
 
         if self.normalize_input:
-- 
2.43.0

