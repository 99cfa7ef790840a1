From a3e7ecedae9d8c2794b9a1e6382c12bfd2edb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 01/48] fix: Concatenate takes the right part of the mask for
 each parent

---
 bayespy/inference/vmp/nodes/concatenate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/concatenate.py b/bayespy/inference/vmp/nodes/concatenate.py
index a2b4b46..49bb66b 100644
--- a/bayespy/inference/vmp/nodes/concatenate.py
+++ b/bayespy/inference/vmp/nodes/concatenate.py
@@ -109,7 +109,7 @@ class Concatenate(Deterministic):
 
     def _compute_weights_to_parent(self, index, weights):
         axis = self._axis
-        indices = self._indices[index:(index+1)]
+        indices = self._indices[index:(index+2)]
         if np.ndim(weights) >= abs(axis) and np.shape(weights)[axis] > 1:
             # Take the middle one of the returned three arrays
             return np.split(weights, indices, axis=axis)[1]
-- 
2.43.0


From 9cd7da8ddee2ff6ac7404127516c25183919f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 02/48] fix: VB.use_logging used an undefined name

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index d1aea67..98dcc79 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -109,7 +109,7 @@ class VB():
 
 
     def use_logging(self, use):
-        if use_logging:
+        if use:
             logger = logging.getLogger(__name__)
             self.print = logger.info
         else:
-- 
2.43.0


From 58216f3e634efa8ff190d849bcdbf043147e63dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 03/48] fix: VB.load_user_data returns the saved user data

---
 bayespy/inference/vmp/vmp.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 98dcc79..1e5f386 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -297,13 +297,10 @@ class VB():
         f = h5py.File(filename, 'r')
         try:
             group = f['user_data']
-            for (key, value) in group.items():
-                user_data['key'] = value[...]
-        except:
-            raise
+            user_data = {key: value[...] for (key, value) in group.items()}
         finally:
             f.close()
-        return
+        return user_data
 
 
     def load(self, *nodes, filename=None, nodes_only=False):
-- 
2.43.0


From d7e508ca641ffeff2e563010d5654f0ebf283931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 04/48] fix: VB rejects different nodes with the same name

---
 bayespy/inference/vmp/vmp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 1e5f386..903e823 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -99,8 +99,8 @@ class VB():
             self.filename = autosave_filename
 
         # Check uniqueness of the node names
-        names = [node.name for node in self.model]
-        if len(names) != len(self.model):
+        names = [node.name for node in self.model if node.name != '']
+        if len(set(names)) != len(names):
             raise Exception("Use unique names for nodes.")
 
         self.callback = callback
-- 
2.43.0


From 2c6eaa4d5b2a3f1f2ae547eb155cd4ae6d7d7406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 05/48] fix: slicing plates backwards through the first element

---
 bayespy/inference/vmp/nodes/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 0092454..ff5fdc0 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -863,7 +863,9 @@ from .deterministic import Deterministic
 def slicelen(s, length=None):
     if length is not None:
         s = slice(*(s.indices(length)))
-    return max(0, misc.ceildiv(s.stop - s.start, s.step))
+    # A reversed slice which goes through the first element has no stop
+    stop = s.stop if s.stop is not None else -1
+    return max(0, misc.ceildiv(stop - s.start, s.step))
 
 class Slice(Deterministic):
 
@@ -971,7 +973,9 @@ class Slice(Deterministic):
                 # Index is a slice, e.g., [2:6]
 
                 # Normalize the slice
-                s = slice(*(s.indices(X.plates[j])))
+                (start, stop, step) = s.indices(X.plates[j])
+                # A negative stop would count from the end of the axis
+                s = slice(start, stop if stop >= 0 else None, step)
                 if slicelen(s) <= 0:
                     raise IndexError("Slicing leads to empty plates")
                 slices[k] = s
-- 
2.43.0


From bc6dc74455dfea543091a4e92d13bfeb29edbbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 06/48] fix: Binomial moments of a fixed value lost the value

---
 bayespy/inference/vmp/nodes/binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 8a2f4df..ee2841d 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -45,7 +45,7 @@ class BinomialMoments(PoissonMoments):
         x = np.asanyarray(x)
         if np.any(x > self.N):
             raise ValueError("Invalid count")
-        return super().compute_fixed_moments()
+        return super().compute_fixed_moments(x)
 
 
     def compute_dims_from_values(self, x):
-- 
2.43.0


From a39900853e9ffad7a5aee4c8ff237430e7f7834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 07/48] fix: drawing from Categorical changed its parameters

---
 bayespy/inference/vmp/nodes/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/categorical.py b/bayespy/inference/vmp/nodes/categorical.py
index 0cd234d..4182b6b 100644
--- a/bayespy/inference/vmp/nodes/categorical.py
+++ b/bayespy/inference/vmp/nodes/categorical.py
@@ -119,7 +119,7 @@ class CategoricalDistribution(MultinomialDistribution):
         Draw a random sample from the distribution.
         """
         logp = phi[0]
-        logp -= np.amax(logp, axis=-1, keepdims=True)
+        logp = logp - np.amax(logp, axis=-1, keepdims=True)
         p = np.exp(logp)
         return random.categorical(p, size=plates)
 
-- 
2.43.0


From cf08205cebe8920b6519e35de37a3747870eaffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 08/48] fix: deleting a node failed and left masks behind

---
 bayespy/inference/vmp/nodes/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index ff5fdc0..54672b2 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -700,10 +700,14 @@ class Node():
         """
         Delete this node and the children
         """
-        for (ind, parent) in enumerate(self.parents):
-            parent._remove_child(self, ind)
-        for (child, _) in self.children:
+        for child in {child for (child, _) in self.children}:
             child.delete()
+        for (ind, parent) in enumerate(self.parents):
+            # A deterministic node is not among the children of its parents
+            # when it has no children of its own
+            if (self, ind) in parent.children:
+                parent._remove_child(self, ind)
+                parent._update_mask()
 
     @staticmethod
     def broadcasting_multiplier(plates, *args):
-- 
2.43.0


From 8819a76cd2a84e6a38d0abf15d1dbef281b4b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 09/48] fix: mixtures of Binomial and Multinomial with a common
 number of trials

---
 bayespy/inference/vmp/nodes/binomial.py    | 3 +++
 bayespy/inference/vmp/nodes/multinomial.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index ee2841d..ad8f66e 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -142,6 +142,9 @@ class BinomialDistribution(ExponentialFamilyDistribution):
         return np.random.binomial(self.N, p, size=plates)
 
     def squeeze(self, axis):
+        if -axis > np.ndim(self.N):
+            # The number of trials is broadcasted over the axis
+            return self
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index bc651db..9eb8678 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -213,6 +213,9 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
         return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
 
     def squeeze(self, axis):
+        if -axis > np.ndim(self.N):
+            # The number of trials is broadcasted over the axis
+            return self
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
-- 
2.43.0


From 4adf4f5f0cb66fecc190650e8061b532e76f0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 10/48] fix: mixture over a cluster plate other than the last
 sent a wrong message to the assignments

---
 bayespy/inference/vmp/nodes/mixture.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 2e9c047..987c920 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -65,14 +65,6 @@ class MixtureDistribution(ExponentialFamilyDistribution):
             # Compute g:
             # Shape(g)      = [Nn,..,K,..,N0]
             g = self.raw_distribution.compute_cgf_from_parents(*(u_parents[1:]))
-            # Reshape(g):
-            # Shape(g)      = [Nn,..,N0,K]
-            if np.ndim(g) < abs(self.cluster_plate):
-                # Not enough axes, just add the cluster plate axis
-                g = np.expand_dims(g, -1)
-            else:
-                # Move the cluster plate axis
-                g = misc.moveaxis(g, self.cluster_plate, -1)
 
             # Compute phi:
             # Shape(phi)    = [Nn,..,K,..,N0,Dd,..,D0]
@@ -99,6 +91,7 @@ class MixtureDistribution(ExponentialFamilyDistribution):
 
             # Move axis:
             # Shape(L)      = [Nn,..,N0,K]
+            L = misc.atleast_nd(L, abs(self.cluster_plate))
             L = np.moveaxis(L, self.cluster_plate, -1)
 
             m = [L]
-- 
2.43.0


From b6409b53145ceb9f9e1af2701b601a1989726c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 11/48] fix: chol_solve mixed up the results when the right
 hand side is broadcasted over the matrices

---
 bayespy/utils/linalg.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index db1a9e4..fda582d 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -101,6 +101,8 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
         ind_b = [slice(None)] * l_b
         l_min = min(l_u, l_b)
         jnd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==sh_u[i])
+        # Axes of B which are broadcasted over the axes of U
+        knd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==1 and sh_u[i]!=1)
 
         if out == None:
             # Shape of the result (broadcasting rules)
@@ -119,6 +121,8 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
             # Select those axes of B for which U and B are not singleton
             for j in jnd_b:
                 ind_b[j] = i[j]
+            for j in knd_b:
+                ind_b[j] = 0
 
             # Collect all the axes for which U is singleton
             b = B[tuple(ind_b) + (slice(None),)]
@@ -128,12 +132,13 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
             if b.ndim > 1:
                 b = b.reshape((-1, b.shape[-1]))
 
-            # slice(None) to all preceeding axes and ellipsis for the last
-            # axis:
-            if len(ind_b) < len(sh):
-                ind_out = (slice(None),) + tuple(ind_b) + (slice(None),)
-            else:
-                ind_out = tuple(ind_b) + (slice(None),)
+            # slice(None) to all axes which U does not have or for which U is
+            # singleton but B is not
+            ind_out = [slice(None)] * len(sh)
+            for j in range(-l_u, 0):
+                if -j > l_b or j in jnd_b or j in knd_b:
+                    ind_out[j] = i[j]
+            ind_out = tuple(ind_out) + (slice(None),)
 
             out[ind_out] = (
                 # Handle (0, 0) matrices. See:
-- 
2.43.0


From 72e9d7c4b60719d3a9c2c92af34fe35738a6dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 12/48] fix: GaussianMarkovChain with inputs and plates

---
 .../inference/vmp/nodes/gaussian_markov_chain.py  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index cedadbf..26ca56f 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -491,6 +491,18 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
                 m1_BB = -0.5 * zz[..., None, :, :]
                 m1_AB = -0.5 * Xn[..., :-1, None, :, None] * z[..., None, None, :]
 
+                # The blocks must have equal plates in order to concatenate
+                sh0 = misc.broadcasted_shape(np.shape(m0)[:-1],
+                                             np.shape(m0_B)[:-1])
+                sh1 = misc.broadcasted_shape(np.shape(m1)[:-2],
+                                             np.shape(m1_AB)[:-2],
+                                             np.shape(m1_BB)[:-2])
+                m0 = np.broadcast_to(m0, sh0 + np.shape(m0)[-1:])
+                m0_B = np.broadcast_to(m0_B, sh0 + np.shape(m0_B)[-1:])
+                m1 = np.broadcast_to(m1, sh1 + np.shape(m1)[-2:])
+                m1_AB = np.broadcast_to(m1_AB, sh1 + np.shape(m1_AB)[-2:])
+                m1_BB = np.broadcast_to(m1_BB, sh1 + np.shape(m1_BB)[-2:])
+
                 # Construct full message arrays from blocks
                 m0 = np.concatenate([m0, m0_B], axis=-1)
                 row1 = np.concatenate([m1, m1_AB], axis=-1)
@@ -589,7 +601,8 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         if inputs is not None:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1],
                                                  np.shape(nu_B)[:-3],
-                                                 np.shape(nu_AB)[:-4])
+                                                 np.shape(nu_AB)[:-4],
+                                                 np.shape(inputs)[:-2])
         else:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1])
 
-- 
2.43.0


From e751de6b0f023b852d1596356c84c32e9bc56391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 13/48] fix: GaussianMarkovChain summed only one row of a
 broadcasted dynamics matrix

---
 .../inference/vmp/nodes/gaussian_markov_chain.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 26ca56f..9c3bcda 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -248,6 +248,19 @@ class _TemplateGaussianMarkovChain(ExponentialFamily):
         raise NotImplementedError()
 
 
+def _explicit_rows(u_A_nu, D):
+    """
+    Moments of (A, nu) with an explicit plate axis for the D rows of A.
+
+    The rows are summed over, so they must not be broadcasted.
+    """
+    (nu_A, nu_AA, nu, lognu) = u_A_nu
+    return [nu_A * np.ones((D,1)),
+            nu_AA * np.ones((D,1,1)),
+            nu * np.ones(D),
+            lognu * np.ones(D)]
+
+
 def _compute_cgf_for_gaussian_markov_chain(mumu_Lambda, logdet_Lambda,
                                            logdet_nu, N):
     """
@@ -515,6 +528,7 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         #     m1 = 0.5
         elif index == 2: # input signals
 
+            u_A_nu = _explicit_rows(u_A_nu, D)
             # (..., N-1, D)
             Xn = u[0][...,1:,:]
             # (..., N-1, D)
@@ -576,6 +590,7 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         N = self.N
 
         # Helpful variables (show shapes in comments)
+        u_A_nu = _explicit_rows(u_A_nu, D)
         Lambda_mu = u_mu_Lambda[0]   # (..., D)
         Lambda = u_mu_Lambda[2]      # (..., D, D)
         nu_A = u_A_nu[0][...,:D]     # (..., N-1, D, D)
@@ -643,6 +658,7 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         """
         Compute CGF using the moments of the parents.
         """
+        u_A_nu = _explicit_rows(u_A_nu, np.shape(u_mu_Lambda[0])[-1])
         g = _compute_cgf_for_gaussian_markov_chain(u_mu_Lambda[1],
                                                    u_mu_Lambda[3],
                                                    u_A_nu[3],
-- 
2.43.0


From 4ce5dd314dc9ef17fae39000067877376cb7ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 14/48] fix: SumMultiply ignored the plates multiplier of its
 children

---
 bayespy/inference/vmp/nodes/dot.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 0659ae4..2b02851 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -630,6 +630,14 @@ class SumMultiply(Deterministic):
 
             msg = msg + [m2, m3]
 
+        # Apply the multiplier of the plates that the parent does not have
+        r = self.broadcasting_multiplier(
+            self.plates_multiplier,
+            self._plates_multiplier_from_parent(index)
+        )
+        if r != 1:
+            msg = [r * m for m in msg]
+
         return msg
 
 
-- 
2.43.0


From 6a1f221252b63a089a3a0753b74a9a3ea3152d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 15/48] fix: autosave stored the iteration count before
 counting the iteration

---
 bayespy/inference/vmp/vmp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 903e823..b803540 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -743,9 +743,13 @@ class VB():
                     self.print("Converged at iteration %d." % (self.iter+1))
                 self.converged = True
 
+        self.annealing_changed = False
+
+        self.iter += 1
+
         # Auto-save, if requested
         if (self.autosave_iterations > 0
-            and np.mod(self.iter+1, self.autosave_iterations) == 0):
+            and np.mod(self.iter, self.autosave_iterations) == 0):
 
             if self.autosave_nodes is not None:
                 self.save(*self.autosave_nodes, filename=self.autosave_filename)
@@ -754,8 +758,4 @@ class VB():
             if verbose:
                 self.print('Auto-saved to %s' % self.autosave_filename)
 
-        self.annealing_changed = False
-
-        self.iter += 1
-
         return self.converged
-- 
2.43.0


From ab05ba0fa09fc36d0b4a2b9d556fd2e5c558e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 16/48] fix: loading a part of the nodes left the other nodes
 without room for bounds

---
 bayespy/inference/vmp/vmp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index b803540..b53c1ca 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -343,6 +343,12 @@ class VB():
                 self.converged = h5f['converged'][...]
                 for node in nodes:
                     self.l[node] = h5f['boundterms'][node.name][...]
+                # No statistics for the nodes that were not loaded
+                iters = len(self.L)
+                for node in self.model:
+                    if node not in nodes:
+                        self.l[node] = np.append(self.l[node],
+                                                 misc.nans(iters))[:iters]
                 try:
                     self.callback_output = h5f['callback_output'][...]
                 except KeyError:
-- 
2.43.0


From 1d02f390eafd8d66582730b54eec831acdb1d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:38 +0000
Subject: [PATCH 17/48] fix: GaussianGamma marginals and plots used a missing
 attribute

---
 bayespy/inference/vmp/nodes/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ec1ddb2..4e015f6 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1951,7 +1951,7 @@ class GaussianGamma(ExponentialFamily):
         """
         import bayespy.plot as bpplt
         
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if np.prod(self.plates) != 1:
@@ -2023,7 +2023,7 @@ class GaussianGamma(ExponentialFamily):
         r"""
         Return the mean and variance of the distribution
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         a = self.phi[3]
@@ -2061,7 +2061,7 @@ class GaussianGamma(ExponentialFamily):
         function
             A function which computes log-pdf
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if gaussian is None and not gamma:
-- 
2.43.0


From bd6bfb62fadee75da89e8348cde995d3818aaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:38 +0000
Subject: [PATCH 18/48] fix: GaussianGamma variance misaligned degrees of
 freedom and plates

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 4e015f6..ee45bbc 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -2040,7 +2040,7 @@ class GaussianGamma(ExponentialFamily):
         var = misc.get_diag(self.u[1], ndim=1) - tau_mu*mu
         var = var / misc.add_trailing_axes(tau, 1)
 
-        var = nu / (nu-2) * var
+        var = misc.add_trailing_axes(nu / (nu-2), 1) * var
 
         return (mu, var)
 
-- 
2.43.0


From 33df5b501a98d3d53aa85eca6eb2ac6c2ae86620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:38 +0000
Subject: [PATCH 19/48] fix: GaussianGamma could not be initialized from
 parameters

---
 bayespy/inference/vmp/nodes/gaussian.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ee45bbc..c08c396 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1847,6 +1847,13 @@ class GaussianGamma(ExponentialFamily):
                 parent_moments)
 
 
+    def initialize_from_parameters(self, mu, Lambda, a, b):
+        u_mu_Lambda = self._parent_moments[0].compute_fixed_moments(mu, Lambda)
+        u_a = self._parent_moments[1].compute_fixed_moments(a)
+        u_b = self._parent_moments[2].compute_fixed_moments(b)
+        self._initialize_from_parent_moments(u_mu_Lambda, u_a, u_b)
+
+
     def translate(self, b, debug=False):
 
         if self._moments.ndim != 1:
-- 
2.43.0


From 1a9921817617903261931d3cc01617dae90b8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:38 +0000
Subject: [PATCH 20/48] fix: an initial value with invalid shape raised
 TypeError instead of ValueError

---
 bayespy/inference/vmp/nodes/expfamily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index f93ec57..810b458 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -200,7 +200,7 @@ class ExponentialFamily(Stochastic):
             if ndim > 0:
                 if np.shape(u[i])[-ndim:] != self.dims[i]:
                     raise ValueError("The initial value for node %s has invalid shape %s."
-                                     % (np.shape(x)))
+                                     % (self.name, np.shape(x)))
         self._set_moments_and_cgf(u, np.inf, mask=mask)
 
     def initialize_from_random(self):
-- 
2.43.0


From 925018905f21ded4a96b7b84af06ade71d548bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 21/48] fix: GaussianGamma joint marginal log pdf had the sign
 of a log determinant wrong

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index c08c396..cff4636 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -2138,7 +2138,7 @@ class GaussianGamma(ExponentialFamily):
                 return (random.gaussian_logpdf(z2, 
                                                0,
                                                0,
-                                               logdet_Cov + D*logtau, 
+                                               D*logtau - logdet_Cov,
                                                D) +
                         random.gamma_logpdf(b*tau,
                                             logtau,
-- 
2.43.0


From a211c1f4cc3a632ed4ec112aab03da96ec4aea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 22/48] fix: flattening no axes raised TypeError
 (Gaussian-gamma scalars)

---
 bayespy/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index ca6bd97..d540c31 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -41,7 +41,7 @@ def flatten_axes(X, *ndims):
     plates = shape[:i]
     nd_sums = i + np.cumsum((0,) + ndims)
     sizes = tuple(
-        np.prod(shape[i:j])
+        np.prod(shape[i:j], dtype=int)
         for (i, j) in zip(nd_sums[:-1], nd_sums[1:])
     )
     return np.reshape(X, plates + sizes)
-- 
2.43.0


From f87faae3b7a80ee39a45731cc7f1b69cd50498b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 23/48] fix: gradient of Dirichlet distributed nodes

The derivative of the log-normalizer's second term couples the components, so
the Euclidean gradient needs the sum of the Riemannian gradient.
---
 bayespy/inference/vmp/nodes/dirichlet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 8825136..14825b9 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -223,11 +223,13 @@ class DirichletDistribution(ExponentialFamilyDistribution):
 
            \nabla &=
            \begin{bmatrix}
-             (\psi^{(1)}(\phi_1) - \psi^{(1)}(\sum_d \phi_{1,d}) \nabla_1
+             \psi^{(1)}(\phi_1) \tilde{\nabla}_1
+             - \psi^{(1)}(\sum_d \phi_{1,d}) \sum_d \tilde{\nabla}_{1,d}
            \end{bmatrix}
         """
         sum_phi = np.sum(phi[0], axis=-1, keepdims=True)
-        d0 = g[0] * (special.polygamma(1, phi[0]) - special.polygamma(1, sum_phi))
+        sum_g = np.sum(g[0], axis=-1, keepdims=True)
+        d0 = g[0] * special.polygamma(1, phi[0]) - sum_g * special.polygamma(1, sum_phi)
         return [d0]
 
 
-- 
2.43.0


From 33cc533888d09e57d7427a2e0a474c9b331c4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 24/48] fix: gradient of multinomial nodes with different
 numbers of trials

---
 bayespy/inference/vmp/nodes/multinomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index 9eb8678..2033440 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -210,7 +210,8 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
             :math:`\phi`.
 
         """
-        return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
+        N = np.expand_dims(self.N, -1)
+        return [u[0] * (g[0] - linalg.inner(g[0], u[0])[...,None] / N)]
 
     def squeeze(self, axis):
         if -axis > np.ndim(self.N):
-- 
2.43.0


From 0463751fb32f4ed6c2c6c8df6dbebae53d7eb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 25/48] fix: pattern search accepted parameters without a lower
 bound

A NaN bound was taken as the best cost and the state was lost.
---
 bayespy/inference/vmp/vmp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index b53c1ca..8f0390f 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -648,13 +648,16 @@ class VB():
             # Update collapsed nodes
             for x in collapsed:
                 self[x].update()
-            return -self.compute_lowerbound()
+            L = self.compute_lowerbound()
+            # The distributions may be improper too far along the direction
+            return np.inf if np.isnan(L) else -L
 
         # Optimize step length
         res = scipy.optimize.minimize_scalar(cost, bracket=[0, 3], options={'maxiter':maxiter})
 
         # Set found parameter values
-        p_new = self.add(p1, dp, scale=res.x)
+        alpha = res.x if np.isfinite(res.fun) else 0
+        p_new = self.add(p1, dp, scale=alpha)
         self.set_parameters(p_new, *nodes)
 
         # Update collapsed nodes
-- 
2.43.0


From ef08efe83865d62b9a79079408461ffd8a990f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 26/48] fix: gamma distributions accepted non-positive shape
 parameters

The optimiser followed the analytic continuation of the log-normalizer to
parameters which are not those of a distribution, reporting an ever larger
lower bound.  Such parameters are refused, as the Dirichlet distribution does.
---
 bayespy/inference/vmp/nodes/gamma.py    | 2 ++
 bayespy/inference/vmp/nodes/gaussian.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 371d256..1615488 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -139,6 +139,8 @@ class GammaDistribution(ExponentialFamilyDistribution):
            &=
            TODO
         """
+        if np.any(np.asanyarray(phi[1]) <= 0):
+            raise ValueError("Shape parameter should be positive")
         with np.errstate(invalid='raise', divide='raise'):
             log_b = np.log(-phi[0])
             u0 = phi[1] / (-phi[0])
diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index cff4636..1064f29 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1067,6 +1067,8 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         Cov = linalg.chol_inv(L_V, ndim=self.ndim)
         a = phi[3]
         b = -phi[2] - 0.5 * linalg.inner(mu, phi[0], ndim=self.ndim)
+        if np.any(a <= 0) or np.any(b <= 0):
+            raise ValueError("Shape and rate parameters should be positive")
         log_b = np.log(b)
 
         # Compute moments
-- 
2.43.0


From acf410cbfd327577afa53792f0486f39f08b2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 27/48] fix: Gaussian arrays lost the off-diagonal precision of
 readers of their last axes

---
 bayespy/inference/vmp/nodes/gaussian.py | 8 ++++----
 bayespy/utils/misc.py                   | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 1064f29..ddeb3cd 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -121,10 +121,10 @@ class GaussianToGaussian():
     def compute_message_to_parent(self, m, u_parent):
         # Handle broadcasting in m_child
         m0 = m[0] * np.ones(self.shape_from)
-        m1 = (
-            misc.make_diag(m[1], ndim=self.ndim_from, ndim_from=self.ndim_to)
-            * misc.identity(*self.shape_from)
-        )
+        shape_to = self.shape_from[(self.ndim_from-self.ndim_to):]
+        m1 = misc.make_diag(m[1] * np.ones(self.shape_from + shape_to),
+                            ndim=self.ndim_from,
+                            ndim_from=self.ndim_to)
         return [m0, m1]
 
 
diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index d540c31..dc45afd 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -1195,11 +1195,15 @@ def make_diag(X, ndim=1, ndim_from=0):
     X = atleast_nd(X, ndim+ndim_from)
 
     if ndim > 0:
+        # The given axes pairs are kept as they are, the new ones are diagonal
+        n = ndim - ndim_from
         if ndim_from > 0:
-            I = identity(*(np.shape(X)[-(ndim_from+ndim):-ndim_from]))
+            I = identity(*(np.shape(X)[-(ndim_from+ndim):-2*ndim_from]))
         else:
             I = identity(*(np.shape(X)[-ndim:]))
-        X = add_axes(X, axis=np.ndim(X)-ndim_from, num=ndim-ndim_from)
+        I = np.reshape(I, (np.shape(I)[:n] + (1,)*ndim_from +
+                           np.shape(I)[n:] + (1,)*ndim_from))
+        X = add_axes(X, axis=np.ndim(X)-ndim_from, num=n)
         X = I * X
     return X
 
-- 
2.43.0


From fa4148531025fc1d9eb3c367f3229baa4e56e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 28/48] fix: sum_to_dim raised TypeError

---
 bayespy/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index dc45afd..499ba85 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -753,7 +753,7 @@ def sum_to_dim(A, dim):
     """
     dimdiff = np.ndim(A) - dim
     if dimdiff > 0:
-        axes = np.arange(dimdiff)
+        axes = tuple(range(dimdiff))
         A = np.sum(A, axis=axes)
     return A
 
-- 
2.43.0


From 8a4c7fd627aaff55dd68318852a1d1653bc2b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 29/48] fix: solve_triangular mixed up results when the right
 hand side is broadcast over the matrices

---
 bayespy/utils/linalg.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index fda582d..452ed31 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -261,6 +261,8 @@ def solve_triangular(U, B, ndim=1, **kwargs):
     ind_b = [slice(None)] * l_b
     l_min = min(l_u, l_b)
     jnd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==sh_u[i])
+    # Axes of B which are broadcasted over the axes of U
+    knd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==1 and sh_u[i]!=1)
 
     # Shape of the result (broadcasting rules)
     sh = misc.broadcasted_shape(sh_u, sh_b)
@@ -276,6 +278,8 @@ def solve_triangular(U, B, ndim=1, **kwargs):
         # Select those axes of B for which U and B are not singleton
         for j in jnd_b:
             ind_b[j] = i[j]
+        for j in knd_b:
+            ind_b[j] = 0
 
         # Collect all the axes for which U is singleton
         b = B[tuple(ind_b) + (slice(None),)]
@@ -285,12 +289,13 @@ def solve_triangular(U, B, ndim=1, **kwargs):
         if b.ndim > 1:
             b = b.reshape((-1, b.shape[-1]))
 
-        # slice(None) to all preceeding axes and ellipsis for the last
-        # axis:
-        if len(ind_b) < len(sh):
-            ind_out = (slice(None),) + tuple(ind_b) + (slice(None),)
-        else:
-            ind_out = tuple(ind_b) + (slice(None),)
+        # slice(None) to all axes which U does not have or for which U is
+        # singleton but B is not
+        ind_out = [slice(None)] * len(sh)
+        for j in range(-l_u, 0):
+            if -j > l_b or j in jnd_b or j in knd_b:
+                ind_out[j] = i[j]
+        ind_out = tuple(ind_out) + (slice(None),)
 
         out[ind_out] = linalg.solve_triangular(U[i],
                                                b.T,
-- 
2.43.0


From 62b5df390bba9465d436278f8aa4a4ce4765084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 30/48] fix: wishart draws had the wrong shape and distribution

---
 bayespy/utils/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/random.py b/bayespy/utils/random.py
index ba6b56d..a2873f6 100644
--- a/bayespy/utils/random.py
+++ b/bayespy/utils/random.py
@@ -69,7 +69,7 @@ def wishart(nu, V):
         raise ValueError("Degrees of freedom must be equal or greater than the "
                          "dimensionality of the matrix.")
     X = np.random.multivariate_normal(np.zeros(D), V, size=nu)
-    return np.dot(X, X.T)
+    return np.dot(X.T, X)
 
 wishart_rand = wishart
 
-- 
2.43.0


From a9ace9c0c83453d13ac3820386d5ce5c2c5ad3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 31/48] fix: a refused node must not remain among the children
 of its parents

---
 bayespy/inference/vmp/nodes/node.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 54672b2..f4c9a64 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -269,11 +269,6 @@ class Node():
             if len(parent_id_list) != len(set(parent_id_list)):
                 raise ValueError("Parent nodes are not independent")
 
-        # Inform parent nodes
-        if notify_parents:
-            for (index,parent) in enumerate(self.parents):
-                parent._add_child(self, index)
-
         # Check plates
         parent_plates = [self._plates_from_parent(index)
                          for index in range(len(self.parents))]
@@ -300,6 +295,11 @@ class Node():
                                               *parent_plates_multiplier)
         self.plates_multiplier = plates_multiplier
 
+        # Inform parent nodes (only after the node has been validated)
+        if notify_parents:
+            for (index,parent) in enumerate(self.parents):
+                parent._add_child(self, index)
+
 
     def get_pdf_nodes(self):
         return tuple(
-- 
2.43.0


From 40894f303ec461e30bfd59d88b24e7942dc33c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 32/48] fix: Add raised TypeError when its first term was an
 array

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ddeb3cd..196eaaf 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -66,6 +66,8 @@ class GaussianMoments(Moments):
         r"""
         Return the shape of the moments for a fixed value.
         """
+        if ndim is None:
+            raise ValueError("The number of axes must be given for an array")
         if ndim == 0:
             return cls(())
         else:
-- 
2.43.0


From 5f023bb1cec21d25e7ec85db8e990d4618ff3386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 33/48] fix: GaussianARD accepted a shape to which its parents
 do not broadcast

---
 bayespy/inference/vmp/nodes/gaussian.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 196eaaf..55e10b7 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1646,6 +1646,13 @@ class GaussianARD(_GaussianTemplate):
                         )
                     shape = mu_alpha.plates[-ndim:]
 
+        if ndim > 0 and not misc.is_shape_subset(mu_alpha.plates[-ndim:], shape):
+            raise ValueError(
+                "The parents have shape {0} which does not broadcast to the "
+                "shape {1} of the variable."
+                .format(mu_alpha.plates[-ndim:], shape)
+            )
+
         moments = GaussianMoments(shape)
         parent_moments = [GaussianGammaMoments(())]
         distribution = GaussianARDDistribution(shape)
-- 
2.43.0


From d952d5d60ca9ec61083604b8a7d6f2386d1d763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 34/48] fix: observe stored moments of a wrong shape before
 refusing a mask of a wrong shape

---
 bayespy/inference/vmp/nodes/expfamily.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index 810b458..8cede3b 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -371,6 +371,11 @@ class ExponentialFamily(Stochastic):
         Fix moments, compute f and propagate mask.
         """
 
+        if not misc.is_shape_subset(np.shape(mask), self.plates):
+            raise ValueError("The mask has shape {0} which is not broadcastable "
+                             "to the plates {1}"
+                             .format(np.shape(mask), self.plates))
+
         # Compute fixed moments
         (u, f) = self._distribution.compute_fixed_moments_and_f(x, *args,
                                                                 mask=mask)
-- 
2.43.0


From 0af7e9d7b01dd87a01afe00b34c40adb716e3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 35/48] fix: diagonal Wishart of gamma variables lost
 log-determinant terms when the moments have unit length

---
 bayespy/inference/vmp/nodes/gamma.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 1615488..51c726d 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -385,8 +385,10 @@ class _GammaToDiagonalWishart(Deterministic):
         u = self.parents[0].get_moments()
 
         # Form a diagonal matrix from the gamma variables
-        return [np.identity(self.dims[0][0]) * u[0][...,np.newaxis],
-                np.sum(u[1], axis=(-1))]
+        # (the moments may have unit length where the diagonal has D elements)
+        D = self.dims[0][0]
+        return [np.identity(D) * u[0][...,np.newaxis],
+                np.sum(u[1] * np.ones(D), axis=-1)]
 
     @staticmethod
     def _compute_message_to_parent(index, m_children, *u_parents):
-- 
2.43.0


From e55926517bcc1135d6f03d965a72e4b735febe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 36/48] fix: tile raised TypeError for nodes whose moments need
 conversion arguments

---
 bayespy/inference/vmp/nodes/deterministic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/deterministic.py b/bayespy/inference/vmp/nodes/deterministic.py
index 7650951..b9a7642 100644
--- a/bayespy/inference/vmp/nodes/deterministic.py
+++ b/bayespy/inference/vmp/nodes/deterministic.py
@@ -181,10 +181,9 @@ def tile(X, tiles):
     
     class _Tile(Deterministic):
 
-        _parent_moments = (Moments(),)
-        
         def __init__(self, X, **kwargs):
             self._moments = X._moments
+            self._parent_moments = (X._moments,)
             super().__init__(X, dims=X.dims, **kwargs)
     
         def _compute_plates_to_parent(self, index, plates):
-- 
2.43.0


From ef27933cdcee9d0be65c0dbea39400ea7dd254e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 37/48] fix: printing a GaussianARD array uses all of its
 variable axes

---
 bayespy/inference/vmp/nodes/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 55e10b7..3e9ef4b 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1691,8 +1691,9 @@ class GaussianARD(_GaussianTemplate):
         return
 
     def __str__(self):
+        ndim = len(self.dims[0])
         mu = self.u[0]
-        Cov = self.u[1] - linalg.outer(mu, mu)
+        Cov = self.u[1] - linalg.outer(mu, mu, ndim=ndim)
         return ("%s ~ Gaussian(mu, Cov)\n"
                 "  mu = \n"
                 "%s\n"
-- 
2.43.0


From 3e95a71a3c5bcd3673d5c1f087bb2a9e70042c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 38/48] fix: draws of GaussianGamma use the marginal gamma
 distribution of the precision

---
 bayespy/inference/vmp/nodes/gaussian.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 3e9ef4b..ccb8f56 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1124,11 +1124,12 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         r"""
         Draw a random sample from the distribution.
         """
-        # TODO/FIXME: This is incorrect, I think. Gamma distribution parameters
-        # aren't directly those, because phi has some parts from the Gaussian
-        # distribution.
+        # Gamma distribution of alpha when the Gaussian variable is marginalized
+        # out: the parameter phi[2] contains a part from the Gaussian variable
+        V = linalg.chol(-2*phi[1], ndim=self.ndim)
+        mu = linalg.chol_solve(V, phi[0], ndim=self.ndim)
         alpha = GammaDistribution().random(
-            phi[2],
+            phi[2] + 0.5 * linalg.inner(phi[0], mu, ndim=self.ndim),
             phi[3],
             plates=plates
         )
-- 
2.43.0


From 8b3cff3a808fc4534024a371fd9dac71ff20b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 39/48] fix: Poisson variables are printed as Poisson

---
 bayespy/inference/vmp/nodes/poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/poisson.py b/bayespy/inference/vmp/nodes/poisson.py
index 44893ac..dfc80c0 100644
--- a/bayespy/inference/vmp/nodes/poisson.py
+++ b/bayespy/inference/vmp/nodes/poisson.py
@@ -171,7 +171,7 @@ class Poisson(ExponentialFamily):
         Print the distribution using standard parameterization.
         """
         l = self.u[0]
-        return ("%s ~ Categorical(lambda)\n"
+        return ("%s ~ Poisson(lambda)\n"
                 "  lambda =\n"
                 "%s\n"
                 % (self.name, l))
-- 
2.43.0


From c151588baabc4dd0041dc12ff1a315d6d231ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 40/48] fix: predictive density of mixtures with a cluster
 plate which is not the last one

---
 bayespy/inference/vmp/nodes/mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 987c920..f0b6b64 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -501,7 +501,8 @@ class Mixture(ExponentialFamily):
             # Shape(u) = [M1,..,Mm,N1,..,1,..,Nn,D1,..,Dd]
             # Shape(f) = [M1,..,Mm,N1,..,1,..,Nn]
             (u, f) = self._distribution.raw_distribution.compute_fixed_moments_and_f(x)
-            f = np.expand_dims(f, axis=self.cluster_plate)
+            if np.ndim(f) >= abs(self.cluster_plate) - 1:
+                f = np.expand_dims(f, axis=self.cluster_plate)
             for i in range(len(u)):
                 ndim_i = len(self.dims[i])
                 cluster_axis = self.cluster_plate - ndim_i
@@ -527,7 +528,7 @@ class Mixture(ExponentialFamily):
 
             # Weighted average. TODO/FIXME: Use einsum!
             # Shape(pdf) = [M1,..,Mm,N1,..,Nn]
-            pdf = np.sum(pdf * p, axis=self.cluster_plate)
+            pdf = np.sum(pdf * p, axis=-1)
 
             # Back to log-scale (add the overflow fix!)
             lpdf_max = np.squeeze(lpdf_max, axis=self.cluster_plate)
-- 
2.43.0


From df34d63d2419fc2a1ba98e67b6ba28a018d8e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 41/48] fix: Gaussian arrays with several or no axes (bound
 constant, scalars)

---
 bayespy/inference/vmp/nodes/gaussian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ccb8f56..60da3c9 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -420,7 +420,6 @@ class GaussianDistribution(ExponentialFamilyDistribution):
         """
         # TODO: Compute -2*phi[1] and simplify the formulas
         L = linalg.chol(-2*phi[1], ndim=self.ndim)
-        k = np.shape(phi[0])[-1]
         Cov = linalg.chol_inv(L, ndim=self.ndim)
         mu = linalg.chol_solve(L, phi[0], ndim=self.ndim)
         # G
@@ -482,7 +481,7 @@ class GaussianDistribution(ExponentialFamilyDistribution):
            f(\mathbf{x})
            &= - \frac{D}{2} \log(2\pi)
         """
-        k = np.shape(x)[-1]
+        k = np.prod(self.shape)
         u = [x, linalg.outer(x, x, ndim=self.ndim)]
         f = -k/2*np.log(2*np.pi)
         return (u, f)
-- 
2.43.0


From 92f9bca5add32b29cf5b0f8befe0fa82ce617d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 42/48] fix: lower bound of the point estimates Concentration
 and GammaShape

---
 bayespy/inference/vmp/nodes/dirichlet.py  | 5 +++--
 bayespy/inference/vmp/nodes/gamma.py      | 5 +++--
 bayespy/inference/vmp/nodes/stochastic.py | 8 ++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 14825b9..b8cba81 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -325,11 +325,12 @@ class Concentration(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
-        return (
+    def lower_bound_contribution(self, ignore_masked=True):
+        L = (
             linalg.inner(self.u[0], self.regularization[0], ndim=1)
             + self.u[1] * self.regularization[1]
         )
+        return self._sum_over_plates(L, ignore_masked=ignore_masked)
 
 
 class Dirichlet(ExponentialFamily):
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 51c726d..a20bab4 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -332,8 +332,9 @@ class GammaShape(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
-        return 0
+    def lower_bound_contribution(self, ignore_masked=True):
+        L = self._m0 * self.u[0] + self._m1 * self.u[1]
+        return self._sum_over_plates(L, ignore_masked=ignore_masked)
 
 
 class _GammaToDiagonalWishart(Deterministic):
diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index bc2e090..a62ec0c 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -293,6 +293,14 @@ class Stochastic(Node):
         self.observed = False
         self._update_mask()
 
+    def _sum_over_plates(self, L, ignore_masked=True):
+        """
+        Sum the lower bound terms of the elements, possibly without the ignored
+        """
+        if ignore_masked:
+            L = np.where(self.mask, L, 0)
+        return np.sum(np.broadcast_to(L, self.plates)) * np.prod(self.plates_multiplier)
+
     def lowerbound(self):
         # Sub-class should implement this
         raise NotImplementedError()
-- 
2.43.0


From f643ff95e91013e48b4a271f9266628a2ebde15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 43/48] fix: plot_iteration_by_nodes failed when the history
 arrays were full

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 8f0390f..1b1adae 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -210,7 +210,7 @@ class VB():
             axes = plt.gca()
 
         D = len(self.l)
-        N = self.iter + 1
+        N = self.iter
         if diff:
             L = np.empty((N-1,D))
             x = np.arange(N-1) + 2
-- 
2.43.0


From 1f3f16861bb67d35de2c359ae60c9a691e20e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 44/48] fix: density of discrete variables was NaN when some
 category is impossible

---
 bayespy/inference/vmp/nodes/expfamily.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index 8cede3b..31328f7 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -496,7 +496,8 @@ class ExponentialFamily(Stochastic):
         for (phi_d, u_d, dims) in zip(self.phi, u, self.dims):
             axis_sum = tuple(range(-len(dims),0))
             # TODO/FIXME: Use einsum here?
-            Z = Z + np.sum(phi_d * u_d, axis=axis_sum)
+            # Handle 0 * -inf
+            Z = Z + np.sum(np.where(u_d != 0, phi_d, 0) * u_d, axis=axis_sum)
             #Z = Z + misc.sum_multiply(phi_d, u_d, axis=axis_sum)
 
         return (self.g + f + Z)
-- 
2.43.0


From 5c703cee4d402aea57ccad20f4c491c90aad4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 45/48] fix: natural gradient was NaN for impossible categories

---
 bayespy/inference/vmp/nodes/expfamily.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index 31328f7..cc11934 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -274,8 +274,11 @@ class ExponentialFamily(Stochastic):
             )
         ]
         for i in range(len(self.phi)):
-            phi[i] = self.annealing * (phi[i] + m_children[i]) - self.phi[i]
-            phi[i] = phi[i] * np.ones(self.get_shape(i))
+            shape = self.get_shape(i)
+            phi_i = self.annealing * (phi[i] + m_children[i]) * np.ones(shape)
+            # Infinite parameters (impossible categories) may be at the optimum
+            phi[i] = np.subtract(phi_i, self.phi[i], out=np.zeros(shape),
+                                 where=(phi_i != self.phi[i]))
 
         return phi
 
-- 
2.43.0


From 7211ee862a5723a6fe96ef4ac5e6351156919e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 46/48] fix: pattern search failed when a collapsed node cannot
 be updated too far along the search direction

---
 bayespy/inference/vmp/vmp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 1b1adae..b2afc2a 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -643,11 +643,11 @@ class VB():
             p_new = self.add(p1, dp, scale=alpha)
             try:
                 self.set_parameters(p_new, *nodes)
+                # Update collapsed nodes
+                for x in collapsed:
+                    self[x].update()
             except:
                 return np.inf
-            # Update collapsed nodes
-            for x in collapsed:
-                self[x].update()
             L = self.compute_lowerbound()
             # The distributions may be improper too far along the direction
             return np.inf if np.isnan(L) else -L
-- 
2.43.0


From b21d2fe4f7334c0aef633a3e52d999f790a6086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 47/48] fix: Wishart and Gaussian Markov chain values could not
 be given as lists

---
 bayespy/inference/vmp/nodes/gaussian_markov_chain.py | 2 ++
 bayespy/inference/vmp/nodes/wishart.py               | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 9c3bcda..eb651bb 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -42,6 +42,7 @@ class GaussianMarkovChainMoments(Moments):
 
 
     def compute_fixed_moments(self, x):
+        x = np.asanyarray(x)
         u0 = x
         u1 = x[...,:,np.newaxis] * x[...,np.newaxis,:]
         u2 = x[...,:-1,:,np.newaxis] * x[...,1:,np.newaxis,:]
@@ -129,6 +130,7 @@ class TemplateGaussianMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Compute u(x) and f(x) for given x.
         """
+        x = np.asanyarray(x)
         u0 = x
         u1 = x[...,:,np.newaxis] * x[...,np.newaxis,:]
         u2 = x[...,:-1,:,np.newaxis] * x[...,1:,np.newaxis,:]
diff --git a/bayespy/inference/vmp/nodes/wishart.py b/bayespy/inference/vmp/nodes/wishart.py
index 1964232..1b7bb74 100644
--- a/bayespy/inference/vmp/nodes/wishart.py
+++ b/bayespy/inference/vmp/nodes/wishart.py
@@ -217,6 +217,7 @@ class WishartDistribution(ExponentialFamilyDistribution):
               \log |\Lambda|
             \end{bmatrix}
         """
+        Lambda = np.asanyarray(Lambda)
         k = np.shape(Lambda)[-1]
         ldet = linalg.chol_logdet(linalg.chol(Lambda))
         u = [Lambda,
-- 
2.43.0


From 516889472183cd2c562dc16f59910ee136085e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 48/48] fix: draws of a categorical Markov chain ignored the
 evidence on later states

---
 .../vmp/nodes/categorical_markov_chain.py     | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index c0af2f9..0dfa45b 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -179,11 +179,21 @@ class CategoricalMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Draw a random sample from the distribution.
         """
-        # Convert natural parameters to transition probabilities
-        p0 = np.exp(phi[0] - misc.logsumexp(phi[0],
-                                            axis=-1,
-                                            keepdims=True))
-        P = np.exp(phi[1] - misc.logsumexp(phi[1],
+        # Convert natural parameters to transition probabilities. The
+        # probabilities of a state depend on the natural parameters of all later
+        # states, so the parameters are normalized backwards in time.
+        logp0 = phi[0]
+        logP = phi[1] * np.ones((self.N-1, self.K, self.K))
+        P = np.zeros(np.shape(logP))
+        logbeta = np.zeros(self.K)
+        for n in reversed(range(self.N-1)):
+            v = logP[...,n,:,:] + logbeta[...,None,:]
+            logbeta = misc.logsumexp(v, axis=-1)
+            # Impossible states have no normalization
+            z = np.where(np.isfinite(logbeta), logbeta, 0)
+            P[...,n,:,:] = np.exp(v - z[...,None])
+        logp0 = logp0 + logbeta
+        p0 = np.exp(logp0 - misc.logsumexp(logp0,
                                            axis=-1,
                                            keepdims=True))
         # Explicit broadcasting
-- 
2.43.0

