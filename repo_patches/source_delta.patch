From f4899e030b9e5a7d518b1c0f58ecf10356a6a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 01/65] fix: Add accepts a constant as its first argument

---
 bayespy/inference/vmp/nodes/add.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/add.py b/bayespy/inference/vmp/nodes/add.py
index 4330a9e..5b72c98 100644
--- a/bayespy/inference/vmp/nodes/add.py
+++ b/bayespy/inference/vmp/nodes/add.py
@@ -62,7 +62,8 @@ class Add(Deterministic):
         for node in nodes:
             try:
                 node = self._ensure_moments(node, GaussianMoments, ndim=None)
-            except ValueError:
+            except (ValueError, TypeError):
+                # Constants don't tell ndim, find it from some other node
                 pass
             else:
                 ndim = node._moments.ndim
-- 
2.43.0


From 53e24da0530a649a5a5205fefd932665694e66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 02/65] fix: squeezing of Binomial/Multinomial when number of
 trials lacks the axis

---
 bayespy/inference/vmp/nodes/binomial.py    | 3 +++
 bayespy/inference/vmp/nodes/multinomial.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 8a2f4df..13359fc 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -142,6 +142,9 @@ class BinomialDistribution(ExponentialFamilyDistribution):
         return np.random.binomial(self.N, p, size=plates)
 
     def squeeze(self, axis):
+        if np.ndim(self.N) < abs(axis):
+            # The number of trials doesn't have the squeezed (negative) axis
+            return self
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index bc651db..dcf2393 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -213,6 +213,9 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
         return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
 
     def squeeze(self, axis):
+        if np.ndim(self.N) < abs(axis):
+            # The number of trials doesn't have the squeezed (negative) axis
+            return self
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
-- 
2.43.0


From 8e6b5971f35bfd88e5a508631ce5af6241e58e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 03/65] fix: Concatenate's mask to parents covers the parent's
 own slice only

---
 bayespy/inference/vmp/nodes/concatenate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/concatenate.py b/bayespy/inference/vmp/nodes/concatenate.py
index a2b4b46..49bb66b 100644
--- a/bayespy/inference/vmp/nodes/concatenate.py
+++ b/bayespy/inference/vmp/nodes/concatenate.py
@@ -109,7 +109,7 @@ class Concatenate(Deterministic):
 
     def _compute_weights_to_parent(self, index, weights):
         axis = self._axis
-        indices = self._indices[index:(index+1)]
+        indices = self._indices[index:(index+2)]
         if np.ndim(weights) >= abs(axis) and np.shape(weights)[axis] > 1:
             # Take the middle one of the returned three arrays
             return np.split(weights, indices, axis=axis)[1]
-- 
2.43.0


From 0c5831a96b91af60758886f1c2f1ae15196f9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 04/65] fix: GaussianMarkovChain with broadcasted moments of A,
 nu and inputs

---
 .../vmp/nodes/gaussian_markov_chain.py        | 42 +++++++++++++++++--
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index cedadbf..c9a6084 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -249,11 +249,14 @@ class _TemplateGaussianMarkovChain(ExponentialFamily):
 
 
 def _compute_cgf_for_gaussian_markov_chain(mumu_Lambda, logdet_Lambda,
-                                           logdet_nu, N):
+                                           logdet_nu, N, D):
     """
     Compute CGF using the moments of the parents.
     """
 
+    # The moments may be broadcasted over the last plate axis (..., D)
+    logdet_nu = logdet_nu * np.ones(D)
+
     g0 = -0.5 * mumu_Lambda #np.einsum('...ij,...ij->...', mumu, Lambda)
 
     g1 = 0.5 * logdet_Lambda
@@ -488,11 +491,21 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
                 zz = u_inputs[0][1]
                 D_inputs = np.shape(z)[-1]
                 m0_B = Xn[...,1:,:,None] * z[...,None,:]
+                # The inputs may have plates which the chain's moments don't
+                m0 = np.broadcast_to(m0, np.shape(m0_B)[:-1] + np.shape(m0)[-1:])
                 m1_BB = -0.5 * zz[..., None, :, :]
                 m1_AB = -0.5 * Xn[..., :-1, None, :, None] * z[..., None, None, :]
 
                 # Construct full message arrays from blocks
                 m0 = np.concatenate([m0, m0_B], axis=-1)
+                # The blocks may have different (broadcasted) plates
+                plates = misc.broadcasted_shape(np.shape(m1)[:-2],
+                                                np.shape(m1_AB)[:-2],
+                                                np.shape(m1_BB)[:-2])
+                (m1, m1_AB, m1_BB) = [
+                    np.broadcast_to(m, plates + np.shape(m)[-2:])
+                    for m in (m1, m1_AB, m1_BB)
+                ]
                 row1 = np.concatenate([m1, m1_AB], axis=-1)
                 row2 = np.concatenate([m1_AB.swapaxes(-1,-2), m1_BB], axis=-1)
                 m1 = np.concatenate([row1, row2], axis=-2)
@@ -503,6 +516,8 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         #     m1 = 0.5
         elif index == 2: # input signals
 
+            u_A_nu = self._expand_A_nu(u_A_nu)
+
             # (..., N-1, D)
             Xn = u[0][...,1:,:]
             # (..., N-1, D)
@@ -539,6 +554,19 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
             raise ValueError("Index out of bounds")
 
 
+    def _expand_A_nu(self, u_A_nu):
+        """
+        Make the last plate axis (..., D) of the moments explicit.
+
+        The moments may be broadcasted over that axis but the computations sum
+        over it.
+        """
+        return [
+            u * np.ones((self.D,) + ndim*(1,))
+            for (u, ndim) in zip(u_A_nu, (1, 2, 0, 0))
+        ]
+
+
     def compute_phi_from_parents(self, u_mu_Lambda, u_A_nu, *u_inputs, mask=True):
         """
         Compute the natural parameters using parents' moments.
@@ -563,6 +591,8 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         # Number of time instances in the process
         N = self.N
 
+        u_A_nu = self._expand_A_nu(u_A_nu)
+
         # Helpful variables (show shapes in comments)
         Lambda_mu = u_mu_Lambda[0]   # (..., D)
         Lambda = u_mu_Lambda[2]      # (..., D, D)
@@ -630,10 +660,12 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         """
         Compute CGF using the moments of the parents.
         """
+        u_A_nu = self._expand_A_nu(u_A_nu)
         g = _compute_cgf_for_gaussian_markov_chain(u_mu_Lambda[1],
                                                    u_mu_Lambda[3],
                                                    u_A_nu[3],
-                                                   self.N)
+                                                   self.N,
+                                                   self.D)
 
         if len(u_inputs):
             D = np.shape(u_mu_Lambda[0])[-1]
@@ -1130,7 +1162,8 @@ class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribu
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
@@ -1672,7 +1705,8 @@ class SwitchingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistri
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
-- 
2.43.0


From 7fcb8fdf5bd5806e8a913bae41efdaa1a213abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 05/65] fix: Mixture's message to assignments when cluster
 plate is not the last one

---
 bayespy/inference/vmp/nodes/mixture.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 2e9c047..d6ca5f6 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -65,14 +65,6 @@ class MixtureDistribution(ExponentialFamilyDistribution):
             # Compute g:
             # Shape(g)      = [Nn,..,K,..,N0]
             g = self.raw_distribution.compute_cgf_from_parents(*(u_parents[1:]))
-            # Reshape(g):
-            # Shape(g)      = [Nn,..,N0,K]
-            if np.ndim(g) < abs(self.cluster_plate):
-                # Not enough axes, just add the cluster plate axis
-                g = np.expand_dims(g, -1)
-            else:
-                # Move the cluster plate axis
-                g = misc.moveaxis(g, self.cluster_plate, -1)
 
             # Compute phi:
             # Shape(phi)    = [Nn,..,K,..,N0,Dd,..,D0]
-- 
2.43.0


From 2257208b81511242953971de7e93825983f2e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 06/65] fix: chol_solve broadcasts singleton axes of the
 right-hand side

---
 bayespy/utils/linalg.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index db1a9e4..809e423 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -97,10 +97,9 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
         l_u = len(sh_u)
         l_b = len(sh_b)
 
-        # Check which axis are iterated over with B along with U
-        ind_b = [slice(None)] * l_b
-        l_min = min(l_u, l_b)
-        jnd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==sh_u[i])
+        # Check which axes are iterated over with U. If B is singleton on such
+        # an axis, it is broadcasted.
+        jnd_u = tuple(i for i in range(-l_u,0) if sh_u[i] != 1)
 
         if out == None:
             # Shape of the result (broadcasting rules)
@@ -116,9 +115,13 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
             # which U is singleton and form them as a 2-D matrix and then
             # run the solver once.
 
-            # Select those axes of B for which U and B are not singleton
-            for j in jnd_b:
-                ind_b[j] = i[j]
+            # Select those axes for which U is not singleton
+            ind_b = [slice(None)] * l_b
+            ind_out = [slice(None)] * len(sh)
+            for j in jnd_u:
+                ind_out[j] = i[j]
+                if -j <= l_b:
+                    ind_b[j] = i[j] if sh_b[j] != 1 else 0
 
             # Collect all the axes for which U is singleton
             b = B[tuple(ind_b) + (slice(None),)]
@@ -128,14 +131,7 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
             if b.ndim > 1:
                 b = b.reshape((-1, b.shape[-1]))
 
-            # slice(None) to all preceeding axes and ellipsis for the last
-            # axis:
-            if len(ind_b) < len(sh):
-                ind_out = (slice(None),) + tuple(ind_b) + (slice(None),)
-            else:
-                ind_out = tuple(ind_b) + (slice(None),)
-
-            out[ind_out] = (
+            out[tuple(ind_out) + (slice(None),)] = (
                 # Handle (0, 0) matrices. See:
                 # https://github.com/scipy/scipy/issues/8056
                 np.empty(orig_shape) if np.size(U[i]) == 0 else
-- 
2.43.0


From 9548bf20029529863ff08993b50653572d291fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 07/65] fix: put broadcasts the values explicitly (ufunc.at
 read past them)

---
 bayespy/utils/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index ca6bd97..868c85d 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -542,6 +542,8 @@ def put(x, indices, y, axis=-1, ufunc=np.add):
 
     indices = axis*(slice(None),) + (indices,) + (ndim-axis-1)*(slice(None),)
     #y = add_trailing_axes(y, ndim-axis-1)
+    # Broadcast explicitly, because ufunc.at may read past a broadcasted y
+    y = np.broadcast_to(y, np.shape(x[indices]))
     ufunc.at(x, indices, y)
     return x
 
-- 
2.43.0


From f90303581c646cf624e17ed3d6878de764555fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 08/65] fix: Dirichlet's gradient uses the full Jacobian of the
 mapping

---
 bayespy/inference/vmp/nodes/dirichlet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 8825136..4412901 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -223,11 +223,14 @@ class DirichletDistribution(ExponentialFamilyDistribution):
 
            \nabla &=
            \begin{bmatrix}
-             (\psi^{(1)}(\phi_1) - \psi^{(1)}(\sum_d \phi_{1,d}) \nabla_1
+             \psi^{(1)}(\phi_1) \circ \tilde{\nabla}_1
+             - \psi^{(1)}(\sum_d \phi_{1,d}) \sum_d \tilde{\nabla}_{1,d}
            \end{bmatrix}
         """
         sum_phi = np.sum(phi[0], axis=-1, keepdims=True)
-        d0 = g[0] * (special.polygamma(1, phi[0]) - special.polygamma(1, sum_phi))
+        sum_g = np.sum(g[0], axis=-1, keepdims=True)
+        d0 = (g[0] * special.polygamma(1, phi[0])
+              - sum_g * special.polygamma(1, sum_phi))
         return [d0]
 
 
-- 
2.43.0


From 873e7ad3d21750a283fa5382408be03a40235f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 09/65] fix: Multinomial's gradient with an array of numbers of
 trials

---
 bayespy/inference/vmp/nodes/multinomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index dcf2393..cf6b44e 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -210,7 +210,8 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
             :math:`\phi`.
 
         """
-        return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
+        N = np.expand_dims(self.N, -1)
+        return [u[0] * (g[0] - linalg.inner(g[0], u[0])[...,None] / N)]
 
     def squeeze(self, axis):
         if np.ndim(self.N) < abs(axis):
-- 
2.43.0


From a64b4082fa9b490f8862968f4cc3c8017098812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:09 +0000
Subject: [PATCH 10/65] fix: GaussianMarkovChain takes the plates of its inputs
 into account

---
 bayespy/inference/vmp/nodes/gaussian_markov_chain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index c9a6084..3511e9a 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -619,7 +619,8 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         if inputs is not None:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1],
                                                  np.shape(nu_B)[:-3],
-                                                 np.shape(nu_AB)[:-4])
+                                                 np.shape(nu_AB)[:-4],
+                                                 np.shape(inputs)[:-2])
         else:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1])
 
@@ -933,8 +934,8 @@ class GaussianMarkovChain(_TemplateGaussianMarkovChain):
                  kwargs,
                  dims,
                  cls._total_plates(kwargs.get('plates'),
-                                   distribution.plates_from_parent(0, mu_Lambda.plates),
-                                   distribution.plates_from_parent(1, A_nu.plates)),
+                                   *[distribution.plates_from_parent(i, parent.plates)
+                                     for (i, parent) in enumerate(parents)]),
                  distribution,
                  moments,
                  _parent_moments)
-- 
2.43.0


From d1796b75c475ee7e50f97f96040437a070efbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 11/65] fix: messages through GaussianToGaussian keep
 off-diagonal elements of remaining axes

---
 bayespy/inference/vmp/nodes/gaussian.py |  8 ++++----
 bayespy/utils/misc.py                   | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ec1ddb2..a73ec5c 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -120,11 +120,11 @@ class GaussianToGaussian():
 
     def compute_message_to_parent(self, m, u_parent):
         # Handle broadcasting in m_child
+        shape_to = self.moments.shape
         m0 = m[0] * np.ones(self.shape_from)
-        m1 = (
-            misc.make_diag(m[1], ndim=self.ndim_from, ndim_from=self.ndim_to)
-            * misc.identity(*self.shape_from)
-        )
+        m1 = misc.make_diag(m[1] * np.ones(self.shape_from + shape_to),
+                            ndim=self.ndim_from,
+                            ndim_from=self.ndim_to)
         return [m0, m1]
 
 
diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index 868c85d..d83f500 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -1171,6 +1171,10 @@ def make_diag(X, ndim=1, ndim_from=0):
 
     Diagonality means that for the resulting array Y holds:
     Y[...,i_1,i_2,..,i_ndim,j_1,j_2,..,j_ndim] is zero if i_n!=j_n for any n.
+
+    If ndim_from>0, the last 2*ndim_from axes already form square arrays and
+    only the other ndim-ndim_from axes are made diagonal.  This is the inverse
+    operation of get_diag with ndim_to=ndim_from.
     """
     if ndim < 0:
         raise ValueError("Parameter ndim must be non-negative integer")
@@ -1196,14 +1200,13 @@ def make_diag(X, ndim=1, ndim_from=0):
 
     X = atleast_nd(X, ndim+ndim_from)
 
-    if ndim > 0:
-        if ndim_from > 0:
-            I = identity(*(np.shape(X)[-(ndim_from+ndim):-ndim_from]))
-        else:
-            I = identity(*(np.shape(X)[-ndim:]))
-        X = add_axes(X, axis=np.ndim(X)-ndim_from, num=ndim-ndim_from)
-        X = I * X
-    return X
+    n_diag = ndim - ndim_from
+    start = np.ndim(X) - ndim - ndim_from
+    I = identity(*(np.shape(X)[start:(start+n_diag)]))
+    I = add_axes(I, axis=n_diag, num=ndim_from)
+    I = add_axes(I, axis=np.ndim(I), num=ndim_from)
+    X = add_axes(X, axis=np.ndim(X)-ndim_from, num=n_diag)
+    return I * X
 
 
 def get_diag(X, ndim=1, ndim_to=0):
-- 
2.43.0


From 4896c925d73ec36370679b7005901b517010d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 12/65] fix: diagonal Wishart from gamma variables with
 broadcasted moments

---
 bayespy/inference/vmp/nodes/gamma.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 371d256..f295a57 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -381,10 +381,12 @@ class _GammaToDiagonalWishart(Deterministic):
 
     def get_moments(self):
         u = self.parents[0].get_moments()
+        D = self.dims[0][0]
 
-        # Form a diagonal matrix from the gamma variables
-        return [np.identity(self.dims[0][0]) * u[0][...,np.newaxis],
-                np.sum(u[1], axis=(-1))]
+        # Form a diagonal matrix from the gamma variables. The moments may be
+        # broadcasted over the plates, so sum explicitly over all D variables.
+        return [np.identity(D) * np.asanyarray(u[0])[...,np.newaxis],
+                np.sum(u[1] * np.ones(D), axis=(-1))]
 
     @staticmethod
     def _compute_message_to_parent(index, m_children, *u_parents):
-- 
2.43.0


From 77aea544d8153459efe6aee6a4b6feadde6b2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 13/65] fix: solve_triangular broadcasts singleton axes of the
 right-hand side

---
 bayespy/utils/linalg.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index 809e423..37047b0 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -248,10 +248,9 @@ def solve_triangular(U, B, ndim=1, **kwargs):
     l_u = len(sh_u)
     l_b = len(sh_b)
 
-    # Check which axis are iterated over with B along with U
-    ind_b = [slice(None)] * l_b
-    l_min = min(l_u, l_b)
-    jnd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==sh_u[i])
+    # Check which axes are iterated over with U. If B is singleton on such an
+    # axis, it is broadcasted.
+    jnd_u = tuple(i for i in range(-l_u,0) if sh_u[i] != 1)
 
     # Shape of the result (broadcasting rules)
     sh = misc.broadcasted_shape(sh_u, sh_b)
@@ -264,9 +263,13 @@ def solve_triangular(U, B, ndim=1, **kwargs):
         # which U is singleton and form them as a 2-D matrix and then
         # run the solver once.
 
-        # Select those axes of B for which U and B are not singleton
-        for j in jnd_b:
-            ind_b[j] = i[j]
+        # Select those axes for which U is not singleton
+        ind_b = [slice(None)] * l_b
+        ind_out = [slice(None)] * len(sh)
+        for j in jnd_u:
+            ind_out[j] = i[j]
+            if -j <= l_b:
+                ind_b[j] = i[j] if sh_b[j] != 1 else 0
 
         # Collect all the axes for which U is singleton
         b = B[tuple(ind_b) + (slice(None),)]
@@ -276,16 +279,11 @@ def solve_triangular(U, B, ndim=1, **kwargs):
         if b.ndim > 1:
             b = b.reshape((-1, b.shape[-1]))
 
-        # slice(None) to all preceeding axes and ellipsis for the last
-        # axis:
-        if len(ind_b) < len(sh):
-            ind_out = (slice(None),) + tuple(ind_b) + (slice(None),)
-        else:
-            ind_out = tuple(ind_b) + (slice(None),)
-
-        out[ind_out] = linalg.solve_triangular(U[i],
-                                               b.T,
-                                               **kwargs).T.reshape(orig_shape)
+        out[tuple(ind_out) + (slice(None),)] = (
+            linalg.solve_triangular(U[i],
+                                    b.T,
+                                    **kwargs).T.reshape(orig_shape)
+        )
 
     return out
 
-- 
2.43.0


From 96c3db682ab2586b4f30633c8411fa56f26bcf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 14/65] fix: flatten_axes and identity with an empty shape

---
 bayespy/utils/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index d83f500..a8366d9 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -41,7 +41,7 @@ def flatten_axes(X, *ndims):
     plates = shape[:i]
     nd_sums = i + np.cumsum((0,) + ndims)
     sizes = tuple(
-        np.prod(shape[i:j])
+        np.prod(shape[i:j], dtype=int)
         for (i, j) in zip(nd_sums[:-1], nd_sums[1:])
     )
     return np.reshape(X, plates + sizes)
@@ -476,7 +476,7 @@ def trues(shape):
     return np.ones(shape, dtype=np.bool)
 
 def identity(*shape):
-    return np.reshape(np.identity(np.prod(shape)), shape+shape)
+    return np.reshape(np.identity(np.prod(shape, dtype=int)), shape+shape)
 
 def array_to_scalar(x):
     # This transforms an N-dimensional array to a scalar. It's most
-- 
2.43.0


From 26a28ebd42787107a728b56694dc3017fdc09f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:29 +0000
Subject: [PATCH 15/65] fix: sum_to_dim sums over a tuple of axes

---
 bayespy/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index a8366d9..7e5dbc2 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -755,7 +755,7 @@ def sum_to_dim(A, dim):
     """
     dimdiff = np.ndim(A) - dim
     if dimdiff > 0:
-        axes = np.arange(dimdiff)
+        axes = tuple(range(dimdiff))
         A = np.sum(A, axis=axes)
     return A
 
-- 
2.43.0


From 2acdc6a302adf4e8ce5576054a8b2e7b95428d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 16/65] fix: Gaussian's log density and moments with ndim other
 than 1

---
 bayespy/inference/vmp/nodes/gaussian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index a73ec5c..7baf497 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -418,7 +418,6 @@ class GaussianDistribution(ExponentialFamilyDistribution):
         """
         # TODO: Compute -2*phi[1] and simplify the formulas
         L = linalg.chol(-2*phi[1], ndim=self.ndim)
-        k = np.shape(phi[0])[-1]
         Cov = linalg.chol_inv(L, ndim=self.ndim)
         mu = linalg.chol_solve(L, phi[0], ndim=self.ndim)
         # G
@@ -480,7 +479,7 @@ class GaussianDistribution(ExponentialFamilyDistribution):
            f(\mathbf{x})
            &= - \frac{D}{2} \log(2\pi)
         """
-        k = np.shape(x)[-1]
+        k = np.prod(self.shape)
         u = [x, linalg.outer(x, x, ndim=self.ndim)]
         f = -k/2*np.log(2*np.pi)
         return (u, f)
-- 
2.43.0


From 8b27f1904adce00a3a1308cb5186efce5b140bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 17/65] fix: Mixture.integrated_logpdf_from_parents when the
 cluster plate is not the last one

---
 bayespy/inference/vmp/nodes/mixture.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index d6ca5f6..73184f7 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -500,17 +500,20 @@ class Mixture(ExponentialFamily):
             # Shape(u) = [M1,..,Mm,N1,..,1,..,Nn,D1,..,Dd]
             # Shape(f) = [M1,..,Mm,N1,..,1,..,Nn]
             (u, f) = self._distribution.raw_distribution.compute_fixed_moments_and_f(x)
-            f = np.expand_dims(f, axis=self.cluster_plate)
+            if np.ndim(f) >= abs(self.cluster_plate):
+                f = np.expand_dims(f, axis=self.cluster_plate)
             for i in range(len(u)):
                 ndim_i = len(self.dims[i])
                 cluster_axis = self.cluster_plate - ndim_i
-                u[i] = np.expand_dims(u[i], axis=cluster_axis)
+                if np.ndim(u[i]) >= abs(cluster_axis):
+                    u[i] = np.expand_dims(u[i], axis=cluster_axis)
             # Shape(phi) = [N1,..,K,..,Nn,D1,..,Dd]
             phi = self._distribution.raw_distribution.compute_phi_from_parents(*(u_parents[1:]))
             # Shape(g) = [N1,..,K,..,Nn]
             g = self._distribution.raw_distribution.compute_cgf_from_parents(*(u_parents[1:]))
             # Shape(lpdf) = [M1,..,Mm,N1,..,K,..,Nn]
             lpdf = self._distribution.raw_distribution.compute_logpdf(u, phi, g, f, self.ndims)
+            lpdf = misc.atleast_nd(lpdf, abs(self.cluster_plate))
 
             # From logpdf to pdf, but avoid over/underflow
             lpdf_max = np.max(lpdf, axis=self.cluster_plate, keepdims=True)
@@ -526,7 +529,7 @@ class Mixture(ExponentialFamily):
 
             # Weighted average. TODO/FIXME: Use einsum!
             # Shape(pdf) = [M1,..,Mm,N1,..,Nn]
-            pdf = np.sum(pdf * p, axis=self.cluster_plate)
+            pdf = np.sum(pdf * p, axis=-1)
 
             # Back to log-scale (add the overflow fix!)
             lpdf_max = np.squeeze(lpdf_max, axis=self.cluster_plate)
-- 
2.43.0


From a7c68ecff14dc30461baa8a959f534e4978f5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 18/65] fix: GaussianGamma's marginal log densities, mean and
 variance

---
 bayespy/inference/vmp/nodes/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 7baf497..455295d 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -2022,7 +2022,7 @@ class GaussianGamma(ExponentialFamily):
         r"""
         Return the mean and variance of the distribution
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         a = self.phi[3]
@@ -2060,7 +2060,7 @@ class GaussianGamma(ExponentialFamily):
         function
             A function which computes log-pdf
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if gaussian is None and not gamma:
@@ -2130,7 +2130,7 @@ class GaussianGamma(ExponentialFamily):
                 return (random.gaussian_logpdf(z2, 
                                                0,
                                                0,
-                                               logdet_Cov + D*logtau, 
+                                               -logdet_Cov + D*logtau, 
                                                D) +
                         random.gamma_logpdf(b*tau,
                                             logtau,
-- 
2.43.0


From edfe119d3e6696edca74ee08c1d1fc725af5fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:07 +0000
Subject: [PATCH 19/65] fix: GaussianGamma's random samples

---
 bayespy/inference/vmp/nodes/gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 455295d..048f18b 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1119,11 +1119,11 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         r"""
         Draw a random sample from the distribution.
         """
-        # TODO/FIXME: This is incorrect, I think. Gamma distribution parameters
-        # aren't directly those, because phi has some parts from the Gaussian
-        # distribution.
+        # Note that phi[2] contains a term from the Gaussian distribution
+        U = linalg.chol(-2*phi[1], ndim=self.ndim)
+        m = linalg.chol_solve(U, phi[0], ndim=self.ndim)
         alpha = GammaDistribution().random(
-            phi[2],
+            phi[2] + 0.5 * linalg.inner(m, phi[0], ndim=self.ndim),
             phi[3],
             plates=plates
         )
-- 
2.43.0


From 5b19902dd9215dfdf9d210f662a3738d9b1ca9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 20/65] fix: logpdf of values when some other values have zero
 probability

---
 bayespy/inference/vmp/nodes/expfamily.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index f93ec57..72a3550 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -490,6 +490,8 @@ class ExponentialFamily(Stochastic):
         Z = 0
         for (phi_d, u_d, dims) in zip(self.phi, u, self.dims):
             axis_sum = tuple(range(-len(dims),0))
+            # Handle 0 * -inf
+            phi_d = np.where(u_d != 0, phi_d, 0)
             # TODO/FIXME: Use einsum here?
             Z = Z + np.sum(phi_d * u_d, axis=axis_sum)
             #Z = Z + misc.sum_multiply(phi_d, u_d, axis=axis_sum)
-- 
2.43.0


From 2aae94ba0dba22140c6abea22136a38230a3302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:14 +0000
Subject: [PATCH 21/65] fix: variance of GaussianGamma with plates

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 048f18b..e075144 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -2039,7 +2039,7 @@ class GaussianGamma(ExponentialFamily):
         var = misc.get_diag(self.u[1], ndim=1) - tau_mu*mu
         var = var / misc.add_trailing_axes(tau, 1)
 
-        var = nu / (nu-2) * var
+        var = misc.add_trailing_axes(nu / (nu-2), 1) * var
 
         return (mu, var)
 
-- 
2.43.0


From a4d233934264848dfa1537e04715174dc2f9fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 22/65] fix: autosaving counts the iteration it was done after

---
 bayespy/inference/vmp/vmp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index d1aea67..dd8dadc 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -746,9 +746,13 @@ class VB():
                     self.print("Converged at iteration %d." % (self.iter+1))
                 self.converged = True
 
+        self.annealing_changed = False
+
+        self.iter += 1
+
         # Auto-save, if requested
         if (self.autosave_iterations > 0
-            and np.mod(self.iter+1, self.autosave_iterations) == 0):
+            and np.mod(self.iter, self.autosave_iterations) == 0):
 
             if self.autosave_nodes is not None:
                 self.save(*self.autosave_nodes, filename=self.autosave_filename)
@@ -757,8 +761,4 @@ class VB():
             if verbose:
                 self.print('Auto-saved to %s' % self.autosave_filename)
 
-        self.annealing_changed = False
-
-        self.iter += 1
-
         return self.converged
-- 
2.43.0


From 2b77f3685053980b8ee9bedfe95ae26de1962077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:52 +0000
Subject: [PATCH 23/65] fix: continue inference after loading only some of the
 nodes

---
 bayespy/inference/vmp/vmp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index dd8dadc..7858cf7 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -346,6 +346,10 @@ class VB():
                 self.converged = h5f['converged'][...]
                 for node in nodes:
                     self.l[node] = h5f['boundterms'][node.name][...]
+                # The nodes which were not loaded need as many iterations
+                for (node, l) in self.l.items():
+                    if len(l) < len(self.L):
+                        self.l[node] = np.append(l, misc.nans(len(self.L) - len(l)))
                 try:
                     self.callback_output = h5f['callback_output'][...]
                 except KeyError:
-- 
2.43.0


From f2150ea524d8ef08c8ab7e4d02fced0c4db54545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 24/65] fix: load_user_data returns the saved user data

---
 bayespy/inference/vmp/vmp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 7858cf7..53f7212 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -297,13 +297,14 @@ class VB():
         f = h5py.File(filename, 'r')
         try:
             group = f['user_data']
+            user_data = {}
             for (key, value) in group.items():
-                user_data['key'] = value[...]
+                user_data[key] = value[...]
         except:
             raise
         finally:
             f.close()
-        return
+        return user_data
 
 
     def load(self, *nodes, filename=None, nodes_only=False):
-- 
2.43.0


From 2cf264870d0cbeacbb3a4f08a8258ad75b118a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:07 +0000
Subject: [PATCH 25/65] fix: VB.use_logging

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 53f7212..c37f097 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -109,7 +109,7 @@ class VB():
 
 
     def use_logging(self, use):
-        if use_logging:
+        if use:
             logger = logging.getLogger(__name__)
             self.print = logger.info
         else:
-- 
2.43.0


From 5d4fe1590f6fa67fdb7d5ad94b042d35ea0836ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:44 +0000
Subject: [PATCH 26/65] fix: lower bound before any iterations

---
 bayespy/inference/vmp/vmp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index c37f097..66f89b2 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -190,6 +190,8 @@ class VB():
                 for node in nodes}
 
     def loglikelihood_lowerbound(self):
+        if self.iter >= len(self.L):
+            self._append_iterations(100)
         L = 0
         for node in self.model:
             lp = node.lower_bound_contribution()
-- 
2.43.0


From 0fece096bd49c64e977c6bb5a3d873120c0acbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:17 +0000
Subject: [PATCH 27/65] fix: gradient of the rotation cost with gamma prior
 parameters that vary over elements

---
 bayespy/inference/vmp/transformations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 795e259..3d5cd6a 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -893,7 +893,9 @@ class RotateGaussianARD():
                                        1/b,
                                        D_b)
             D_logalpha     = -D_logb
-            D_a0_logalpha  = a0 * D_logalpha
+            D_a0_logalpha  = np.einsum('...i,...ij->...ij',
+                                       a0,
+                                       D_logalpha)
         else:
             XmuXmu_Dalpha = 0
             D_logalpha = 0
@@ -1055,9 +1057,8 @@ class RotateGaussianARD():
 
         if self.update_alpha:
 
-            D_alpha = -psi(alpha/b)
-            D_b0_alpha = b0 * D_alpha
-            D_a0_logalpha = a0 * D_logalpha
+            D_b0_alpha = -psi(b0*alpha/b)
+            D_a0_logalpha = -psi(a0/b)
 
             # Compute dH(alpha)
             # This cancels out with the log(alpha) term in log(p(alpha))
-- 
2.43.0


From ab2e89c0ffb28fdda33df8ccf099255ee1e7e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 28/65] fix: deleting nodes

---
 bayespy/inference/vmp/nodes/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 0092454..a2ce329 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -441,7 +441,7 @@ class Node():
         """
         Remove a child node.
         """
-        self.children.remove((child, index))
+        self.children.discard((child, index))
 
     def get_mask(self):
         return self.mask
@@ -700,10 +700,14 @@ class Node():
         """
         Delete this node and the children
         """
+        # The children remove themselves from this node, so use a copy
+        for (child, _) in list(self.children):
+            child.delete()
         for (ind, parent) in enumerate(self.parents):
             parent._remove_child(self, ind)
-        for (child, _) in self.children:
-            child.delete()
+        # The observations below this node are gone
+        for parent in self.parents:
+            parent._update_mask()
 
     @staticmethod
     def broadcasting_multiplier(plates, *args):
-- 
2.43.0


From fc0c1d2167a888219e5c2e6092c7db163196fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 29/65] fix: printing GaussianARD nodes

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index e075144..6c9d856 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1680,7 +1680,7 @@ class GaussianARD(_GaussianTemplate):
 
     def __str__(self):
         mu = self.u[0]
-        Cov = self.u[1] - linalg.outer(mu, mu)
+        Cov = self.u[1] - linalg.outer(mu, mu, ndim=len(self.dims[0]))
         return ("%s ~ Gaussian(mu, Cov)\n"
                 "  mu = \n"
                 "%s\n"
-- 
2.43.0


From 20bc55cdbb4c355a2b8e3bba98ee0ae95ab0bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 30/65] fix: printing Poisson nodes

---
 bayespy/inference/vmp/nodes/poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/poisson.py b/bayespy/inference/vmp/nodes/poisson.py
index 44893ac..dfc80c0 100644
--- a/bayespy/inference/vmp/nodes/poisson.py
+++ b/bayespy/inference/vmp/nodes/poisson.py
@@ -171,7 +171,7 @@ class Poisson(ExponentialFamily):
         Print the distribution using standard parameterization.
         """
         l = self.u[0]
-        return ("%s ~ Categorical(lambda)\n"
+        return ("%s ~ Poisson(lambda)\n"
                 "  lambda =\n"
                 "%s\n"
                 % (self.name, l))
-- 
2.43.0


From fff17ce05e767d91b084876ae70a2eb2d0486022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 31/65] fix: drawing random values of Categorical nodes

---
 bayespy/inference/vmp/nodes/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/categorical.py b/bayespy/inference/vmp/nodes/categorical.py
index 0cd234d..4182b6b 100644
--- a/bayespy/inference/vmp/nodes/categorical.py
+++ b/bayespy/inference/vmp/nodes/categorical.py
@@ -119,7 +119,7 @@ class CategoricalDistribution(MultinomialDistribution):
         Draw a random sample from the distribution.
         """
         logp = phi[0]
-        logp -= np.amax(logp, axis=-1, keepdims=True)
+        logp = logp - np.amax(logp, axis=-1, keepdims=True)
         p = np.exp(logp)
         return random.categorical(p, size=plates)
 
-- 
2.43.0


From fc9e146708b9393b5375a0f7e36664ebe8d57164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 32/65] fix: random draws of categorical Markov chains

---
 .../vmp/nodes/categorical_markov_chain.py     | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index c0af2f9..43467b4 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -179,15 +179,19 @@ class CategoricalMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Draw a random sample from the distribution.
         """
-        # Convert natural parameters to transition probabilities
-        p0 = np.exp(phi[0] - misc.logsumexp(phi[0],
-                                            axis=-1,
-                                            keepdims=True))
-        P = np.exp(phi[1] - misc.logsumexp(phi[1],
-                                           axis=-1,
-                                           keepdims=True))
-        # Explicit broadcasting
-        P = P * np.ones(plates)[...,None,None,None]
+        # Convert natural parameters to transition probabilities: a transition
+        # is weighted by the total weight of the paths that continue from it
+        K = np.shape(phi[0])[-1]
+        P = phi[1] * np.ones(plates + (self.N-1, K, K))
+        logz = 0
+        for n in reversed(range(self.N-1)):
+            P[...,n,:,:] += np.expand_dims(logz, -2) if n < self.N-2 else 0
+            logz = misc.logsumexp(P[...,n,:,:], axis=-1)
+        p0 = phi[0] + logz
+        p0 = np.exp(p0 - misc.logsumexp(p0, axis=-1, keepdims=True))
+        # (states from which no path continues are never visited)
+        logz = misc.logsumexp(P, axis=-1, keepdims=True)
+        P = np.exp(P - np.where(np.isfinite(logz), logz, 0))
         # Allocate memory
         Z = np.zeros(plates + (self.N,), dtype=np.int64)
         # Draw initial state
-- 
2.43.0


From 125394988cd2f92b203e2358ab897c89bf77a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 33/65] fix: random draws of Wishart matrices

---
 bayespy/utils/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/random.py b/bayespy/utils/random.py
index ba6b56d..a2873f6 100644
--- a/bayespy/utils/random.py
+++ b/bayespy/utils/random.py
@@ -69,7 +69,7 @@ def wishart(nu, V):
         raise ValueError("Degrees of freedom must be equal or greater than the "
                          "dimensionality of the matrix.")
     X = np.random.multivariate_normal(np.zeros(D), V, size=nu)
-    return np.dot(X, X.T)
+    return np.dot(X.T, X)
 
 wishart_rand = wishart
 
-- 
2.43.0


From 463d55e842ecb4088ff2518d15a93bbea33c6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 34/65] fix: pass the value when computing the moments of a
 fixed binomial variable

---
 bayespy/inference/vmp/nodes/binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 13359fc..b134a65 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -45,7 +45,7 @@ class BinomialMoments(PoissonMoments):
         x = np.asanyarray(x)
         if np.any(x > self.N):
             raise ValueError("Invalid count")
-        return super().compute_fixed_moments()
+        return super().compute_fixed_moments(x)
 
 
     def compute_dims_from_values(self, x):
-- 
2.43.0


From b34a15b591496f3c6d672590e068daa084a877f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 35/65] fix: plate slices with a negative step down to the
 first element

---
 bayespy/inference/vmp/nodes/node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index a2ce329..91fd495 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -867,7 +867,9 @@ from .deterministic import Deterministic
 def slicelen(s, length=None):
     if length is not None:
         s = slice(*(s.indices(length)))
-    return max(0, misc.ceildiv(s.stop - s.start, s.step))
+    # A slice running down to the first element has no stop
+    stop = -1 if s.stop is None else s.stop
+    return max(0, misc.ceildiv(stop - s.start, s.step))
 
 class Slice(Deterministic):
 
@@ -978,6 +980,10 @@ class Slice(Deterministic):
                 s = slice(*(s.indices(X.plates[j])))
                 if slicelen(s) <= 0:
                     raise IndexError("Slicing leads to empty plates")
+                if s.stop < 0:
+                    # A negative step running down to the first element: the
+                    # stop -1 would be interpreted as the last element
+                    s = slice(s.start, None, s.step)
                 slices[k] = s
                 j += 1
 
-- 
2.43.0


From a7653232a7760b99902973eb3dfc643ea197e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 36/65] fix: tile node for variables whose moments need
 conversion arguments

---
 bayespy/inference/vmp/nodes/deterministic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/deterministic.py b/bayespy/inference/vmp/nodes/deterministic.py
index 7650951..b9a7642 100644
--- a/bayespy/inference/vmp/nodes/deterministic.py
+++ b/bayespy/inference/vmp/nodes/deterministic.py
@@ -181,10 +181,9 @@ def tile(X, tiles):
     
     class _Tile(Deterministic):
 
-        _parent_moments = (Moments(),)
-        
         def __init__(self, X, **kwargs):
             self._moments = X._moments
+            self._parent_moments = (X._moments,)
             super().__init__(X, dims=X.dims, **kwargs)
     
         def _compute_plates_to_parent(self, index, plates):
-- 
2.43.0


From e13325defd618134554e016ea17008a904fb2b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 37/65] fix: nested mixtures of distributions with an array of
 trial counts

---
 bayespy/inference/vmp/nodes/mixture.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 73184f7..f72f810 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -50,6 +50,24 @@ class MixtureDistribution(ExponentialFamilyDistribution):
         self.K = n_clusters
 
 
+    def squeeze(self, axis):
+        """
+        Squeeze a plate axis from the distribution
+        """
+        # The mixed distribution has the cluster plate axis in addition
+        if axis > self.cluster_plate:
+            raw_axis = axis
+            cluster_plate = self.cluster_plate + 1
+        else:
+            raw_axis = axis - 1
+            cluster_plate = self.cluster_plate
+        return MixtureDistribution(self.raw_distribution.squeeze(raw_axis),
+                                   cluster_plate,
+                                   self.K,
+                                   self.ndims,
+                                   self.ndims_parents)
+
+
     def compute_message_to_parent(self, parent, index, u, *u_parents):
         """
         Compute the message to a parent node.
-- 
2.43.0


From 766cdb859591d4ebc7515fcca25f81494f9dbe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 38/65] fix: let plate multipliers follow the plates through
 mixtures, gates, slices and converters

---
 .../vmp/nodes/categorical_markov_chain.py     |  3 +++
 bayespy/inference/vmp/nodes/gamma.py          |  3 +++
 bayespy/inference/vmp/nodes/gate.py           |  5 ++++
 .../vmp/nodes/gaussian_markov_chain.py        |  3 +++
 bayespy/inference/vmp/nodes/node.py           | 25 +++++++++++++++++--
 bayespy/inference/vmp/nodes/stochastic.py     |  5 ++++
 6 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index 43467b4..fedc9c1 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -436,6 +436,9 @@ class CategoricalMarkovChainToCategorical(Deterministic):
         else:
             raise ValueError("Parent index out of bounds")
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        return plates_multiplier + (1,)
+
 
 # Make use of the conversion node
 CategoricalMarkovChainMoments.add_converter(CategoricalMoments,
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index f295a57..3cccd5c 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -375,6 +375,9 @@ class _GammaToDiagonalWishart(Deterministic):
     def _plates_from_parent(self, index):
         return self.parents[index].plates[:-1]
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        return plates_multiplier[:-1]
+
     @staticmethod
     def _compute_weights_to_parent(index, weights):
         return weights[..., np.newaxis]
diff --git a/bayespy/inference/vmp/nodes/gate.py b/bayespy/inference/vmp/nodes/gate.py
index 81ca607..1e68d2f 100644
--- a/bayespy/inference/vmp/nodes/gate.py
+++ b/bayespy/inference/vmp/nodes/gate.py
@@ -216,6 +216,11 @@ class Gate(Deterministic):
             raise ValueError("Invalid parent index")
 
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        # The multipliers follow the plates
+        return self._compute_plates_from_parent(index, plates_multiplier)
+
+
 def Choose(z, *nodes):
     """Choose plate elements from nodes based on a categorical variable.
 
diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 3511e9a..24b0617 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -2067,6 +2067,9 @@ class _MarkovChainToGaussian(Deterministic):
         plates = parent.plates + (parent.dims[0][0],)
         return plates
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        return plates_multiplier + (1,)
+
     def _compute_moments(self, u):
         """
         Transform the moments of a GMC to moments of a Gaussian.
diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 91fd495..38223a7 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -387,7 +387,8 @@ class Node():
 
 
     def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
-        # TODO/FIXME: How to handle this properly?
+        # Sub-classes which manipulate plates should manipulate the multipliers
+        # similarly
         return plates_multiplier
 
 
@@ -401,9 +402,15 @@ class Node():
 
 
     def _plates_multiplier_from_parent(self, index):
+        parent = self.parents[index]
+        multiplier = tuple(parent.plates_multiplier)
+        if len(multiplier) == 0:
+            return ()
+        # One multiplier for each plate axis
+        ones = (1,) * (len(parent.plates) - len(multiplier))
         return self._compute_plates_multiplier_from_parent(
             index,
-            self.parents[index].plates_multiplier
+            ones + multiplier
         )
 
 
@@ -1027,6 +1034,20 @@ class Slice(Deterministic):
 
         return tuple(plates)
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+
+        multiplier = []
+        k = 0
+        for s in self.slices:
+            if s is None:
+                multiplier.append(1)
+            else:
+                if isinstance(s, slice):
+                    multiplier.append(plates_multiplier[k])
+                k += 1
+
+        return tuple(multiplier)
+
     @staticmethod
     def __reverse_indexing(slices, m_child, plates, dims):
         """
diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index bc2e090..afbef5c 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -165,6 +165,11 @@ class Stochastic(Node):
         return self._distribution.plates_from_parent(index, plates)
 
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        # The multipliers follow the plates
+        return self._compute_plates_from_parent(index, plates_multiplier)
+
+
     def _compute_weights_to_parent(self, index, weights):
         return self._distribution.compute_weights_to_parent(index, weights)
 
-- 
2.43.0


From 53d5a66b41d2720153fa85a5922ca8bc99ddf342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 39/65] fix: apply plate multipliers in the messages of
 SumMultiply

---
 bayespy/inference/vmp/nodes/dot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 0659ae4..2993d5b 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -451,6 +451,12 @@ class SumMultiply(Deterministic):
 
         parent = self.parents[index]
 
+        # Multiplier of the plates that the parent does not have
+        multiplier = self.broadcasting_multiplier(
+            self.plates_multiplier,
+            self._plates_multiplier_from_parent(index)
+        )
+
         #
         # Compute the first message
         #
@@ -609,7 +615,7 @@ class SumMultiply(Deterministic):
             # factor.
             r = self.broadcasting_multiplier(self.plates,
                                              result_plates,
-                                             parent.plates)
+                                             parent.plates) * multiplier
             if r != 1:
                 msg[ind] *= r
 
@@ -628,7 +634,7 @@ class SumMultiply(Deterministic):
                                        plates_from=self.plates,
                                        plates_to=parent.plates)
 
-            msg = msg + [m2, m3]
+            msg = msg + [multiplier * m2, multiplier * m3]
 
         return msg
 
-- 
2.43.0


From ddea5c35f4b9906439c7fad1ef31dbb3461370ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 40/65] fix: compare optimization steps to the bound of the
 current state

---
 bayespy/inference/vmp/vmp.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 66f89b2..6294479 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -489,6 +489,9 @@ class VB():
         p = self.get_parameters(*nodes)
         dd_prev = 0
 
+        # Lower bound of the current state
+        L_prev = self.compute_lowerbound()
+
         for i in range(maxiter):
 
             t = time.time()
@@ -558,9 +561,8 @@ class VB():
                 L = self.compute_lowerbound()
 
                 bound_decreased = (
-                    self.iter > 0 and
-                    L < self.L[self.iter-1] and
-                    not np.allclose(L, self.L[self.iter-1], rtol=1e-8)
+                    L < L_prev and
+                    not np.allclose(L, L_prev, rtol=1e-8)
                 )
 
                 if np.isnan(L) or bound_decreased:
@@ -574,7 +576,7 @@ class VB():
                             self.print(
                                 "Gradient ascent decreased lower bound from {0} to {1}, halfing step length"
                                 .format(
-                                    self.L[self.iter-1],
+                                    L_prev,
                                     L,
                                 )
                             )
@@ -584,7 +586,7 @@ class VB():
                                 self.print(
                                     "CG decreased lower bound from {0} to {1}, reset CG."
                                     .format(
-                                        self.L[self.iter-1],
+                                        L_prev,
                                         L,
                                     )
                                 )
@@ -596,7 +598,7 @@ class VB():
                                 self.print(
                                     "CG decreased lower bound from {0} to {1}, halfing step length"
                                     .format(
-                                        self.L[self.iter-1],
+                                        L_prev,
                                         L,
                                     )
                                 )
@@ -606,6 +608,7 @@ class VB():
 
             scale = scale * np.sqrt(2)
             p = p_new
+            L_prev = L
 
             cputime = time.time() - t
             if self._end_iteration_step('OPT', cputime, tol=tol, verbose=verbose):
-- 
2.43.0


From fbe379ab56c20cca9c40c0c7ca61f235d00f1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 41/65] fix: keep pattern search from accepting invalid
 parameters

---
 bayespy/inference/vmp/vmp.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 6294479..bfad456 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -646,22 +646,31 @@ class VB():
         dp = self.add(p1, p0, scale=-1)
 
         # Cost function for pattern search
+        p_collapsed = self.get_parameters(*collapsed)
         def cost(alpha):
             p_new = self.add(p1, dp, scale=alpha)
             try:
                 self.set_parameters(p_new, *nodes)
-            except:
+                # Update collapsed nodes
+                for x in collapsed:
+                    self[x].update()
+                L = self.compute_lowerbound()
+            except Exception:
+                L = np.nan
+            if np.isnan(L):
+                # Invalid parameters, restore the collapsed nodes
+                self.set_parameters(p_collapsed, *collapsed)
                 return np.inf
-            # Update collapsed nodes
-            for x in collapsed:
-                self[x].update()
-            return -self.compute_lowerbound()
+            return -L
 
         # Optimize step length
         res = scipy.optimize.minimize_scalar(cost, bracket=[0, 3], options={'maxiter':maxiter})
 
+        # Use the plain updates if the search did not find anything better
+        alpha = res.x if cost(res.x) < cost(0) else 0
+
         # Set found parameter values
-        p_new = self.add(p1, dp, scale=res.x)
+        p_new = self.add(p1, dp, scale=alpha)
         self.set_parameters(p_new, *nodes)
 
         # Update collapsed nodes
-- 
2.43.0


From 9bea0c6ea29a89bdb483ce95873dcdc19abe2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 42/65] fix: bound of GammaShape and Concentration in VB

---
 bayespy/inference/vmp/nodes/dirichlet.py | 12 +++++++-----
 bayespy/inference/vmp/nodes/gamma.py     |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 4412901..42718bb 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -326,11 +326,13 @@ class Concentration(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
-        return (
-            linalg.inner(self.u[0], self.regularization[0], ndim=1)
-            + self.u[1] * self.regularization[1]
-        )
+    def lower_bound_contribution(self, ignore_masked=True):
+        (alpha, z) = [
+            np.broadcast_to(u, self.get_shape(i))
+            for (i, u) in enumerate(self.u)
+        ]
+        (logp, N) = self.regularization
+        return np.sum(alpha * logp) + np.sum(z * N)
 
 
 class Dirichlet(ExponentialFamily):
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 3cccd5c..3959ae0 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -330,8 +330,9 @@ class GammaShape(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
-        return 0
+    def lower_bound_contribution(self, ignore_masked=True):
+        (x, gammaln_x) = [np.broadcast_to(u, self.plates) for u in self.u]
+        return np.sum(self._m0 * x + self._m1 * gammaln_x)
 
 
 class _GammaToDiagonalWishart(Deterministic):
-- 
2.43.0


From 0081cf537b66a3d75d9d040c078f2c521a7c9de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 43/65] fix: register a node with its parents only after
 validating it

---
 bayespy/inference/vmp/nodes/node.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 38223a7..45c4315 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -269,11 +269,6 @@ class Node():
             if len(parent_id_list) != len(set(parent_id_list)):
                 raise ValueError("Parent nodes are not independent")
 
-        # Inform parent nodes
-        if notify_parents:
-            for (index,parent) in enumerate(self.parents):
-                parent._add_child(self, index)
-
         # Check plates
         parent_plates = [self._plates_from_parent(index)
                          for index in range(len(self.parents))]
@@ -300,6 +295,12 @@ class Node():
                                               *parent_plates_multiplier)
         self.plates_multiplier = plates_multiplier
 
+        # Inform parent nodes. This is done only after the checks above so that
+        # an invalid node isn't left as a child of its parents.
+        if notify_parents:
+            for (index,parent) in enumerate(self.parents):
+                parent._add_child(self, index)
+
 
     def get_pdf_nodes(self):
         return tuple(
-- 
2.43.0


From 63f9f102efd86835b0902415f78334472e2336f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 44/65] fix: reject negative counts as fixed values

---
 bayespy/inference/vmp/nodes/poisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/poisson.py b/bayespy/inference/vmp/nodes/poisson.py
index dfc80c0..d4f4905 100644
--- a/bayespy/inference/vmp/nodes/poisson.py
+++ b/bayespy/inference/vmp/nodes/poisson.py
@@ -38,6 +38,8 @@ class PoissonMoments(Moments):
         x = np.asanyarray(x)
         if not misc.isinteger(x):
             raise ValueError("Count not integer")
+        if np.any(x < 0):
+            raise ValueError("Count must be non-negative")
         # Now, the moments are just the counts
         return [x]
 
-- 
2.43.0


From 971ed744f4106e9e729f9c34a84a8599ad20fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 45/65] fix: validate the shape of GaussianARD and the
 precision of GaussianGamma

---
 bayespy/inference/vmp/nodes/gaussian.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 6c9d856..cdbb85b 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1101,6 +1101,8 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         Compute the moments and :math:`f(x)` for a fixed value.
         """
         (x, alpha) = x_alpha
+        if np.any(np.asanyarray(alpha) < 0):
+            raise ValueError("Precision must be positive")
         logalpha = np.log(alpha)
         u0 = x * misc.add_trailing_axes(alpha, self.ndim)
         u1 = linalg.outer(x, x, ndim=self.ndim) * misc.add_trailing_axes(alpha, 2*self.ndim)
@@ -1641,6 +1643,13 @@ class GaussianARD(_GaussianTemplate):
                         )
                     shape = mu_alpha.plates[-ndim:]
 
+        # The trailing plates of the parents must broadcast to the shape
+        if ndim > 0 and not misc.is_shape_subset(mu_alpha.plates[-ndim:], shape):
+            raise ValueError(
+                "Shape {0} is inconsistent with the parents' plates {1}"
+                .format(shape, mu_alpha.plates)
+            )
+
         moments = GaussianMoments(shape)
         parent_moments = [GaussianGammaMoments(())]
         distribution = GaussianARDDistribution(shape)
-- 
2.43.0


From 5bf273f548c38dd46678a6a319ceba5849f60e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 46/65] fix: validate input of ExponentialFamily before
 changing its state

---
 bayespy/inference/vmp/nodes/expfamily.py | 31 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index 72a3550..fdb5444 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -200,7 +200,7 @@ class ExponentialFamily(Stochastic):
             if ndim > 0:
                 if np.shape(u[i])[-ndim:] != self.dims[i]:
                     raise ValueError("The initial value for node %s has invalid shape %s."
-                                     % (np.shape(x)))
+                                     % (self.name, np.shape(x)))
         self._set_moments_and_cgf(u, np.inf, mask=mask)
 
     def initialize_from_random(self):
@@ -219,7 +219,7 @@ class ExponentialFamily(Stochastic):
         # No, because some initialization methods may want to use this.
 
         # This makes correct broadcasting
-        self.phi = [
+        phi = [
             a + b
             for (a, b) in zip(
                 self._distribution.compute_phi_from_parents(*u_parents),
@@ -228,27 +228,29 @@ class ExponentialFamily(Stochastic):
         ]
         # Make sure phi has the correct number of axes. It makes life
         # a bit easier elsewhere.
-        for i in range(len(self.phi)):
-            axes = len(self.plates) + self.ndims[i] - np.ndim(self.phi[i])
+        for i in range(len(phi)):
+            axes = len(self.plates) + self.ndims[i] - np.ndim(phi[i])
             if axes > 0:
                 # Add axes
-                self.phi[i] = misc.add_leading_axes(self.phi[i], axes)
+                phi[i] = misc.add_leading_axes(phi[i], axes)
             elif axes < 0:
                 # Remove extra leading axes
                 first = -(len(self.plates)+self.ndims[i])
-                sh = np.shape(self.phi[i])[first:]
-                self.phi[i] = np.reshape(self.phi[i], sh)
+                sh = np.shape(phi[i])[first:]
+                phi[i] = np.reshape(phi[i], sh)
             # Check that the shape is correct
-            if not misc.is_shape_subset(np.shape(self.phi[i]),
+            if not misc.is_shape_subset(np.shape(phi[i]),
                                          self.get_shape(i)):
                 raise ValueError("Incorrect shape of phi[%d] in node class %s. "
                                  "Shape is %s but it should be broadcastable "
                                  "to shape %s."
                                  % (i,
                                     self.__class__.__name__,
-                                    np.shape(self.phi[i]),
+                                    np.shape(phi[i]),
                                     self.get_shape(i)))
 
+        self.phi = phi
+
     def _set_moments_and_cgf(self, u, g, mask=True):
         self._set_moments(u, mask=mask)
 
@@ -335,7 +337,10 @@ class ExponentialFamily(Stochastic):
         optimization, that is, use log transformation for positive
         parameters.
         """
-        self.phi = self._decode_parameters(x)
+        phi = self._decode_parameters(x)
+        if len(phi) != len(self.dims):
+            raise ValueError("Wrong number of parameters")
+        self.phi = phi
         self._update_moments_and_cgf()
         return
 
@@ -371,6 +376,12 @@ class ExponentialFamily(Stochastic):
         Fix moments, compute f and propagate mask.
         """
 
+        # Check the mask before anything is changed
+        if not misc.is_shape_subset(np.shape(mask), self.plates):
+            raise ValueError("Mask has shape {0} but it should be broadcastable "
+                             "to plates {1}"
+                             .format(np.shape(mask), self.plates))
+
         # Compute fixed moments
         (u, f) = self._distribution.compute_fixed_moments_and_f(x, *args,
                                                                 mask=mask)
-- 
2.43.0


From a3507b3b651490514513d7169b3d59be21c1621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 47/65] fix: RotateGaussian

---
 bayespy/inference/vmp/transformations.py | 57 ++++++++++++++----------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 3d5cd6a..b2c4148 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -238,57 +238,68 @@ class RotateGaussian():
         This method should be called just before optimization.
         """
         
-        mask = self.X.mask[...,np.newaxis,np.newaxis]
+        plates = self.X.plates
+        (D,) = self.X.dims[0]
+        mask = np.broadcast_to(self.X.mask, plates)
 
         # Number of plates
-        self.N = self.X.plates[0] #np.sum(mask)
-
-        # Compute the sum <XX> over plates
-        self.XX = misc.sum_multiply(self.X.get_moments()[1],
-                                    mask,
-                                    axis=(-1,-2),
-                                    sumaxis=False,
-                                    keepdims=False)
+        self.N = np.sum(mask)
+
+        # Compute the sums <X> and <XX> over plates
+        (X, XX) = self.X.get_moments()
+        XX = np.broadcast_to(XX, plates + (D, D))
+        self.XX = np.sum(XX[mask], axis=0)
+
         # Parent's moments
-        self.Lambda = self.X.parents[1].get_moments()[0]
+        (Lambda_mu, _, Lambda, _) = self.X.parents[0].get_moments()
+        if np.size(Lambda) != D * D:
+            raise NotImplementedError(
+                "Precision matrix must be constant over plates"
+            )
+        self.Lambda = np.reshape(Lambda, (D, D))
+        X = np.broadcast_to(X, plates + (D,))
+        Lambda_mu = np.broadcast_to(Lambda_mu, plates + (D,))
+        self.XmuLambda = np.einsum('ni,nj->ij', Lambda_mu[mask], X[mask])
+
+
+    def _compute_bound(self, R, logdet=None, inv=None, gradient=False,
+                       terms=False):
 
-    def _compute_bound(self, R, logdet=None, inv=None, gradient=False):
-        
         """
         Rotate q(X) as X->RX: q(X)=N(R*mu, R*Cov*R')
 
         Assume:
         :math:`p(\mathbf{X}) = \prod^M_{m=1} 
-               N(\mathbf{x}_m|0, \mathbf{\Lambda})`
+               N(\mathbf{x}_m|\mathbf{\mu}_m, \mathbf{\Lambda})`
         """
 
         # TODO/FIXME: X and alpha should NOT contain observed values!! Check
         # that.
 
-        # TODO/FIXME: Allow non-zero prior mean!
-
-        # Assume constant mean and precision matrix over plates..
+        # Assume constant precision matrix over plates..
 
         # Compute rotated moments
         XX_R = dot(R, self.XX, R.T)
 
-        inv_R = inv
-        logdet_R = logdet
+        if inv is None:
+            inv = np.linalg.inv(R)
+        if logdet is None:
+            logdet = np.linalg.slogdet(R)[1]
 
         # Compute entropy H(X)
-        logH_X = random.gaussian_entropy(-2*self.N*logdet_R, 
+        logH_X = random.gaussian_entropy(-2*self.N*logdet,
                                          0)
 
         # Compute <log p(X)>
         logp_X = random.gaussian_logpdf(np.vdot(XX_R, self.Lambda),
-                                        0,
+                                        np.vdot(R, self.XmuLambda),
                                         0,
                                         0,
                                         0)
 
         # Compute the bound
         if terms:
-            bound = {self.X: bound}
+            bound = {self.X: logp_X + logH_X}
         else:
             bound = logp_X + logH_X
 
@@ -296,13 +307,13 @@ class RotateGaussian():
             return bound
 
         # Compute dH(X)
-        dlogH_X = random.gaussian_entropy(-2*self.N*inv_R.T,
+        dlogH_X = random.gaussian_entropy(-2*self.N*inv.T,
                                           0)
 
         # Compute d<log p(X)>
         dXX = 2*dot(self.Lambda, R, self.XX)
         dlogp_X = random.gaussian_logpdf(dXX,
-                                         0,
+                                         self.XmuLambda,
                                          0,
                                          0,
                                          0)
-- 
2.43.0


From 903a8dbcfc9ba13e5e72adca2cf6afc40c7e3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 48/65] fix: draw densities on the given axes

---
 bayespy/plot.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index b2414c5..2575838 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -183,12 +183,11 @@ def pdf(Z, x, *args, name=None, axes=None, fig=None, **kwargs):
 
     # TODO: Make it possible to plot a plated variable using _subplots function.
 
-    if axes is None and fig is None:
-        axes = plt.gca()
-    else:
+    if axes is None:
         if fig is None:
-            fig = plt.gcf()
-        axes = fig.add_subplot(111)
+            axes = plt.gca()
+        else:
+            axes = fig.add_subplot(111)
 
     try:
         lpdf = Z.logpdf(x)
@@ -229,12 +228,11 @@ def contour(Z, x, y, n=None, axes=None, fig=None, **kwargs):
 
     # TODO: Make it possible to plot a plated variable using _subplots function.
 
-    if axes is None and fig is None:
-        axes = plt.gca()
-    else:
+    if axes is None:
         if fig is None:
-            fig = plt.gcf()
-        axes = fig.add_subplot(111)
+            axes = plt.gca()
+        else:
+            axes = fig.add_subplot(111)
 
     XY = misc.grid(x, y)
     try:
-- 
2.43.0


From c30f115afba71135dd13aae0a142d57b1c64ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 49/65] fix: contour with grids of different lengths

---
 bayespy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 2575838..7312d39 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -240,7 +240,7 @@ def contour(Z, x, y, n=None, axes=None, fig=None, **kwargs):
     except AttributeError:
         lpdf = Z(XY)
     p = np.exp(lpdf)
-    shape = (np.size(x), np.size(y))
+    shape = (np.size(y), np.size(x))
     X = np.reshape(XY[:,0], shape)
     Y = np.reshape(XY[:,1], shape)
     P = np.reshape(p, shape)
-- 
2.43.0


From 31a33679851efe4425a05e463eeff7c71b32f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 50/65] fix: plot functions with broadcasted moments

---
 bayespy/plot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 7312d39..1b6b203 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -270,7 +270,8 @@ def plot_bernoulli(X, axis=-1, scale=2, **kwargs):
     """
     X = X._ensure_moments(X, BernoulliMoments)
     u_X = X.get_moments()
-    z = u_X[0]
+    # Broadcast plates explicitly
+    z = np.broadcast_to(u_X[0], X.plates)
     return _timeseries_mean_and_error(z, None, axis=axis, **kwargs)
 
 
@@ -292,6 +293,11 @@ def plot_gaussian(X, axis=-1, scale=2, **kwargs):
     std = scale * np.sqrt(xx - x**2)
     #std = scale * np.sqrt(np.einsum('...ii->...i', xx) - x**2)
 
+    # Broadcast plates explicitly
+    shape = X.get_shape(0)
+    x = np.broadcast_to(x, shape)
+    std = np.broadcast_to(std, shape)
+
     return _timeseries_mean_and_error(x, std, axis=axis, **kwargs)
 
 
@@ -341,9 +347,6 @@ def timeseries(*args, center=True, **kwargs):
 
 
 def _timeseries_mean_and_error(y, std, *args, axis=-1, center=True, fig=None, axes=None, **kwargs):
-    # TODO/FIXME: You must multiply by ones(plates) in order to plot
-    # broadcasted plates properly
-
     if fig is None:
         fig = plt.gcf()
 
-- 
2.43.0


From 559220431a726b0b50bc157823974b412f261ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 51/65] fix: ellipses of Gaussian mixtures

---
 bayespy/plot.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 1b6b203..0cfc1ef 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -461,14 +461,17 @@ def gaussian_mixture_2d(X, alpha=None, scale=2, fill=False, axes=None, **kwargs)
 
     mu_Lambda = X._ensure_moments(X.parents[1], GaussianWishartMoments)
 
-    (mu, _, Lambda, _) = mu_Lambda.get_moments()
-    mu = np.linalg.solve(Lambda, mu)
-
     if len(mu_Lambda.plates) != 1:
         raise NotImplementedError("Not yet implemented for more plates")
 
     K = mu_Lambda.plates[0]
 
+    # Broadcast plates explicitly
+    (mu, _, Lambda, _) = mu_Lambda.get_moments()
+    Lambda = np.broadcast_to(Lambda, (K, 2, 2))
+    mu = np.broadcast_to(mu, (K, 2))
+    mu = np.linalg.solve(Lambda, mu[...,None])[...,0]
+
     width = np.zeros(K)
     height = np.zeros(K)
     angle = np.zeros(K)
@@ -481,7 +484,7 @@ def gaussian_mixture_2d(X, alpha=None, scale=2, fill=False, axes=None, **kwargs)
         u[1] = np.sqrt(1/u[1])
         width[k] = 2*u[0]
         height[k] = 2*u[1]
-        angle[k] = np.arctan(W[0,1] / W[0,0])
+        angle[k] = np.arctan2(W[1,0], W[0,0])
 
     angle = 180 * angle / np.pi
     mode_height = 1 / (width * height)
@@ -506,13 +509,13 @@ def gaussian_mixture_2d(X, alpha=None, scale=2, fill=False, axes=None, **kwargs)
                                   **kwargs)
         axes.add_artist(ell)
 
-    plt.axis('equal')
+    axes.axis('equal')
 
     # If observed, plot the data too
     if np.any(X.observed):
-        mask = np.array(X.observed) * np.ones(X.plates, dtype=np.bool)
+        mask = np.array(X.observed) * np.ones(X.plates, dtype=bool)
         y = X.u[0][mask]
-        plt.plot(y[:,0], y[:,1], 'r.')
+        axes.plot(y[:,0], y[:,1], 'r.')
 
     return
 
-- 
2.43.0


From aa99e684bd2c84d5735ed5323715911980c73b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 52/65] fix: row axis of a Hinton diagram of a vector

---
 bayespy/plot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 0cfc1ef..1fb635e 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -730,6 +730,11 @@ def _hinton_figure(x, rows=None, cols=None, fig=None, square=True):
                 rows -= 1
     x = np.reshape(x, squeezed_shape)
 
+    if np.ndim(x) < 2:
+        cols += 2 - np.ndim(x)
+        rows += 2 - np.ndim(x)
+        x = np.atleast_2d(x)
+
     size = np.ndim(x)
     if np.isnan(cols):
         if rows != size - 1:
-- 
2.43.0


From dc3a7f4e26179b4248ad3273aff953fc4136410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 53/65] fix: angle of the ellipse must be a keyword

---
 bayespy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 1fb635e..ce5c3c4 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -1398,7 +1398,7 @@ def ellipse_from_cov(xy, cov, scale=2, **kwargs):
     evals, evecs = np.linalg.eigh(cov)
     angle = np.arctan2(*evecs[::-1, 0])
     width, height = scale * np.sqrt(evals)
-    return patches.Ellipse(xy, width, height, np.rad2deg(angle), **kwargs)
+    return patches.Ellipse(xy, width, height, angle=np.rad2deg(angle), **kwargs)
 
 
 def ellipse_from_precision(xy, precision, scale=2, **kwargs):
-- 
2.43.0


From 503fc428057675609296e40783881966372fce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 54/65] fix: plot_iteration_by_nodes with full bound arrays

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index bfad456..a11506e 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -212,7 +212,7 @@ class VB():
             axes = plt.gca()
 
         D = len(self.l)
-        N = self.iter + 1
+        N = self.iter
         if diff:
             L = np.empty((N-1,D))
             x = np.arange(N-1) + 2
-- 
2.43.0


From 38f1df8d76cead32608c1c23b71242fc8c1aecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 55/65] fix: GaussianGamma.plotmatrix

---
 bayespy/inference/vmp/nodes/gaussian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index cdbb85b..3ff688c 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1959,7 +1959,7 @@ class GaussianGamma(ExponentialFamily):
         """
         import bayespy.plot as bpplt
         
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if np.prod(self.plates) != 1:
@@ -1976,7 +1976,6 @@ class GaussianGamma(ExponentialFamily):
         mu = self.u[0]
         mu = mu / misc.add_trailing_axes(tau, 1)
         Cov = self.u[1] - linalg.outer(self.u[0], mu, ndim=1)
-        Cov = Cov / misc.add_trailing_axes(tau, 2)
         a = self.phi[3]
         b = -self.phi[2] - 0.5*linalg.inner(self.phi[0], mu, ndim=1)
 
-- 
2.43.0


From 2d11d2b1da2896b7dbfdf04d96ec45cf54915a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 56/65] fix: Constant.set_value

---
 bayespy/inference/vmp/nodes/constant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/constant.py b/bayespy/inference/vmp/nodes/constant.py
index ccc578c..f57f9dd 100644
--- a/bayespy/inference/vmp/nodes/constant.py
+++ b/bayespy/inference/vmp/nodes/constant.py
@@ -64,15 +64,17 @@ class Constant(Node):
     def set_value(self, x):
         x = np.asanyarray(x)
         #shapes = [np.shape(ui) for ui in self.u]
-        self.u = self._moments.compute_fixed_moments(x)
+        u = self._moments.compute_fixed_moments(x)
         for (i, dimsi) in enumerate(self.dims):
             correct_shape = tuple(self.plates) + tuple(dimsi)
-            given_shape = np.shape(self.u[i])
+            given_shape = np.shape(u[i])
             if not misc.is_shape_subset(given_shape, correct_shape):
                 raise ValueError(
                     "Incorrect shape {0} for the array, expected {1}"
                     .format(given_shape, correct_shape)
                 )
+        self.x = x
+        self.u = u
         return
 
 
-- 
2.43.0


From 53cb109b7f7d12669d16de1ad6d876e873d8cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 57/65] fix: SumMultiply.get_parameters changed the parent

---
 bayespy/inference/vmp/nodes/dot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 2993d5b..39b905f 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -7,7 +7,7 @@
 
 import numpy as np
 
-from bayespy.utils import misc
+from bayespy.utils import linalg, misc
 
 from .node import Node
 from .deterministic import Deterministic
@@ -418,8 +418,7 @@ class SumMultiply(Deterministic):
     def get_parameters(self):
         # Compute mean and variance
         u = self.get_moments()
-        u[1] -= u[0]**2
-        return u
+        return [u[0], u[1] - linalg.outer(u[0], u[0], ndim=len(self.dims[0]))] + u[2:]
 
 
     def _message_to_parent(self, index, u_parent=None):
-- 
2.43.0


From 2fe5628f41fad3cf9dde032fe85922c0962b4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 58/65] fix: RotateGaussianARD with plate axis failed for a
 broadcasted factor

---
 bayespy/inference/vmp/transformations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index b2c4148..b6ed47b 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -367,6 +367,8 @@ def covariance_to_variance(C, ndim=1, covariance_axis=None):
     return np.einsum(C, [Ellipsis]+keys, [Ellipsis]+out_keys)
 
 def sum_to_plates(V, plates_to, plates_from=None, ndim=0):
+    # The target plates may be broadcasted in the array
+    V = V * np.ones(tuple(plates_to) + ndim*(1,))
     if ndim == 0:
         if plates_from is not None:
             r = gaussian.Gaussian.broadcasting_multiplier(plates_from,
-- 
2.43.0


From d449f74580dfd70b7add25f48fd368d46812745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 59/65] fix: RotateSwitchingMarkovChain could not be used with
 a switching chain

---
 .../vmp/nodes/gaussian_markov_chain.py        | 38 ++++++-------
 bayespy/inference/vmp/transformations.py      | 53 ++++++++++++++-----
 2 files changed, 60 insertions(+), 31 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 24b0617..464f590 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -248,6 +248,25 @@ class _TemplateGaussianMarkovChain(ExponentialFamily):
         raise NotImplementedError()
 
 
+    def rotate(self, R, inv=None, logdet=None):
+
+        # It would be more efficient and simpler, if you just rotated the
+        # moments and didn't touch phi. However, then you would need to call
+        # update() before lower_bound_contribution. This is more error-safe.
+        (u, phi, dg) = self._distribution.rotate(
+            self.u,
+            self.phi,
+            R,
+            inv=inv,
+            logdet=logdet
+        )
+        self.u = u
+        self.phi = phi
+        self.g = self.g + dg
+
+        return
+
+
 def _compute_cgf_for_gaussian_markov_chain(mumu_Lambda, logdet_Lambda,
                                            logdet_nu, N, D):
     """
@@ -941,25 +960,6 @@ class GaussianMarkovChain(_TemplateGaussianMarkovChain):
                  _parent_moments)
 
 
-    def rotate(self, R, inv=None, logdet=None):
-
-        # It would be more efficient and simpler, if you just rotated the
-        # moments and didn't touch phi. However, then you would need to call
-        # update() before lower_bound_contribution. This is more error-safe.
-        (u, phi, dg) = self._distribution.rotate(
-            self.u,
-            self.phi,
-            R,
-            inv=inv,
-            logdet=logdet
-        )
-        self.u = u
-        self.phi = phi
-        self.g = self.g + dg
-
-        return
-
-
 class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
     """
     Sub-classes implement distribution specific computations.
diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index b6ed47b..189347b 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -1181,6 +1181,21 @@ class RotateGaussianMarkovChain():
 
         self.N = X.dims[0][0]
 
+    def _get_inputs(self):
+        """
+        Node of the input signals, None if there are not any.
+        """
+        if len(self.X_node.parents) >= 3:
+            return self.X_node.parents[2]
+        return None
+
+    def _get_initial_state_moments(self):
+        """
+        Expectations of Lambda*mu and Lambda of the initial state.
+        """
+        u = self.X_node.parents[0].get_moments()
+        return (u[0], u[2])
+
     def nodes(self):
         return [self.X_node] + self.A_rotator.nodes()
 
@@ -1193,8 +1208,9 @@ class RotateGaussianMarkovChain():
         self.X_node.rotate(R, inv=inv, logdet=logdet)
 
         from scipy.linalg import block_diag
-        if len(self.X_node.parents) >= 3:
-            input_shape = self.X_node.parents[2].dims[0]
+        inputs = self._get_inputs()
+        if inputs is not None:
+            input_shape = inputs.dims[0]
             input_len = input_shape[-1]
             I = np.identity(input_len)
         else:
@@ -1261,8 +1277,9 @@ class RotateGaussianMarkovChain():
         XpXp = XnXn[...,:-1,:,:]
 
         # Add input signals
-        if len(self.X_node.parents) >= 3:
-            (U, UU) = self.X_node.parents[2].get_moments()
+        inputs = self._get_inputs()
+        if inputs is not None:
+            (U, UU) = inputs.get_moments()
             UXn = linalg.outer(U, X[...,1:,:])
             UXp = linalg.outer(U, X[...,:-1,:])
             XpXn = np.concatenate([XpXn, UXn], axis=-2)
@@ -1287,9 +1304,7 @@ class RotateGaussianMarkovChain():
                                   ndim=2)
 
         # Get moments of the fixed parameter nodes
-        Lambda_mu = self.X_node.parents[0].get_moments()[0]
-        self.Lambda = self.X_node.parents[0].get_moments()[2]
-        #self.Lambda = self.X_node.parents[1].get_moments()[0]
+        (Lambda_mu, self.Lambda) = self._get_initial_state_moments()
         self.Lambda_mu_X0 = linalg.outer(Lambda_mu, self.X0)
         self.Lambda_mu_X0 = sum_to_plates(self.Lambda_mu_X0,
                                           (),
@@ -1413,8 +1428,9 @@ class RotateGaussianMarkovChain():
 
         # Handle possible input signals
         from scipy.linalg import block_diag
-        if len(self.X_node.parents) >= 3:
-            input_shape = self.X_node.parents[2].dims[0]
+        inputs = self._get_inputs()
+        if inputs is not None:
+            input_shape = inputs.dims[0]
             input_len = input_shape[-1]
             I = np.identity(input_len)
         else:
@@ -1443,8 +1459,9 @@ class RotateGaussianMarkovChain():
 
         # Handle possible input signals
         from scipy.linalg import block_diag
-        if len(self.X_node.parents) >= 3:
-            input_shape = self.X_node.parents[2].dims[0]
+        inputs = self._get_inputs()
+        if inputs is not None:
+            input_shape = inputs.dims[0]
             input_len = input_shape[-1]
             I = np.identity(input_len)
         else:
@@ -1591,7 +1608,19 @@ class RotateSwitchingMarkovChain(RotateGaussianMarkovChain):
         if len(self.B_node.dims[0]) != 1:
             raise ValueError("B should have exactly one variable axes")
 
-        super().__init__(X, B_rotator)
+        # The parents of the switching chain are not wrapped as the parents of
+        # GaussianMarkovChain and there are no input signals.
+        self.A_node = B
+        self.A_rotator = B_rotator
+        self.N = N
+
+    def _get_inputs(self):
+        return None
+
+    def _get_initial_state_moments(self):
+        mu = self.X_node.parents[0].get_moments()[0]
+        Lambda = self.X_node.parents[1].get_moments()[0]
+        return (np.einsum('...ij,...j->...i', Lambda, mu), Lambda)
 
     def _computations_for_A_and_X(self, XpXn, XpXp):
 
-- 
2.43.0


From d1b35943c438708ec70a5d46334f77a6dc693834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 60/65] fix: gradient optimisation of Gamma accepted negative
 shape parameters

---
 bayespy/inference/vmp/nodes/gamma.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 3959ae0..b5ffe24 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -139,6 +139,8 @@ class GammaDistribution(ExponentialFamilyDistribution):
            &=
            TODO
         """
+        if np.any(np.asanyarray(phi[1]) <= 0):
+            raise ValueError("Shape parameter should be positive")
         with np.errstate(invalid='raise', divide='raise'):
             log_b = np.log(-phi[0])
             u0 = phi[1] / (-phi[0])
-- 
2.43.0


From 11dcd37e60e0a646997c84153e0900f6de25294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 61/65] fix: nodes shared the arrays of constants and masks
 with the user

---
 bayespy/inference/vmp/nodes/constant.py  | 6 +++---
 bayespy/inference/vmp/nodes/expfamily.py | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/constant.py b/bayespy/inference/vmp/nodes/constant.py
index f57f9dd..8bfe28d 100644
--- a/bayespy/inference/vmp/nodes/constant.py
+++ b/bayespy/inference/vmp/nodes/constant.py
@@ -22,8 +22,8 @@ class Constant(Node):
             raise ValueError("Give moments as an object instance instead of a class")
         self._moments = moments
         self.x = x
-        # Compute moments
-        self.u = self._moments.compute_fixed_moments(x)
+        # Compute moments (as copies, because the arrays belong to the user)
+        self.u = [np.array(ui) for ui in self._moments.compute_fixed_moments(x)]
         # Dimensions of the moments
         dims = self._moments.dims
         # Resolve plates
@@ -64,7 +64,7 @@ class Constant(Node):
     def set_value(self, x):
         x = np.asanyarray(x)
         #shapes = [np.shape(ui) for ui in self.u]
-        u = self._moments.compute_fixed_moments(x)
+        u = [np.array(ui) for ui in self._moments.compute_fixed_moments(x)]
         for (i, dimsi) in enumerate(self.dims):
             correct_shape = tuple(self.plates) + tuple(dimsi)
             given_shape = np.shape(u[i])
diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index fdb5444..e4e0d3a 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -404,8 +404,9 @@ class ExponentialFamily(Stochastic):
 
         self.f = np.where(mask, f, self.f)
 
-        # Observed nodes should not be ignored
-        self.observed = mask
+        # Observed nodes should not be ignored (copy the mask, because the array
+        # belongs to the user)
+        self.observed = np.array(mask)
         self._update_mask()
 
     def lower_bound_contribution(self, gradient=False, ignore_masked=True):
-- 
2.43.0


From ada51f1a572d2b136da29f56dce00a5476de93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 62/65] fix: small integers overflowed in the moments of fixed
 values

---
 bayespy/inference/vmp/nodes/binomial.py          |  6 +++---
 bayespy/inference/vmp/nodes/dirichlet.py         |  2 +-
 bayespy/inference/vmp/nodes/gamma.py             |  6 +++---
 bayespy/inference/vmp/nodes/gaussian.py          | 16 ++++++++++------
 .../inference/vmp/nodes/gaussian_markov_chain.py |  2 ++
 bayespy/inference/vmp/nodes/multinomial.py       |  2 +-
 bayespy/inference/vmp/nodes/poisson.py           |  2 +-
 bayespy/inference/vmp/nodes/wishart.py           |  3 ++-
 bayespy/utils/misc.py                            | 11 +++++++++++
 9 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index b134a65..52451f4 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -128,9 +128,9 @@ class BinomialDistribution(ExponentialFamilyDistribution):
             raise ValueError("Invalid count")
         # Now, the moments are just the counts
         u = [x]
-        f = (special.gammaln(self.N+1) -
-             special.gammaln(x+1) -
-             special.gammaln(self.N-x+1))
+        f = (special.gammaln(self.N+1.0) -
+             special.gammaln(x+1.0) -
+             special.gammaln(self.N-x+1.0))
         return (u, f)
 
 
diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 42718bb..b7d09bd 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -39,7 +39,7 @@ class ConcentrationMoments(Moments):
         Compute the moments for a fixed value
         """
 
-        alpha = np.asanyarray(alpha)
+        alpha = misc.asfloat(alpha)
         if np.ndim(alpha) < 1:
             raise ValueError("The prior sample sizes must be a vector")
         if np.any(alpha < 0):
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index b5ffe24..09af754 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -43,7 +43,7 @@ class GammaPriorMoments(Moments):
         """
         Compute the moments for a fixed value
         """
-        a = np.asanyarray(a)
+        a = misc.asfloat(a)
         if np.any(a <= 0):
             raise ValueError("Shape parameter must be positive")
         u0 = a
@@ -71,7 +71,7 @@ class GammaMoments(Moments):
         """
         Compute the moments for a fixed value
         """
-        x = np.asanyarray(x)
+        x = misc.asfloat(x)
         if np.any(x < 0):
             raise ValueError("Values must be positive")
         u0 = x
@@ -166,7 +166,7 @@ class GammaDistribution(ExponentialFamilyDistribution):
         r"""
         Compute the moments and :math:`f(x)` for a fixed value.
         """
-        x = np.asanyarray(x)
+        x = misc.asfloat(x)
         if np.any(x < 0):
             raise ValueError("Values must be positive")
         logx = np.log(x)
diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 3ff688c..4e6e541 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -56,7 +56,7 @@ class GaussianMoments(Moments):
         r"""
         Compute the moments for a fixed value
         """
-        x = np.asanyarray(x)
+        x = misc.asfloat(x)
         x = misc.atleast_nd(x, self.ndim)
         return [x, linalg.outer(x, x, ndim=self.ndim)]
 
@@ -189,8 +189,8 @@ class GaussianGammaMoments(Moments):
 
         (x, alpha) = x_alpha
 
-        x = np.asanyarray(x)
-        alpha = np.asanyarray(alpha)
+        x = misc.asfloat(x)
+        alpha = misc.asfloat(alpha)
 
         u0 = x * misc.add_trailing_axes(alpha, self.ndim)
         u1 = (linalg.outer(x, x, ndim=self.ndim)
@@ -252,8 +252,8 @@ class GaussianWishartMoments(Moments):
         `Lambda` is a precision matrix
         """
 
-        x = np.asanyarray(x)
-        Lambda = np.asanyarray(Lambda)
+        x = misc.asfloat(x)
+        Lambda = misc.asfloat(Lambda)
 
         u0 = linalg.mvdot(Lambda, x, ndim=self.ndim)
         u1 = np.einsum(
@@ -479,6 +479,7 @@ class GaussianDistribution(ExponentialFamilyDistribution):
            f(\mathbf{x})
            &= - \frac{D}{2} \log(2\pi)
         """
+        x = misc.asfloat(x)
         k = np.prod(self.shape)
         u = [x, linalg.outer(x, x, ndim=self.ndim)]
         f = -k/2*np.log(2*np.pi)
@@ -734,6 +735,7 @@ class GaussianARDDistribution(ExponentialFamilyDistribution):
         r""" Compute u(x) and f(x) for given x. """
         if self.ndim > 0 and np.shape(x)[-self.ndim:] != self.shape:
             raise ValueError("Invalid shape")
+        x = misc.asfloat(x)
         k = np.prod(self.shape)
         u = [x, linalg.outer(x, x, ndim=self.ndim)]
         f = -k/2*np.log(2*np.pi)
@@ -1101,7 +1103,9 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         Compute the moments and :math:`f(x)` for a fixed value.
         """
         (x, alpha) = x_alpha
-        if np.any(np.asanyarray(alpha) < 0):
+        x = misc.asfloat(x)
+        alpha = misc.asfloat(alpha)
+        if np.any(alpha < 0):
             raise ValueError("Precision must be positive")
         logalpha = np.log(alpha)
         u0 = x * misc.add_trailing_axes(alpha, self.ndim)
diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 464f590..746b36d 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -42,6 +42,7 @@ class GaussianMarkovChainMoments(Moments):
 
 
     def compute_fixed_moments(self, x):
+        x = misc.asfloat(x)
         u0 = x
         u1 = x[...,:,np.newaxis] * x[...,np.newaxis,:]
         u2 = x[...,:-1,:,np.newaxis] * x[...,1:,np.newaxis,:]
@@ -129,6 +130,7 @@ class TemplateGaussianMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Compute u(x) and f(x) for given x.
         """
+        x = misc.asfloat(x)
         u0 = x
         u1 = x[...,:,np.newaxis] * x[...,np.newaxis,:]
         u2 = x[...,:-1,:,np.newaxis] * x[...,1:,np.newaxis,:]
diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index cf6b44e..d739d37 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -145,7 +145,7 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
         u0 = x.copy()
         u = [u0]
 
-        f = special.gammaln(self.N+1) - np.sum(special.gammaln(x+1), axis=-1)
+        f = special.gammaln(self.N+1.0) - np.sum(special.gammaln(x+1.0), axis=-1)
 
         return (u, f)
 
diff --git a/bayespy/inference/vmp/nodes/poisson.py b/bayespy/inference/vmp/nodes/poisson.py
index d4f4905..a913868 100644
--- a/bayespy/inference/vmp/nodes/poisson.py
+++ b/bayespy/inference/vmp/nodes/poisson.py
@@ -118,7 +118,7 @@ class PoissonDistribution(ExponentialFamilyDistribution):
         u = [u0]
 
         # Compute f(x)
-        f = -special.gammaln(x+1)
+        f = -special.gammaln(x+1.0)
 
         return (u, f)
 
diff --git a/bayespy/inference/vmp/nodes/wishart.py b/bayespy/inference/vmp/nodes/wishart.py
index 1964232..977e870 100644
--- a/bayespy/inference/vmp/nodes/wishart.py
+++ b/bayespy/inference/vmp/nodes/wishart.py
@@ -54,7 +54,7 @@ class WishartMoments(Moments):
 
     def compute_fixed_moments(self, Lambda, gradient=None):
         """ Compute moments for fixed x. """
-        Lambda = np.asanyarray(Lambda)
+        Lambda = misc.asfloat(Lambda)
         L = linalg.chol(Lambda, ndim=self.ndim)
         ldet = linalg.chol_logdet(L, ndim=self.ndim)
         u = [Lambda,
@@ -217,6 +217,7 @@ class WishartDistribution(ExponentialFamilyDistribution):
               \log |\Lambda|
             \end{bmatrix}
         """
+        Lambda = misc.asfloat(Lambda)
         k = np.shape(Lambda)[-1]
         ldet = linalg.chol_logdet(linalg.chol(Lambda))
         u = [Lambda,
diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index 7e5dbc2..a11569c 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -697,6 +697,17 @@ def is_scalar_integer(x):
     return np.ndim(x) == 0 and issubclass(t, np.integer)
 
 
+def asfloat(x):
+    """
+    Convert to a floating-point array
+
+    Computations with integers could overflow or lose accuracy when the
+    integers are small, for instance, 8-bit integers.
+    """
+    x = np.asanyarray(x)
+    return x if np.issubdtype(x.dtype, np.inexact) else x.astype(float)
+
+
 def isinteger(x):
     t = np.asanyarray(x).dtype.type
     return ( issubclass(t, np.integer) or issubclass(t, np.bool_) )
-- 
2.43.0


From 4affed28db9c3838b32c434c5bf008373626020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 63/65] fix: invalid parameters were left in the node after
 they were rejected

---
 bayespy/inference/vmp/nodes/expfamily.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index e4e0d3a..5de4faf 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -168,12 +168,18 @@ class ExponentialFamily(Stochastic):
     def _initialize_from_parent_moments(self, *u_parents):
         if not np.all(self.observed):
             # Update natural parameters using parents
+            phi_old = getattr(self, 'phi', None)
             self._update_phi_from_parents(*u_parents)
 
             # Update moments
             mask = np.logical_not(self.observed)
-            (u, g) = self._distribution.compute_moments_and_cgf(self.phi,
-                                                                mask=mask)
+            try:
+                (u, g) = self._distribution.compute_moments_and_cgf(self.phi,
+                                                                    mask=mask)
+            except Exception:
+                # Invalid parameters, keep the current state
+                self.phi = phi_old
+                raise
             # TODO/FIXME/BUG: You should use observation mask in order to not
             # overwrite them!
             self._set_moments_and_cgf(u, g, mask=mask)
@@ -340,8 +346,14 @@ class ExponentialFamily(Stochastic):
         phi = self._decode_parameters(x)
         if len(phi) != len(self.dims):
             raise ValueError("Wrong number of parameters")
+        phi_old = self.phi
         self.phi = phi
-        self._update_moments_and_cgf()
+        try:
+            self._update_moments_and_cgf()
+        except Exception:
+            # Invalid parameters, keep the current state
+            self.phi = phi_old
+            raise
         return
 
 
-- 
2.43.0


From d97439b52af00a4887b26790f9df057f1458da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 64/65] fix: negative precisions were accepted by the scalar
 Gaussian nodes

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 ++
 bayespy/utils/linalg.py                 | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 4e6e541..ba72e4d 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -191,6 +191,8 @@ class GaussianGammaMoments(Moments):
 
         x = misc.asfloat(x)
         alpha = misc.asfloat(alpha)
+        if np.any(alpha < 0):
+            raise ValueError("Precision must be positive")
 
         u0 = x * misc.add_trailing_axes(alpha, self.ndim)
         u1 = (linalg.outer(x, x, ndim=self.ndim)
diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index 37047b0..9d86bd6 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -38,6 +38,8 @@ def chol(C, ndim=1):
         # Computes Cholesky decomposition for a collection of matrices.
         # The last 2*ndim axes of C are considered as the matrix.
         if ndim == 0:
+            if np.any(np.asanyarray(C) < 0):
+                raise Exception("Matrix not positive definite")
             return np.sqrt(C)
         shape_original = np.shape(C)[-ndim:]
         C = (
-- 
2.43.0


From ef94073fe2b0db70a69c9b5e00d538bee0991c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 65/65] fix: binomial and multinomial nodes shared the array of
 trials with the user

---
 bayespy/inference/vmp/nodes/binomial.py    | 6 +++---
 bayespy/inference/vmp/nodes/multinomial.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 52451f4..9edee90 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -33,7 +33,7 @@ class BinomialMoments(PoissonMoments):
 
 
     def __init__(self, N):
-        self.N = N
+        self.N = np.array(N)
         super().__init__()
 
 
@@ -65,12 +65,12 @@ class BinomialDistribution(ExponentialFamilyDistribution):
 
 
     def __init__(self, N):
-        N = np.asanyarray(N)
+        N = np.array(N)
         if not misc.isinteger(N):
             raise ValueError("Number of trials must be integer")
         if np.any(N < 0):
             raise ValueError("Number of trials must be non-negative")
-        self.N = np.asanyarray(N)
+        self.N = N
         super().__init__()
 
 
diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index d739d37..e54c6d0 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -71,7 +71,7 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
 
         `trials` is the total number of trials.
         """
-        trials = np.asanyarray(trials)
+        trials = np.array(trials)
         if not misc.isinteger(trials):
             raise ValueError("Number of trials must be integer")
         if np.any(trials < 0):
-- 
2.43.0

