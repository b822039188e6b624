From 6f03de06b11ba0324af44ba9b8f3da674c5df4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 01/86] fix: cost_normalization no longer rescales the caller's
 cost matrix in place

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index eb90cb2..389a4f7 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -574,11 +574,11 @@ def cost_normalization(C, norm=None, return_value=False, value=None):
     elif norm == "median":
         if value is None:
             value = nx.median(C)
-        C /= value
+        C = C / value
     elif norm == "max":
         if value is None:
             value = nx.max(C)
-        C /= float(value)
+        C = C / float(value)
     elif norm == "log":
         C = nx.log(1 + C)
     elif norm == "loglog":
-- 
2.43.0


From 480830bdb0de3d905ca9ba18ed62f0aa433eef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 02/86] fix: fda and wda no longer center the caller's samples
 in place

---
 ot/dr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 4914e6b..e0a4bd4 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -102,7 +102,7 @@ def fda(X, y, p=2, reg=1e-16):
     """
 
     mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
@@ -219,7 +219,7 @@ def wda(
         raise ValueError("Unknown Sinkhorn method '%s'." % sinkhorn_method)
 
     mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
-- 
2.43.0


From 95db6b6d0373c0ea9630fba9b27c7d31d061ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 03/86] fix: NorthWestMMGluing no longer decreases the caller's
 marginal a in place (torch)

---
 ot/lp/_barycenter_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index e37fbec..0cf82b7 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -911,7 +911,7 @@ def NorthWestMMGluing(pi_list, a=None, log=False, nx=None):
                 gamma_weights[jj] += v
             else:
                 gamma_weights[jj] = v
-            u -= v  # at i, we u-v mass left to assign
+            u = u - v  # at i, we u-v mass left to assign
             for k in range(K):  # update plan copies Pk
                 P_list[k][i, jj[k]] -= v  # Pk[i, j_k] has v less mass left
                 if P_list[k][i, jj[k]] == 0:
-- 
2.43.0


From c77def1e25e7e97bb25d3d0d329af5da0762d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 04/86] fix: dmmot_monge_1dgrid_optimize no longer renormalizes
 the caller's histograms in place

---
 ot/lp/dmmot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index f40a99b..b174c43 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -313,7 +313,7 @@ def dmmot_monge_1dgrid_optimize(
         return funcval, A_new, grad, log_dict
 
     def renormalize(A):
-        A = np.reshape(A, (n, d))
+        A = np.reshape(A, (n, d)).copy()
         for i in range(A.shape[1]):
             if min(A[:, i]) < 0:
                 A[:, i] -= min(A[:, i])
-- 
2.43.0


From 3a23ae4c34170068b35a4486bbd8b53148381348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 05/86] fix: empirical_sinkhorn2_geomloss no longer changes
 requires_grad of the caller's weights

---
 ot/bregman/_geomloss.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index 73d8d5d..9ba9772 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -216,8 +216,12 @@ def empirical_sinkhorn2_geomloss(
             raise ValueError("geomloss only supports sqeuclidean and euclidean metrics")
 
         # force gradients for computing dual
-        a_torch.requires_grad = True
-        b_torch.requires_grad = True
+        if not a_torch.requires_grad:
+            a_torch = a_torch.clone()
+            a_torch.requires_grad = True
+        if not b_torch.requires_grad:
+            b_torch = b_torch.clone()
+            b_torch.requires_grad = True
 
         loss = SamplesLoss(
             loss="sinkhorn",
-- 
2.43.0


From aedd039f1d8567bec3d6cf62547eddcdf58b84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 06/86] fix: kernel and dist0 refuse an unknown method

---
 ot/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/utils.py b/ot/utils.py
index 389a4f7..0bb1108 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -46,6 +46,8 @@ def kernel(x1, x2, method="gaussian", sigma=1, **kwargs):
 
     if method.lower() in ["gaussian", "gauss", "rbf"]:
         K = nx.exp(-dist(x1, x2) / (2 * sigma**2))
+    else:
+        raise ValueError("Unknown kernel method '{}'.".format(method))
     return K
 
 
@@ -547,6 +549,8 @@ def dist0(n, method="lin_square"):
     if method == "lin_square":
         x = np.arange(n, dtype=np.float64).reshape((n, 1))
         res = dist(x, x)
+    else:
+        raise ValueError("Unknown method '{}'.".format(method))
     return res
 
 
-- 
2.43.0


From 77f81beb2a3b77980597a23185d1055150945e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 07/86] fix: batched solvers refuse an unknown grad, reg_type
 or loss

---
 ot/batch/_linear.py    | 3 +++
 ot/batch/_quadratic.py | 6 ++++++
 ot/batch/_utils.py     | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index a63fcb4..964f26d 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -314,6 +314,9 @@ def solve_batch(
     if b is None:
         b = nx.ones((B, m), type_as=M) / m
 
+    if reg_type.lower() not in ["entropy", "kl"]:
+        raise ValueError(f"Unknown reg_type: {reg_type}")
+
     if solver == "log_sinkhorn":
         K = -M / reg
         out = bregman_log_projection_batch(
diff --git a/ot/batch/_quadratic.py b/ot/batch/_quadratic.py
index 0da4b89..3d9bd49 100644
--- a/ot/batch/_quadratic.py
+++ b/ot/batch/_quadratic.py
@@ -149,6 +149,9 @@ def tensor_batch(
         def h2(C2):
             return C2
 
+    else:
+        raise ValueError(f"Unknown loss: {loss}")
+
     return compute_tensor_batch(f1, f2, h1, h2, a, b, C1, C2, symmetric=symmetric)
 
 
@@ -451,6 +454,9 @@ def solve_gromov_batch(
         const = nx.sqrt(nx.sum(a, axis=1) * nx.sum(b, axis=1))
         T_init = bop(a, b, nx=nx) / const[:, None, None]  # B x n x m
 
+    if grad not in [None, "autodiff", "envelope", "detach"]:
+        raise ValueError(f"Unknown grad: {grad}")
+
     grad_inner = "autodiff" if grad == "autodiff" else "detach"
 
     T = T_init
diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index ce5db46..30b1c52 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -130,6 +130,9 @@ def bregman_projection_batch(
     if b is None:
         b = nx.ones((B, m)) / m
 
+    if grad not in [None, "autodiff", "envelope", "last_step", "detach"]:
+        raise ValueError(f"Unknown grad: {grad}")
+
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
@@ -260,6 +263,9 @@ def bregman_log_projection_batch(
     loga = nx.log(a)
     logb = nx.log(b)
 
+    if grad not in [None, "autodiff", "envelope", "last_step", "detach"]:
+        raise ValueError(f"Unknown grad: {grad}")
+
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
-- 
2.43.0


From 808ec7ce018ed88e1b171c15951f5bf6af286604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 08/86] fix: compute_bspot_bijection refuses an unknown
 gaussian_slicing

---
 ot/bsp/bsp_ot.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ot/bsp/bsp_ot.py b/ot/bsp/bsp_ot.py
index d7d13a7..4557b70 100644
--- a/ot/bsp/bsp_ot.py
+++ b/ot/bsp/bsp_ot.py
@@ -77,6 +77,13 @@ def compute_bspot_bijection(
                 "initial_perm must have shape (n,) where n is the number of points"
             )
 
+    if isinstance(gaussian_slicing, str) and gaussian_slicing != "auto":
+        raise ValueError(
+            "gaussian_slicing must be 'auto' or a bool, got '{}'.".format(
+                gaussian_slicing
+            )
+        )
+
     if gaussian_slicing == "auto":
         gaussian_slicing = X_np.shape[1] <= 64
         if not gaussian_slicing:
-- 
2.43.0


From 31d364a5dd3e1409777440ced34cbe335effa848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 09/86] fix: emd_laplace refuses an unknown regularization

---
 ot/da.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/da.py b/ot/da.py
index 527999c..8c227d8 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -492,6 +492,9 @@ def emd_laplace(
     lt2 = lT + lT.T
     xt2 = nx.dot(xt, xt.T)
 
+    if reg not in ["pos", "disp"]:
+        raise ValueError("Unknown Laplacian regularization '{}'.".format(reg))
+
     if reg == "disp":
         Cs = -eta * alpha / xs.shape[0] * dots(ls2, xs, xt.T)
         Ct = -eta * (1 - alpha) / xt.shape[0] * dots(xs, xt.T, lt2)
-- 
2.43.0


From d990bf85e2e48cf8dd95fa484249e279fd504c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 10/86] fix: make_data_classif refuses an unknown dataset

---
 ot/datasets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index 6e3be51..aa4cc4f 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -169,9 +169,7 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
         x[:, 1] += kwargs["bias"][1]
 
     else:
-        x = np.array(0)
-        y = np.array(0)
-        print("unknown dataset")
+        raise ValueError("Unknown dataset '{}'.".format(dataset))
 
     return x, y.astype(int)
 
-- 
2.43.0


From 0e1c5bc16d7bc75f360aa5ce54ddde6313f49448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 11/86] fix: gmm_ot_apply_map refuses an unknown method

---
 ot/gmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/gmm.py b/ot/gmm.py
index 3cb6cea..0e4a0cd 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -301,6 +301,9 @@ def gmm_ot_apply_map(
     else:
         nx = get_backend(x, m_s, m_t, C_s, C_t, w_s, w_t, plan)
 
+    if method not in ["bary", "rand"]:
+        raise ValueError("Unknown method '{}', use 'bary' or 'rand'.".format(method))
+
     k_s, k_t = m_s.shape[0], m_t.shape[0]
     d = m_s.shape[1]
     n_samples = x.shape[0]
-- 
2.43.0


From 016adc687288042cbf55e99887538e2dfa4db178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 12/86] fix: the unbalanced across-spaces helpers refuse an
 unknown divergence or reg_type

---
 ot/gromov/_utils.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 4ae23d4..794a79b 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1086,6 +1086,11 @@ def uot_cost_matrix(data, pi, tuple_p, hyperparams, divergence, reg_type, nx=Non
     Cost matrix of the UOT subroutine for UCOOT and FUGW
     """
 
+    if divergence not in ["kl", "l2"]:
+        raise ValueError("Unknown divergence '{}'.".format(divergence))
+    if reg_type not in ["joint", "independent"]:
+        raise ValueError("Unknown reg_type '{}'.".format(reg_type))
+
     X_sqr, Y_sqr, X, Y, M = data
     rho_x, rho_y, eps = hyperparams
     a, b = tuple_p
@@ -1154,6 +1159,11 @@ def uot_parameters_and_measures(
     Tuple of hyperparameters and distributions (weights)
     """
 
+    if divergence not in ["kl", "l2"]:
+        raise ValueError("Unknown divergence '{}'.".format(divergence))
+    if reg_type not in ["joint", "independent"]:
+        raise ValueError("Unknown reg_type '{}'.".format(reg_type))
+
     rho_x, rho_y, eps = hyperparams
     wx, wy, wxy = tuple_weights
 
@@ -1227,6 +1237,9 @@ def fused_unbalanced_across_spaces_cost(
     Fused unbalanced across-space divergence between two spaces
     """
 
+    if reg_type not in ["joint", "independent"]:
+        raise ValueError("Unknown reg_type '{}'.".format(reg_type))
+
     rho_x, rho_y, eps_samp, eps_feat = hyperparams
     M_samp, M_feat = M_linear
     px_samp, py_samp, pxy_samp = tuple_pxy_samp
-- 
2.43.0


From 3b8402c17debc15c7a8f6b3f915ed073cd3715fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 13/86] fix: barycenter solvers refuse an unknown solver name

---
 ot/lp/_barycenter_solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index 0cf82b7..9ae4dfb 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -135,6 +135,9 @@ def barycenter(A, M, weights=None, verbose=False, log=False, solver="highs-ipm")
         x = sol.x
         b = x[-n:]
 
+    elif solver not in [None, "glpk", "mosek"]:
+        raise ValueError("Unknown solver '{}'.".format(solver))
+
     else:
         h = np.zeros((n_distributions * n2 + n))
         G = -sps.eye(n_distributions * n2 + n)
@@ -672,6 +675,10 @@ def free_support_barycenter_generic_costs(
     auto_ground_bary = False
 
     if ground_bary is None:
+        if ground_bary_solver not in ["Adam", "SGD"]:
+            raise ValueError(
+                f"Unknown ground_bary_solver '{ground_bary_solver}', use 'Adam' or 'SGD'."
+            )
         auto_ground_bary = True
         assert str(nx) == "torch", (
             f"Backend {str(nx)} is not compatible with ground_bary=None, it"
-- 
2.43.0


From 5a0a2e9b2870d5c656ddaf33333e9efa39b3fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 14/86] fix: solve_semi_dual_entropic refuses an unknown method

---
 ot/stochastic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 25b08c6..d9f2e74 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -353,8 +353,7 @@ def solve_semi_dual_entropic(
     elif method.lower() == "asgd":
         opt_beta = averaged_sgd_entropic_transport(a, b, M, reg, numItermax, lr)
     else:
-        print("Please, select your method between SAG and ASGD")
-        return None
+        raise ValueError("Please, select your method between SAG and ASGD")
 
     opt_alpha = c_transform_entropic(b, M, reg, opt_beta)
     pi = (
-- 
2.43.0


From 8ffe20af5f89ee4acce6fd79e77245851b860391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 15/86] fix: unbalanced Sinkhorn solvers refuse an unknown
 reg_type and read it case-insensitively

---
 ot/unbalanced/_sinkhorn.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index d338e16..1c14bae 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -732,6 +732,8 @@ def sinkhorn_knopp_unbalanced(
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
 
+    if reg_type.lower() not in ["kl", "entropy"]:
+        raise ValueError("Unknown reg_type '{}', use 'kl' or 'entropy'.".format(reg_type))
     if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
@@ -994,7 +996,9 @@ def sinkhorn_stabilized_unbalanced(
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
 
-    if reg_type == "entropy":
+    if reg_type.lower() not in ["kl", "entropy"]:
+        raise ValueError("Unknown reg_type '{}', use 'kl' or 'entropy'.".format(reg_type))
+    if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
         )
@@ -1267,7 +1271,9 @@ def sinkhorn_unbalanced_translation_invariant(
 
     u_, v_ = u, v
 
-    if reg_type == "entropy":
+    if reg_type.lower() not in ["kl", "entropy"]:
+        raise ValueError("Unknown reg_type '{}', use 'kl' or 'entropy'.".format(reg_type))
+    if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
         )
-- 
2.43.0


From 0395d28d4cacadfa508e4035f8e0fbef848bfc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 16/86] fix: solve and solve_sample refuse an unknown grad mode

---
 ot/solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 88cf5c7..374916e 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -295,6 +295,9 @@ def solve(
         linear regression. NeurIPS.
 
     """
+    if grad not in ["autodiff", "envelope", "last_step", "detach"]:
+        raise ValueError('Unknown grad="{}"'.format(grad))
+
     # detect backend
     nx = get_backend(M, a, b, c)
 
@@ -1725,6 +1728,9 @@ def solve_sample(
 
     """
 
+    if grad not in ["autodiff", "envelope", "last_step", "detach"]:
+        raise ValueError('Unknown grad="{}"'.format(grad))
+
     if method is not None and method.lower() in lst_method_lazy:
         lazy0 = lazy
         lazy = True
-- 
2.43.0


From 0db6924f0e35d42acb0c5e48b0949fae19575b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 17/86] fix: solve_gromov refuses an unknown reg_type or
 unbalanced_type in every branch

---
 ot/solvers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 374916e..45b307e 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -877,6 +877,11 @@ def solve_gromov(
         raise (NotImplementedError('Not implemented GW loss="{}"'.format(loss)))
     loss_fun = loss_dict[loss.lower()]
 
+    if unbalanced_type.lower() not in ["kl", "l2", "semirelaxed", "partial"]:
+        raise (
+            NotImplementedError('Unknown unbalanced_type="{}"'.format(unbalanced_type))
+        )
+
     if reg is None or reg == 0:  # exact OT
         if unbalanced is None and unbalanced_type.lower() not in [
             "semirelaxed",
@@ -1098,6 +1103,11 @@ def solve_gromov(
             )
 
     else:  # regularized OT
+        if reg_type.lower() not in ["entropy"]:
+            raise (
+                NotImplementedError('Not implemented reg_type="{}"'.format(reg_type))
+            )
+
         if unbalanced is None and unbalanced_type.lower() not in [
             "semirelaxed",
         ]:  # Balanced regularized OT
-- 
2.43.0


From 574eca87119df880412c588827da34224d13b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 18/86] fix: quantized FGW solvers refuse an unknown partition
 or representant method

---
 ot/gromov/_quantized.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 861cbfd..2830b28 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -693,6 +693,22 @@ def quantized_fused_gromov_wasserstein(
         Quantized gromov-wasserstein. ECML PKDD 2021. Springer International Publishing.
 
     """
+    if part_method not in [
+        "random",
+        "louvain",
+        "fluid",
+        "spectral",
+        "GW",
+        "FGW",
+        "random_fused",
+        "louvain_fused",
+        "fluid_fused",
+        "spectral_fused",
+    ]:
+        raise ValueError(f"Unknown `part_method='{part_method}'`.")
+    if rep_method not in ["random", "pagerank", "random_fused", "pagerank_fused"]:
+        raise ValueError(f"Unknown `rep_method='{rep_method}'`.")
+
     if part_method in ["fluid", "louvain", "fluid_fused", "louvain_fused"] or (
         rep_method in ["pagerank", "pagerank_fused"]
     ):
@@ -1178,6 +1194,9 @@ def quantized_fused_gromov_wasserstein_samples(
 
     """
 
+    if method not in ["random", "kmeans", "random_fused", "kmeans_fused"]:
+        raise ValueError(f"Unknown `method='{method}'`.")
+
     if (method in ["kmeans", "kmeans_fused"]) and (not sklearn_import):
         warnings.warn(
             f"""
-- 
2.43.0


From 8dcd1f8921e023fa25ea61a9467a190cc7378555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 19/86] fix: solve_sample refuses an unknown method with
 lazy=True

---
 ot/solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 45b307e..42916fb 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1973,6 +1973,13 @@ def solve_sample(
                 log["g"] / (lazy_plan.blur**2),
             )
 
+        elif method != "":
+            raise (
+                NotImplementedError(
+                    'Not implemented method="{}" with lazy=True'.format(method)
+                )
+            )
+
         elif reg is None or reg == 0:  # exact OT
             if unbalanced is None:  # balanced EMD solver not available for lazy
                 raise (
-- 
2.43.0


From fad885de591ed2253f23b029c9bebf8578bf6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 20/86] fix: projection_sparse_simplex no longer prints a
 debugging shape

---
 ot/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 0bb1108..73b3a3c 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -203,7 +203,6 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
 
         row_indices = nx.arange(V.shape[0])
         row_indices = row_indices.reshape(-1, 1)
-        print(row_indices.shape)
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-- 
2.43.0


From 322db371dcee9884b17d04308b9704899357f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 21/86] fix: bures_barycenter_fixpoint warns instead of
 printing when it does not converge

---
 ot/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 7c25cd6..ded37f0 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -523,7 +523,9 @@ def bures_barycenter_fixpoint(
         Cb = Cnew
 
     if diff > eps:
-        print("Dit not converge.")
+        warnings.warn(
+            "Bures barycenter fixed point did not converge. Try to increase num_iter."
+        )
 
     if log:
         log = {}
-- 
2.43.0


From 2ce90ebfa62c244456f80a03414a94a63530b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 22/86] fix: entropic partial Sinkhorn warns instead of
 printing on numerical errors

---
 ot/partial/partial_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index f6e1c65..265f8aa 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -628,7 +628,7 @@ def _entropic_partial_wasserstein_sinkhorn(
         q3 = q3 * K2prev / K
 
         if nx.any(nx.isnan(K)) or nx.any(nx.isinf(K)):
-            print("Warning: numerical errors at iteration", cpt)
+            warnings.warn("Numerical errors at iteration {}".format(cpt))
             break
         if cpt % 10 == 0:
             err = nx.norm(Kprev - K)
-- 
2.43.0


From de22c77f2dcda97e80324adf6b65a8fdd002afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 23/86] fix: sampled_gromov_wasserstein prints only when
 verbose

---
 ot/gromov/_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 18359af..b96b9a9 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -450,7 +450,8 @@ def sampled_gromov_wasserstein(
             try:
                 new_T = sinkhorn(a=p, b=q, M=Lik, reg=epsilon)
             except (RuntimeWarning, UserWarning):
-                print("Warning caught in Sinkhorn: Return last stable T")
+                if verbose:
+                    print("Warning caught in Sinkhorn: Return last stable T")
                 break
         else:
             new_T = emd(a=p, b=q, M=Lik)
-- 
2.43.0


From 0b8718c8053ebd949017647fd845db1e67c44f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 24/86] fix: dmmot_monge_1dgrid_optimize prints its progress
 only when verbose

---
 ot/lp/dmmot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index b174c43..919a354 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -328,14 +328,15 @@ def dmmot_monge_1dgrid_optimize(
     funcval, _, grad, log_dict = dualIter(A, lr)
     gn = np.linalg.norm(grad)
 
-    print(f"Initial:\t\tObj:\t{funcval:.4f}\tGradNorm:\t{gn:.4f}")
+    if verbose:
+        print(f"Initial:\t\tObj:\t{funcval:.4f}\tGradNorm:\t{gn:.4f}")
 
     for i in range(niters):
         A = renormalize(A)
         funcval, A, grad, log_dict = dualIter(A, lr)
         gn = np.linalg.norm(grad)
 
-        if i % print_rate == 0:
+        if verbose and i % print_rate == 0:
             print(f"Iter {i:2.0f}:\tObj:\t{funcval:.4f}\tGradNorm:\t{gn:.4f}")
 
         lr *= lr_decay
-- 
2.43.0


From b44c5c2d4a043112f9eacd0539ae2367c40331c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 25/86] fix: regularization paths warn instead of printing

---
 ot/regpath.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index aedc35b..855d791 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -6,6 +6,7 @@ Regularization path OT solvers
 # Author: Haoran Wu <haoran.wu@univ-ubs.fr>
 # License: MIT License
 
+import warnings
 import numpy as np
 import scipy.sparse as sp
 
@@ -665,7 +666,9 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
         n_iter += 1
 
     if itmax <= n_iter:
-        print("maximum iteration has been reached !")
+        warnings.warn(
+            "Maximum number of iterations reached in the regularization path."
+        )
 
     # correct the last solution and gamma
     if len(t_list) > 1:
@@ -676,7 +679,7 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
         gamma_list[-1] = reg
     else:
         gamma_list[-1] = reg
-        print("Regularization path does not exist !")
+        warnings.warn("Regularization path does not exist.")
 
     return t_list[-1], t_list, gamma_list
 
@@ -820,7 +823,9 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
         n_iter += 1
 
     if itmax <= n_iter:
-        print("maximum iteration has been reached !")
+        warnings.warn(
+            "Maximum number of iterations reached in the regularization path."
+        )
 
     # correct the last solution and gamma
     if len(t_list) > 1:
@@ -831,7 +836,7 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
         gamma_list[-1] = reg
     else:
         gamma_list[-1] = reg
-        print("Regularization path does not exist !")
+        warnings.warn("Regularization path does not exist.")
 
     return t_list[-1], t_list, gamma_list
 
-- 
2.43.0


From 79e9d5f5c8dcf7d7ffd14b9584b029b5baae2406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 26/86] fix: nearest Brenier potentials raise ImportError when
 CVXPY is missing

---
 ot/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ot/mapping.py b/ot/mapping.py
index bb1a78e..fb9c6e7 100644
--- a/ot/mapping.py
+++ b/ot/mapping.py
@@ -119,8 +119,7 @@ def nearest_brenier_potential_fit(
     try:
         import cvxpy as cvx
     except ImportError:
-        print("Please install CVXPY to use this function")
-        return
+        raise ImportError("Please install CVXPY to use this function")
     assert (
         X.shape == V.shape
     ), f"point shape should be the same as value shape, yet {X.shape} != {V.shape}"
@@ -327,8 +326,7 @@ def nearest_brenier_potential_predict_bounds(
     try:
         import cvxpy as cvx
     except ImportError:
-        print("Please install CVXPY to use this function")
-        return
+        raise ImportError("Please install CVXPY to use this function")
     nx = get_backend(X, phi, G, Y)
     X = to_numpy(X)
     phi = to_numpy(phi)
-- 
2.43.0


From 82e8059b67fa61643ed123b3949985238ead75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 27/86] fix: compute_bspot_bijection warns instead of printing
 about its slicing heuristic

---
 ot/bsp/bsp_ot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bsp/bsp_ot.py b/ot/bsp/bsp_ot.py
index 4557b70..d4943fa 100644
--- a/ot/bsp/bsp_ot.py
+++ b/ot/bsp/bsp_ot.py
@@ -87,7 +87,7 @@ def compute_bspot_bijection(
     if gaussian_slicing == "auto":
         gaussian_slicing = X_np.shape[1] <= 64
         if not gaussian_slicing:
-            print(
+            warnings.warn(
                 "Gaussian slicing heuristic disabled for dimension {}. Set gaussian_slicing to True to enable it.".format(
                     X_np.shape[1]
                 )
-- 
2.43.0


From 1d9e0e23c68f9d47a4dc5adcd96caf02a39eedfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 28/86] fix: semi-relaxed initializations no longer reseed
 NumPy's global generator

---
 ot/gromov/_semirelaxed.py | 10 +++++-----
 ot/gromov/_utils.py       | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 02fafc8..ce120e5 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -11,7 +11,7 @@ Semi-relaxed Gromov-Wasserstein and Fused-Gromov-Wasserstein solvers.
 import numpy as np
 
 
-from ..utils import list_to_array, unif, dist, UndefinedParameter
+from ..utils import check_random_state, list_to_array, unif, dist, UndefinedParameter
 from ..optim import semirelaxed_cg, solve_1d_linesearch_quad
 from ..backend import get_backend
 
@@ -1600,8 +1600,8 @@ def semirelaxed_gromov_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = check_random_state(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
@@ -1929,8 +1929,8 @@ def semirelaxed_fgw_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = check_random_state(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 794a79b..502e8c3 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -12,7 +12,7 @@ Gromov-Wasserstein and Fused-Gromov-Wasserstein utils.
 #
 # License: MIT License
 
-from ..utils import list_to_array, euclidean_distances
+from ..utils import check_random_state, list_to_array, euclidean_distances
 from ..backend import get_backend
 from ..lp import emd
 
@@ -605,15 +605,15 @@ def semirelaxed_init_plan(
         T = nx.outer(p, q)
 
     elif method == "random_product":
-        np.random.seed(random_state)
-        q = np.random.uniform(0, m, size=(m,))
+        rng = check_random_state(random_state)
+        q = rng.uniform(0, m, size=(m,))
         q = q / q.sum()
         q = nx.from_numpy(q, type_as=p)
         T = nx.outer(p, q)
 
     elif method == "random":
-        np.random.seed(random_state)
-        U = np.random.uniform(0, n * m, size=(n, m))
+        rng = check_random_state(random_state)
+        U = rng.uniform(0, n * m, size=(n, m))
         U = (p / U.sum(1))[:, None] * U
         T = nx.from_numpy(U, type_as=C1)
 
-- 
2.43.0


From 1103d680d7b52fa9fb576818f873a7445525b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 29/86] fix: quantized GW partitions no longer reseed Python's
 global generator

---
 ot/gromov/_quantized.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 2830b28..349654b 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -340,8 +340,8 @@ def get_graph_partition(
 
     elif part_method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=C.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=C.shape[0]))
 
     elif part_method == "louvain":
         C = nx.to_numpy(C0)
@@ -424,10 +424,10 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
         rep_indices = nx.arange(n_part_ids)
 
     elif rep_method == "random":
-        random.seed(random_state)
+        rng = random.Random(random_state)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif rep_method == "pagerank":
         C0, part0 = C, part
@@ -938,14 +938,14 @@ def get_partition_and_representants_samples(
         rep_indices = nx.arange(n)
 
     elif npart == 1:
-        random.seed(random_state)
+        rng = random.Random(random_state)
         part = nx.zeros(n)
-        rep_indices = [random.choice(nx.arange(n))]
+        rep_indices = [rng.choice(nx.arange(n))]
 
     elif method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=X.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=X.shape[0]))
         part = nx.from_numpy(part, type_as=X0)
 
         # randomly select representant in each partition
@@ -953,7 +953,7 @@ def get_partition_and_representants_samples(
         part_ids = nx.unique(part)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif method == "kmeans":
         X = nx.to_numpy(X0)
-- 
2.43.0


From 68840ac2f3a065b8ff683e7cc14da08ec6875c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 30/86] fix: deprecated dataset functions forward their options
 and random_state

---
 ot/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index aa4cc4f..0e634d5 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -80,7 +80,7 @@ def make_2D_samples_gauss(n, m, sigma, random_state=None):
 @deprecated()
 def get_2D_samples_gauss(n, m, sigma, random_state=None):
     """Deprecated see  make_2D_samples_gauss"""
-    return make_2D_samples_gauss(n, m, sigma, random_state=None)
+    return make_2D_samples_gauss(n, m, sigma, random_state=random_state)
 
 
 def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **kwargs):
@@ -177,4 +177,6 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
 @deprecated()
 def get_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs):
     """Deprecated see  make_data_classif"""
-    return make_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs)
+    return make_data_classif(
+        dataset, n, nz=nz, theta=theta, random_state=random_state, **kwargs
+    )
-- 
2.43.0


From 4d8ae7857632e8f1adf767257f8c0808fe95e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 31/86] fix: Sinkhorn solvers pass warn on to the solvers they
 call

---
 ot/bregman/_empirical.py | 2 ++
 ot/bregman/_sinkhorn.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ot/bregman/_empirical.py b/ot/bregman/_empirical.py
index 9eb7be6..762356c 100644
--- a/ot/bregman/_empirical.py
+++ b/ot/bregman/_empirical.py
@@ -282,6 +282,7 @@ def empirical_sinkhorn(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=True,
+                warn=warn,
                 warmstart=warmstart,
                 **kwargs,
             )
@@ -296,6 +297,7 @@ def empirical_sinkhorn(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=False,
+                warn=warn,
                 warmstart=warmstart,
                 **kwargs,
             )
diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index cf5efad..e64c2fb 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -831,6 +831,7 @@ def sinkhorn_log(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=log,
+                warn=warn,
                 warmstart=warmstart[k],
                 **kwargs,
             )
@@ -1526,6 +1527,7 @@ def sinkhorn_epsilon_scaling(
             print_period=20,
             tau=tau,
             log=True,
+            warn=warn,
         )
 
         alpha = logi["alpha"]
-- 
2.43.0


From ba1b6549945473e8da73f88741f73c1f9ecf9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 32/86] fix: lowrank_sinkhorn(warn=False) silences its kmeans
 initialization too

---
 ot/lowrank.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index f4e3aa4..dc78e59 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -21,7 +21,9 @@ except ImportError:
     sklearn_import = False
 
 
-def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=None):
+def _init_lr_sinkhorn(
+    X_s, X_t, a, b, rank, init, reg_init, random_state, nx=None, warn=True
+):
     """
     Implementation of different initialization strategies for the low rank sinkhorn solver (Q ,R, g).
     This function is specific to lowrank_sinkhorn.
@@ -127,7 +129,9 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
             Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_)
             C_Xs = dist(X_s, Z_Xs)  # shape (ns, rank)
             C_Xs = C_Xs / nx.max(C_Xs)
-            Q = sinkhorn(a, g, C_Xs, reg=reg_init, numItermax=10000, stopThr=1e-3)
+            Q = sinkhorn(
+                a, g, C_Xs, reg=reg_init, numItermax=10000, stopThr=1e-3, warn=warn
+            )
 
             # Init R
             kmeans_Xt = sklearn.cluster.KMeans(
@@ -137,7 +141,9 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
             Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_)
             C_Xt = dist(X_t, Z_Xt)  # shape (nt, rank)
             C_Xt = C_Xt / nx.max(C_Xt)
-            R = sinkhorn(b, g, C_Xt, reg=reg_init, numItermax=10000, stopThr=1e-3)
+            R = sinkhorn(
+                b, g, C_Xt, reg=reg_init, numItermax=10000, stopThr=1e-3, warn=warn
+            )
 
         else:
             raise ImportError(
@@ -447,7 +453,9 @@ def lowrank_sinkhorn(
     M1, M2 = compute_lr_sqeuclidean_matrix(X_s, X_t, rescale_cost, nx)
 
     # Initialize the low rank matrices Q, R, g
-    Q, R, g = _init_lr_sinkhorn(X_s, X_t, a, b, r, init, reg_init, seed_init, nx=nx)
+    Q, R, g = _init_lr_sinkhorn(
+        X_s, X_t, a, b, r, init, reg_init, seed_init, nx=nx, warn=warn
+    )
 
     # Gamma initialization
     if gamma_init == "theory":
-- 
2.43.0


From 1fa39680daad4ccb30b39f87a2265f5e0f81918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 33/86] fix: SparsityConstrained.delta_Omega no longer zeroes
 entries of its argument

---
 ot/smooth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 9fbac6c..13274e2 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -234,12 +234,12 @@ class SparsityConstrained(Regularization):
     def delta_Omega(self, X):
         # For each column of X, find entries that are not among the top max_nz.
         non_top_indices = np.argpartition(-X, self.max_nz, axis=0)[self.max_nz :]
-        # Set these entries to -inf.
+        max_X = np.maximum(X, 0)
+        # Set these entries to 0.
         if X.ndim == 1:
-            X[non_top_indices] = 0.0
+            max_X[non_top_indices] = 0.0
         else:
-            X[non_top_indices, np.arange(X.shape[1])] = 0.0
-        max_X = np.maximum(X, 0)
+            max_X[non_top_indices, np.arange(X.shape[1])] = 0.0
         val = np.sum(max_X**2, axis=0) / (2 * self.gamma)
         G = max_X / self.gamma
         return val, G
-- 
2.43.0


From 65a1d438e58c2bd9e48c5e1baff10439d417fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 34/86] fix: quantized FGW uses the networkx partitions and
 pagerank when networkx is installed

---
 ot/gromov/_quantized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 349654b..5510d74 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -720,8 +720,8 @@ def quantized_fused_gromov_wasserstein(
                 default methods. Consider installing Networkx to fix this.
                 """
             )
-        part_method = "random"
-        rep_method = "random"
+            part_method = "random"
+            rep_method = "random"
 
     if (part_method in ["spectral", "spectral_fused"]) and (not sklearn_import):
         warnings.warn(
-- 
2.43.0


From 0847cdd40ac08f173adb1a8f0e4793c09af6b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 35/86] fix: NearestBrenierPotential.fit_transform no longer
 fails on the arguments it passes to transform

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 8c227d8..d12ddbd 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2733,7 +2733,7 @@ class NearestBrenierPotential(BaseTransport):
 
         return self
 
-    def transform(self, Xs, ys=None):
+    def transform(self, Xs, ys=None, Xt=None, yt=None, batch_size=128):
         r"""
         Computes the images of the new source samples :code:`Xs` of classes :code:`ys` by the fitted
         Smooth Strongly Convex Nearest Brenier Potentials (SSNB) :ref:`[58]`. The output is the images of two SSNB optimal
-- 
2.43.0


From a136acaa2433a535cc777d9203ab1f27def081b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 36/86] fix: sinkhorn_log accepts a single histogram given as a
 column

---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index e64c2fb..4dd0ba4 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -813,7 +813,7 @@ def sinkhorn_log(
         n_hists = 0
 
     # in case of multiple histograms
-    if n_hists > 1 and warmstart is None:
+    if n_hists and warmstart is None:
         warmstart = [None] * n_hists
 
     if n_hists:  # we do not want to use tensors sor we do a loop
-- 
2.43.0


From 3ba3641001fdb817e54a0c4db3e0263dbcb04f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 37/86] fix: SinkhornLpl1Transport.fit with missing inputs
 warns instead of raising UnboundLocalError

---
 ot/da.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index d12ddbd..77606c2 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1667,12 +1667,12 @@ class SinkhornLpl1Transport(BaseTransport):
                 log=self.log,
             )
 
-        # deal with the value of log
-        if self.log:
-            self.coupling_, self.log_ = returned_
-        else:
-            self.coupling_ = returned_
-            self.log_ = dict()
+            # deal with the value of log
+            if self.log:
+                self.coupling_, self.log_ = returned_
+            else:
+                self.coupling_ = returned_
+                self.log_ = dict()
         return self
 
 
-- 
2.43.0


From cd835a7bdf702c07a1d349a6f5c9ac33f845ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 38/86] fix: SinkhornTransport.transform and inverse_transform
 check their inputs as the other maps do

---
 ot/da.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 77606c2..99d1249 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1348,8 +1348,8 @@ class SinkhornTransport(BaseTransport):
         if self.out_of_sample_map == "ferradans":
             return super(SinkhornTransport, self).transform(Xs, ys, Xt, yt, batch_size)
 
-        else:  # self.out_of_sample_map == 'continuous':
-            # check the necessary inputs parameters are here
+        # check the necessary inputs parameters are here
+        elif check_params(Xs=Xs):  # self.out_of_sample_map == 'continuous':
             g = self.log_["log_v"]
 
             indices = nx.arange(Xs.shape[0])
@@ -1407,7 +1407,8 @@ class SinkhornTransport(BaseTransport):
                 Xs, ys, Xt, yt, batch_size
             )
 
-        else:  # self.out_of_sample_map == 'continuous':
+        # check the necessary inputs parameters are here
+        elif check_params(Xt=Xt):  # self.out_of_sample_map == 'continuous':
             f = self.log_["log_u"]
 
             indices = nx.arange(Xt.shape[0])
-- 
2.43.0


From e7f8d7d319910ea577358d54e73d30ced680e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 39/86] fix: ewca(method='MM') accepts an initial subspace U0

---
 ot/dr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index e0a4bd4..643cf87 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -497,11 +497,14 @@ def ewca(
     if U0 is None:
         pca_fitted = PCA(n_components=k).fit(X)
         U = pca_fitted.components_.T
-        if method == "MM":
-            lambda_scm = pca_fitted.explained_variance_[0]
     else:
         U = U0
 
+    if method == "MM":
+        if U0 is not None:
+            pca_fitted = PCA(n_components=k).fit(X)
+        lambda_scm = pca_fitted.explained_variance_[0]
+
     # marginals
     u0 = (1.0 / n) * np.ones(n)
 
-- 
2.43.0


From f6d6ecf59717d02a9343fb1b989b2eca21f2aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 40/86] fix: low rank solvers report a too large alpha when
 rank is left at its default

---
 ot/gromov/_lowrank.py | 2 +-
 ot/lowrank.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index b7f5c49..ea673d0 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -199,7 +199,7 @@ def lowrank_gromov_wasserstein_samples(
     if 1 / r < alpha:
         raise ValueError(
             "alpha ({a}) should be smaller than 1/rank ({r}) for the Dykstra algorithm to converge.".format(
-                a=alpha, r=1 / rank
+                a=alpha, r=1 / r
             )
         )
 
diff --git a/ot/lowrank.py b/ot/lowrank.py
index dc78e59..8aea5c3 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -445,7 +445,7 @@ def lowrank_sinkhorn(
     if 1 / r < alpha:
         raise ValueError(
             "alpha ({a}) should be smaller than 1/rank ({r}) for the Dykstra algorithm to converge.".format(
-                a=alpha, r=1 / rank
+                a=alpha, r=1 / r
             )
         )
 
-- 
2.43.0


From d58111e22d83dddff527dce6f7efcba2b5cb1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 41/86] fix: linear_sliced_wasserstein_sphere compares with the
 uniform distribution when X_t is None

---
 ot/sliced/_spherical_sliced.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ot/sliced/_spherical_sliced.py b/ot/sliced/_spherical_sliced.py
index 2deaa5d..de4d0f0 100644
--- a/ot/sliced/_spherical_sliced.py
+++ b/ot/sliced/_spherical_sliced.py
@@ -265,14 +265,14 @@ def linear_sliced_wasserstein_sphere(
 
     nx = get_backend(X_s, X_t, a, b)
 
-    if X_s.shape[1] != X_t.shape[1]:
+    if X_t is not None and X_s.shape[1] != X_t.shape[1]:
         raise ValueError(
             "X_s and X_t must have the same number of dimensions {} and {} \
             respectively given".format(X_s.shape[1], X_t.shape[1])
         )
     if nx.any(nx.abs(nx.sum(X_s**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_s is not on the sphere.")
-    if nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
+    if X_t is not None and nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_t is not on the sphere.")
 
     if projections is None:
@@ -292,10 +292,11 @@ def linear_sliced_wasserstein_sphere(
             seed=seed,
             backend=nx,
         )
-
-    projected_lcot = linear_circular_ot(
-        Xps_coords.T, Xpt_coords.T, u_weights=a, v_weights=b
-    )
+        projected_lcot = linear_circular_ot(
+            Xps_coords.T, Xpt_coords.T, u_weights=a, v_weights=b
+        )
+    else:
+        projected_lcot = linear_circular_ot(Xps_coords.T, u_weights=a)
     res = nx.mean(projected_lcot) ** (1 / 2)
 
     if log:
-- 
2.43.0


From a622097556e976ee9a3040f56aae8e485000964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 42/86] fix: uot_1d works with require_sort=False

---
 ot/unbalanced/_solver_1d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index 3d8b4f7..c3ef88c 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -236,6 +236,9 @@ def uot_1d(
 
         u_weights_sorted = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights_sorted = nx.take_along_axis(v_weights, v_sorter, 0)
+    else:
+        u_values_sorted, u_weights_sorted = u_values, u_weights
+        v_values_sorted, v_weights_sorted = v_values, v_weights
 
     f = nx.zeros(u_weights.shape, type_as=u_weights)
     fd = nx.zeros(u_weights.shape, type_as=u_weights)
@@ -279,6 +282,9 @@ def uot_1d(
         g = nx.take_along_axis(g, v_rev_sorter, 0)
         u_reweighted = nx.take_along_axis(u_rescaled, u_rev_sorter, 0) * full_mass
         v_reweighted = nx.take_along_axis(v_rescaled, v_rev_sorter, 0) * full_mass
+    else:
+        u_reweighted = u_rescaled * full_mass
+        v_reweighted = v_rescaled * full_mass
 
     # rescale OT loss
     linear_loss = loss * full_mass
-- 
2.43.0


From 1b9b1575daf527570350cd2e97b712f0cf221e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 43/86] fix: screenkhorn no longer fails when every point is
 selected

---
 ot/bregman/_screenkhorn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index ea00a03..afa1796 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -326,6 +326,7 @@ def screenkhorn(
 
     # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
     if restricted:
+        cst_u, cst_v = 0.0, 0.0
         if ns_budget != ns or nt_budget != nt:
             cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
             cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
-- 
2.43.0


From a7b3e4af407a4d4eb99388091d6e1d5c39d931ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 44/86] fix: free_support_barycenter_generic_costs computes its
 default ground barycenter for true_fixed_point

---
 ot/lp/_barycenter_solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index 9ae4dfb..9a2de29 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -752,7 +752,11 @@ def free_support_barycenter_generic_costs(
             # Each Y_perm[k] is a (N, d_k) array of some points in Y_list[k]
             Y_perm = [measure_locations[k][J[:, k]] for k in range(K)]
             # warm start impossible due to possible size mismatch
-            X_next = ground_bary(Y_perm)
+            if auto_ground_bary:  # start every point from the mean position
+                X_mean = nx.mean(X, axis=0)
+                X_next = ground_bary(Y_perm, nx.stack([X_mean] * J.shape[0]))
+            else:
+                X_next = ground_bary(Y_perm)
 
             if clean_measure and method == "true_fixed_point":
                 # clean the discrete measure (X, a) to remove duplicates
-- 
2.43.0


From d15b9e21c57ef9997678e1e923b3ec25e57b6a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 45/86] fix: partial_wasserstein_lagrange returns its log when
 no mass is transported

---
 ot/partial/partial_solvers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 265f8aa..c7b2b16 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -132,7 +132,16 @@ def partial_wasserstein_lagrange(
     if reg_m is None:
         reg_m = float(nx.max(M)) + 1
     if reg_m < -nx.max(M):
-        return nx.zeros((len(a), len(b)), type_as=M)
+        gamma = nx.zeros((len(a), len(b)), type_as=M)
+        if log:
+            return gamma, {
+                "cost": nx.sum(gamma * M),
+                "u": nx.zeros(len(a), type_as=a),
+                "v": nx.zeros(len(b), type_as=b),
+                "warning": None,
+                "result_code": 1,
+            }
+        return gamma
 
     a0, b0, M0 = a, b, M
     # convert to humpy
-- 
2.43.0


From 44b441e9963d9ab55981e3ade922ef4fd41133b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 46/86] fix: partial Gromov-Wasserstein solvers pass warn on
 when no log is asked for

---
 ot/gromov/_partial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index afb76ef..3de83b8 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -300,6 +300,7 @@ def partial_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
@@ -778,6 +779,7 @@ def partial_fused_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
-- 
2.43.0


From f0978de737f6f15971aa13809857c553d1a72ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:16 +0000
Subject: [PATCH 47/86] fix: semi-relaxed barycenters pass random_state to the
 inner solver

---
 ot/gromov/_semirelaxed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index ce120e5..663a75e 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1694,6 +1694,7 @@ def semirelaxed_gromov_barycenters(
                     tol_abs=0.0,
                     log=inner_log,
                     verbose=verbose,
+                    random_state=random_state,
                     **kwargs,
                 )
                 for s in range(S)
@@ -1712,6 +1713,7 @@ def semirelaxed_gromov_barycenters(
                     tol_abs=0.0,
                     log=inner_log,
                     verbose=verbose,
+                    random_state=random_state,
                     **kwargs,
                 )
                 for s in range(S)
@@ -2083,6 +2085,7 @@ def semirelaxed_fgw_barycenters(
                     max_iter,
                     tol_rel=tol,
                     tol_abs=0.0,
+                    random_state=random_state,
                     **kwargs,
                 )
                 for s in range(S)
@@ -2102,6 +2105,7 @@ def semirelaxed_fgw_barycenters(
                     max_iter,
                     tol_rel=tol,
                     tol_abs=0.0,
+                    random_state=random_state,
                     **kwargs,
                 )
                 for s in range(S)
-- 
2.43.0


From 50aa8e65965f5f20308e712a70973fcd07ff4ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 48/86] fix: JCPOTTransport stores the proportions alone when
 log is off

---
 ot/da.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 99d1249..cae6125 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2430,11 +2430,8 @@ class JCPOTTransport(BaseTransport):
             self.coupling_ = returned_[1]["gamma"]
 
             # deal with the value of log
-            if self.log:
-                self.proportions_, self.log_ = returned_
-            else:
-                self.proportions_ = returned_
-                self.log_ = dict()
+            self.proportions_, log_ = returned_
+            self.log_ = log_ if self.log else dict()
 
         return self
 
-- 
2.43.0


From 90b627e332c5d5aee433967a4a1ad9aef5a5b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 49/86] fix: JCPOTTransport.fit reports missing labels as it
 does missing samples

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index cae6125..d969038 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2408,7 +2408,7 @@ class JCPOTTransport(BaseTransport):
         self : object
             Returns self.
         """
-        self._get_backend(*Xs, *ys, Xt, yt)
+        self._get_backend(*Xs, *(ys if ys is not None else []), Xt, yt)
 
         # check the necessary inputs parameters are here
         if check_params(Xs=Xs, Xt=Xt, ys=ys):
-- 
2.43.0


From 586ba1ae276fb7e02f2eb4e2f3d17da8c9d1868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 50/86] fix: binary_search_circle ends when the samples hold a
 nan

---
 ot/lp/solver_circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index af118d1..f299ad1 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -384,7 +384,8 @@ def binary_search_circle(
         cpt += 1
 
         dCp, dCm = derivative_cost_on_circle(tc, u_values, v_values, u_cdf, v_cdf, p)
-        done = ((dCp * dCm) <= 0) * 1
+        # nan compares false: such problems are done as well
+        done = 1 - ((dCp * dCm) > 0) * 1
 
         mask = ((tp - tm) < eps / L) * (1 - done)
 
-- 
2.43.0


From 93675d7d7658106faed58b3a689153f5fcc2cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 51/86] fix: __all__ lists only names that exist, so that star
 imports work

---
 ot/__init__.py            | 1 -
 ot/lp/__init__.py         | 2 --
 ot/unbalanced/__init__.py | 1 -
 3 files changed, 4 deletions(-)

diff --git a/ot/__init__.py b/ot/__init__.py
index 3782094..0906686 100644
--- a/ot/__init__.py
+++ b/ot/__init__.py
@@ -112,7 +112,6 @@ __all__ = [
     "toq",
     "gromov",
     "emd2_1d",
-    "emd_1d_dual",
     "emd_1d_dual_backprop",
     "wasserstein_1d",
     "backend",
diff --git a/ot/lp/__init__.py b/ot/lp/__init__.py
index c9fa676..e6fd48d 100644
--- a/ot/lp/__init__.py
+++ b/ot/lp/__init__.py
@@ -42,12 +42,10 @@ __all__ = [
     "emd2_lazy",
     "barycenter",
     "free_support_barycenter",
-    "cvx",
     "emd_1d_sorted",
     "emd_1d",
     "emd2_1d",
     "wasserstein_1d",
-    "emd_1d_dual",
     "emd_1d_dual_backprop",
     "generalized_free_support_barycenter",
     "binary_search_circle",
diff --git a/ot/unbalanced/__init__.py b/ot/unbalanced/__init__.py
index b7a5261..67795fb 100644
--- a/ot/unbalanced/__init__.py
+++ b/ot/unbalanced/__init__.py
@@ -39,7 +39,6 @@ __all__ = [
     "barycenter_unbalanced",
     "mm_unbalanced",
     "mm_unbalanced2",
-    "_get_loss_unbalanced",
     "lbfgsb_unbalanced",
     "lbfgsb_unbalanced2",
     "uot_1d",
-- 
2.43.0


From 0f4b603d57fecb38ccd0726fcc5f760bec767020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 52/86] fix: EMDLaplaceTransport keeps reg_type and
 similarity_param under their names

---
 ot/da.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index d969038..d11c14a 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1757,13 +1757,13 @@ class EMDLaplaceTransport(BaseTransport):
         distribution_estimation=distribution_estimation_uniform,
         out_of_sample_map="ferradans",
     ):
-        self.reg = reg_type
+        self.reg_type = reg_type
         self.reg_lap = reg_lap
         self.reg_src = reg_src
         self.metric = metric
         self.norm = norm
         self.similarity = similarity
-        self.sim_param = similarity_param
+        self.similarity_param = similarity_param
         self.max_iter = max_iter
         self.tol = tol
         self.max_inner_iter = max_inner_iter
@@ -1807,8 +1807,8 @@ class EMDLaplaceTransport(BaseTransport):
             xt=self.xt_,
             M=self.cost_,
             sim=self.similarity,
-            sim_param=self.sim_param,
-            reg=self.reg,
+            sim_param=self.similarity_param,
+            reg=self.reg_type,
             eta=self.reg_lap,
             alpha=self.reg_src,
             numItermax=self.max_iter,
-- 
2.43.0


From 716e12d6c125df10086dd1a5da56b9e7367df284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 53/86] fix: fitting a transport again does not rescale
 limit_max again

---
 ot/da.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index d11c14a..cf2f9a7 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -598,8 +598,9 @@ class BaseTransport(BaseEstimator):
             )
 
             if (ys is not None) and (yt is not None):
-                if self.limit_max != np.inf:
-                    self.limit_max = self.limit_max * nx.max(self.cost_)
+                limit_max = self.limit_max
+                if limit_max != np.inf:
+                    limit_max = limit_max * nx.max(self.cost_)
 
                 # missing_labels is a (ns, nt) matrix of {0, 1} such that
                 # the cells (i, j) has 0 iff either ys[i] or yt[j] is masked
@@ -617,7 +618,7 @@ class BaseTransport(BaseEstimator):
                 # (as we explicitly cover potential NANs later)
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore", category=RuntimeWarning)
-                    cost_correction = label_match * missing_labels * self.limit_max
+                    cost_correction = label_match * missing_labels * limit_max
                 # this operation is necessary because 0 * Inf = NAN
                 # thus is irrelevant when limit_max is finite
                 cost_correction = nx.nan_to_num(cost_correction, -np.inf)
-- 
2.43.0


From 438b358fda116f62a6690db5dc889c59fe0b758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 54/86] fix: SinkhornTransport.fit leaves its parameters method
 and log alone

---
 ot/da.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index cf2f9a7..2964945 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1289,10 +1289,11 @@ class SinkhornTransport(BaseTransport):
 
         super(SinkhornTransport, self).fit(Xs, ys, Xt, yt)
 
+        method, log = self.method, self.log
         if self.out_of_sample_map == "continuous":
-            self.log = True
-            if not self.method == "sinkhorn_log":
-                self.method = "sinkhorn_log"
+            log = True
+            if not method == "sinkhorn_log":
+                method = "sinkhorn_log"
                 warnings.warn(
                     "The method has been set to 'sinkhorn_log' as it is the only method available for out_of_sample_map='continuous'"
                 )
@@ -1303,15 +1304,15 @@ class SinkhornTransport(BaseTransport):
             b=self.mu_t,
             M=self.cost_,
             reg=self.reg_e,
-            method=self.method,
+            method=method,
             numItermax=self.max_iter,
             stopThr=self.tol,
             verbose=self.verbose,
-            log=self.log,
+            log=log,
         )
 
         # deal with the value of log
-        if self.log:
+        if log:
             self.coupling_, self.log_ = returned_
         else:
             self.coupling_ = returned_
-- 
2.43.0


From 7cf29531ce402548551289ec48e1729c7553328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 55/86] fix: logsumexp takes keepdims in the CuPy and
 TensorFlow backends too

---
 ot/backend.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 08ab22b..38026b1 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2861,7 +2861,7 @@ class CupyBackend(Backend):  # pragma: no cover
     def unique(self, a, return_inverse=False):
         return cp.unique(a, return_inverse=return_inverse)
 
-    def logsumexp(self, a, axis=None):
+    def logsumexp(self, a, axis=None, keepdims=False):
         # Taken from
         # https://github.com/scipy/scipy/blob/v1.7.1/scipy/special/_logsumexp.py#L7-L127
         a_max = cp.amax(a, axis=axis, keepdims=True)
@@ -2872,9 +2872,10 @@ class CupyBackend(Backend):  # pragma: no cover
             a_max = 0
 
         tmp = cp.exp(a - a_max)
-        s = cp.sum(tmp, axis=axis)
+        s = cp.sum(tmp, axis=axis, keepdims=keepdims)
         out = cp.log(s)
-        a_max = cp.squeeze(a_max, axis=axis)
+        if not keepdims:
+            a_max = cp.squeeze(a_max, axis=axis)
         out += a_max
         return out
 
@@ -3319,8 +3320,8 @@ class TensorflowBackend(Backend):
         else:
             return y_prime
 
-    def logsumexp(self, a, axis=None):
-        return tf.math.reduce_logsumexp(a, axis=axis)
+    def logsumexp(self, a, axis=None, keepdims=False):
+        return tf.math.reduce_logsumexp(a, axis=axis, keepdims=keepdims)
 
     def stack(self, arrays, axis=0):
         return tnp.stack(arrays, axis)
-- 
2.43.0


From e8caf8c1ce97fe9652fa7205257f28d25f8b54ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 56/86] fix: the CuPy backend offers unsqueeze

---
 ot/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/backend.py b/ot/backend.py
index 38026b1..24e39f4 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2980,6 +2980,9 @@ class CupyBackend(Backend):  # pragma: no cover
     def bitsize(self, type_as):
         return type_as.itemsize * 8
 
+    def unsqueeze(self, a, axis):
+        return cp.expand_dims(a, axis=axis)
+
     def device_type(self, type_as):
         return "GPU"
 
-- 
2.43.0


From c8880e875279ddb60e8da03f527debca686bf082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 57/86] fix: solve_gromov passes reg and tol to the entropic
 (fused) solvers

---
 ot/solvers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 42916fb..17cb87e 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1141,8 +1141,7 @@ def solve_gromov(
                     solver=method,
                     max_iter=max_iter,
                     G0=plan_init,
-                    tol_rel=tol,
-                    tol_abs=tol,
+                    tol=tol,
                     verbose=verbose,
                 )
 
@@ -1193,14 +1192,14 @@ def solve_gromov(
                     a,
                     b,
                     loss_fun=loss_fun,
+                    epsilon=reg,
                     alpha=alpha,
                     log=True,
                     symmetric=symmetric,
                     solver=method,
                     max_iter=max_iter,
                     G0=plan_init,
-                    tol_rel=tol,
-                    tol_abs=tol,
+                    tol=tol,
                     verbose=verbose,
                 )
 
-- 
2.43.0


From 88de059cd44c787098dbe77dcc8e34dca8e14b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 58/86] fix: solve_gromov passes reg to the entropic
 semi-relaxed FGW solver

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 17cb87e..3442bd5 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1257,6 +1257,7 @@ def solve_gromov(
                     Cb,
                     a,
                     loss_fun=loss_fun,
+                    epsilon=reg,
                     alpha=alpha,
                     log=True,
                     symmetric=symmetric,
-- 
2.43.0


From 5621ac2cfcc11fbe82167fb813112edad1e115d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 59/86] fix: generalized_free_support_barycenter weights the
 inner barycenter as well

---
 ot/lp/_barycenter_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index 9a2de29..7c87cb5 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -407,6 +407,7 @@ def generalized_free_support_barycenter(
         a_list,
         Y_init,
         b,
+        weights=weights,
         numItermax=numItermax,
         stopThr=stopThr,
         verbose=verbose,
-- 
2.43.0


From 0bcb6e00a37b40826440616e4deaa0a402ab59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 60/86] fix: partial_wasserstein passes nb_dummies on when m is
 None

---
 ot/partial/partial_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index c7b2b16..20b967c 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -295,7 +295,9 @@ def partial_wasserstein(a, b, M, m=None, nb_dummies=1, log=False, **kwargs):
         b = nx.ones(dim_b, type_as=b) / dim_b
 
     if m is None:
-        return partial_wasserstein_lagrange(a, b, M, log=log, **kwargs)
+        return partial_wasserstein_lagrange(
+            a, b, M, nb_dummies=nb_dummies, log=log, **kwargs
+        )
     elif m < 0:
         raise ValueError("Problem infeasible. Parameter m should be greater than 0.")
     elif m > nx.min(nx.stack((nx.sum(a), nx.sum(b)))):
-- 
2.43.0


From cf36cf41a2a2491c8e9308e31ffe4e173db5f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 61/86] fix: solve and solve_sample start Sinkhorn from
 potentials_init

---
 ot/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 3442bd5..3d27e03 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -458,6 +458,7 @@ def solve(
                     stopThr=tol,
                     log=True,
                     verbose=verbose,
+                    warmstart=potentials_init,
                 )
 
                 potentials = (log["log_u"], log["log_v"])
@@ -1932,6 +1933,7 @@ def solve_sample(
                 stopThr=tol,
                 random_state=random_state,
                 log=True,
+                warmstart=potentials_init,
             )
 
             lazy_plan = log["lazy_plan"]
@@ -2019,6 +2021,7 @@ def solve_sample(
                     batchSize=batch_size,
                     verbose=verbose,
                     log=True,
+                    warmstart=potentials_init,
                 )
                 # compute potentials
                 potentials = (log["u"], log["v"])
-- 
2.43.0


From b2de9e13c6a492c28c1722813d6858c14016f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 62/86] fix: solve_sample uses the weights a and b with the
 Gaussian and factored methods

---
 ot/solvers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 3d27e03..3c13443 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1842,7 +1842,12 @@ def solve_sample(
                 reg = 1e-6
 
             value, log = empirical_bures_wasserstein_distance(
-                X_a, X_b, reg=reg, log=True
+                X_a,
+                X_b,
+                reg=reg,
+                ws=None if a is None else a[:, None],
+                wt=None if b is None else b[:, None],
+                log=True,
             )
             value = value**2  # return the value (squared bures distance)
             value_linear = value  # return the value
@@ -1863,6 +1868,8 @@ def solve_sample(
             Q, R, X, log = factored_optimal_transport(
                 X_a,
                 X_b,
+                a,
+                b,
                 reg=reg,
                 r=rank,
                 log=True,
-- 
2.43.0


From 2e682fb6dc2d4ded70edfec1d3a97c145b4b319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 63/86] fix: MappingTransport passes verbose2 to the kernel
 solver

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 2964945..b3ede71 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2122,7 +2122,7 @@ class MappingTransport(BaseEstimator):
                     bias=self.bias,
                     sigma=self.sigma,
                     verbose=self.verbose,
-                    verbose2=self.verbose,
+                    verbose2=self.verbose2,
                     numItermax=self.max_iter,
                     numInnerItermax=self.max_inner_iter,
                     stopInnerThr=self.inner_tol,
-- 
2.43.0


From 119a8643de7b048e7defc19b71a3e8a09dacf212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 64/86] fix: JCPOTTransport passes max_iter to the solver

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index b3ede71..36ba393 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2423,7 +2423,7 @@ class JCPOTTransport(BaseTransport):
                 Xt=Xt,
                 reg=self.reg_e,
                 metric=self.metric,
-                distrinumItermax=self.max_iter,
+                numItermax=self.max_iter,
                 stopThr=self.tol,
                 verbose=self.verbose,
                 log=True,
-- 
2.43.0


From d002eb7f02877360ddc8cb94d20bdd7508975557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 65/86] fix: the smooth solvers pass method to scipy

---
 ot/smooth.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 13274e2..6ae7293 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -612,7 +612,14 @@ def smooth_ot_dual(
 
     # solve dual
     alpha, beta, res = solve_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
@@ -739,7 +746,14 @@ def smooth_ot_semi_dual(
 
     # solve dual
     alpha, res = solve_semi_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
-- 
2.43.0


From 425c1f98b7960b908cef5e70f4862540637be555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 66/86] fix: joint_OT_mapping prints the inner iterations with
 verbose2

---
 ot/mapping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/mapping.py b/ot/mapping.py
index fb9c6e7..28ef022 100644
--- a/ot/mapping.py
+++ b/ot/mapping.py
@@ -589,6 +589,7 @@ def joint_OT_mapping_linear(
             G0=G0,
             numItermax=numInnerItermax,
             stopThr=stopInnerThr,
+            verbose=verbose2,
         )
         return G
 
@@ -835,6 +836,7 @@ def joint_OT_mapping_kernel(
             G0=G0,
             numItermax=numInnerItermax,
             stopThr=stopInnerThr,
+            verbose=verbose2,
         )
         return G
 
-- 
2.43.0


From c029517993a45e6fa217907fb1747e0438bd1ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 67/86] fix: sinkhorn_lpl1_mm prints the iterations with
 verbose

---
 ot/da.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 36ba393..912284d 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -168,11 +168,18 @@ def sinkhorn_lpl1_mm(
                 reg,
                 numItermax=numInnerItermax,
                 stopThr=stopInnerThr,
+                verbose=verbose,
                 log=True,
             )
         else:
             transp = sinkhorn(
-                a, b, Mreg, reg, numItermax=numInnerItermax, stopThr=stopInnerThr
+                a,
+                b,
+                Mreg,
+                reg,
+                numItermax=numInnerItermax,
+                stopThr=stopInnerThr,
+                verbose=verbose,
             )
         # the transport has been computed
         # check if classes are really separated
-- 
2.43.0


From b3162358caf9a0fb46d719da77c813e84a521301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 68/86] fix: factored_optimal_transport prints the iterations
 with verbose

---
 ot/factored.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/factored.py b/ot/factored.py
index f1b9f28..bcfc97a 100644
--- a/ot/factored.py
+++ b/ot/factored.py
@@ -119,7 +119,7 @@ def factored_optimal_transport(
     def solve_ot(X1, X2, w1, w2):
         M = dist(X1, X2)
         if reg > 0:
-            G, log = sinkhorn(w1, w2, M, reg, log=True, **kwargs)
+            G, log = sinkhorn(w1, w2, M, reg, verbose=verbose, log=True, **kwargs)
             log["cost"] = nx.sum(G * M)
             return G, log
         else:
-- 
2.43.0


From b045a37ce18e97e78f9a9911040441e7f0cd09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 69/86] fix: the partial (fused) Gromov-Wasserstein solvers
 print the iterations with verbose

---
 ot/gromov/_partial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 3de83b8..53f1672 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -278,6 +278,7 @@ def partial_gromov_wasserstein(
             numItermax=numItermax,
             stopThr=tol,
             stopThr2=0.0,
+            verbose=verbose,
             warn=warn,
             **kwargs,
         )
@@ -300,6 +301,7 @@ def partial_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                verbose=verbose,
                 warn=warn,
                 **kwargs,
             ),
@@ -757,6 +759,7 @@ def partial_fused_gromov_wasserstein(
             numItermax=numItermax,
             stopThr=tol,
             stopThr2=0.0,
+            verbose=verbose,
             warn=warn,
             **kwargs,
         )
@@ -779,6 +782,7 @@ def partial_fused_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                verbose=verbose,
                 warn=warn,
                 **kwargs,
             ),
-- 
2.43.0


From 5b03147dec5ba578998f144c54fa23fd3be1aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 70/86] fix: dist_kl_batch sums over the classes when X holds
 logits

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 964f26d..e5f345d 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -112,7 +112,7 @@ def dist_kl_batch(X, Y, logits_X=False, nx=None, eps=1e-10):
         nx = get_backend(X, Y)
     entr_y = nx.sum(Y * nx.log(Y + eps), axis=-1)  # B x m
     if logits_X:
-        M = entr_y[:, None, :] - Y[:, None, :] * X[:, :, None]
+        M = entr_y[:, None, :] - nx.sum(Y[:, None, :] * X[:, :, None], axis=-1)
     else:
         M = entr_y[:, None, :] - nx.sum(
             Y[:, None, :] * nx.log(X + eps)[:, :, None], axis=-1
-- 
2.43.0


From 96d7febcc457fd73ad461c31f530f4f57be86998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 71/86] fix: unmix accepts a prior whose size is not the number
 of atoms

---
 ot/bregman/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_dictionary.py b/ot/bregman/_dictionary.py
index bb7047b..faa1fd8 100644
--- a/ot/bregman/_dictionary.py
+++ b/ot/bregman/_dictionary.py
@@ -73,7 +73,7 @@ def unmix(
         loss matrix
     M0 : array-like, shape (n_atoms, dim_prior)
         loss matrix
-    h0 : array-like, shape (n_atoms,)
+    h0 : array-like, shape (dim_prior,)
         prior on the estimated unmixing h
     reg : float
         Regularization term >0 (Wasserstein data fitting)
@@ -119,7 +119,7 @@ def unmix(
 
     # M0 = M0/np.median(M0)
     K0 = nx.exp(-M0 / reg0)
-    old = h0
+    old = nx.sum(projC(K0, h0), axis=1)
 
     err = 1
     # log = {'niter':0, 'all_err':[]}
-- 
2.43.0


From b032ce1065ce92ad78656f8a96eb953ce02d4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 72/86] fix: bures_wasserstein_distance with paired=True
 returns all distances when n != m

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index ded37f0..f9a4cd8 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -344,7 +344,7 @@ def bures_wasserstein_distance(ms, mt, Cs, Ct, paired=False, log=False):
         assert (
             len(ms.shape) == 2 and len(mt.shape) == 2
         ), "Both ms and mt should be batched"
-        if paired and len(ms.shape) == len(mt.shape):
+        if paired and len(ms) == len(mt):
             # Return shape (n,)
             squared_dist_m = nx.norm(ms - mt, axis=-1) ** 2
         else:
-- 
2.43.0


From 5b94b98eae7abbd27a1a0798f6845154e144ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 73/86] fix: sinkhorn_log accepts a warmstart for several
 histograms

---
 ot/bregman/_sinkhorn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 4dd0ba4..efaf911 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -815,6 +815,8 @@ def sinkhorn_log(
     # in case of multiple histograms
     if n_hists and warmstart is None:
         warmstart = [None] * n_hists
+    elif n_hists:
+        warmstart = [(warmstart[0][:, k], warmstart[1][:, k]) for k in range(n_hists)]
 
     if n_hists:  # we do not want to use tensors sor we do a loop
         lst_loss = []
-- 
2.43.0


From 000f90142ad67ab4fa06f162a0dadc6795766942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 74/86] fix: the unbalanced Sinkhorn solvers accept a warmstart
 for several histograms

---
 ot/unbalanced/_sinkhorn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 1c14bae..cd1f1a2 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -711,6 +711,7 @@ def sinkhorn_knopp_unbalanced(
 
     if len(b.shape) > 1:
         n_hists = b.shape[1]
+        a = a.reshape(dim_a, 1)
     else:
         n_hists = 0
 
@@ -725,7 +726,6 @@ def sinkhorn_knopp_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
@@ -975,6 +975,7 @@ def sinkhorn_stabilized_unbalanced(
 
     if len(b.shape) > 1:
         n_hists = b.shape[1]
+        a = a.reshape(dim_a, 1)
     else:
         n_hists = 0
 
@@ -989,7 +990,6 @@ def sinkhorn_stabilized_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, n_hists), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
@@ -1248,6 +1248,7 @@ def sinkhorn_unbalanced_translation_invariant(
 
     if len(b.shape) > 1:
         n_hists = b.shape[1]
+        a = a.reshape(dim_a, 1)
     else:
         n_hists = 0
 
@@ -1262,7 +1263,6 @@ def sinkhorn_unbalanced_translation_invariant(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
-- 
2.43.0


From bbc505165ba1a1dadde1f43b001a07787dd668ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 75/86] fix: EMDLaplaceTransport can be fitted with source and
 target labels

---
 ot/da.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/da.py b/ot/da.py
index 912284d..5ebfc58 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1726,6 +1726,10 @@ class EMDLaplaceTransport(BaseTransport):
         The kind of out of sample mapping to apply to transport samples
         from a domain into another one. Currently the only possible option is
         "ferradans" which uses the method proposed in :ref:`[6] <references-emdlaplacetransport>`.
+    limit_max : float, optional (default=10)
+        Controls the semi supervised mode. Transport between labeled source
+        and target samples of different classes will exhibit an infinite cost
+        (10 times the maximum value of the cost matrix)
 
     Attributes
     ----------
@@ -1765,6 +1769,7 @@ class EMDLaplaceTransport(BaseTransport):
         verbose=False,
         distribution_estimation=distribution_estimation_uniform,
         out_of_sample_map="ferradans",
+        limit_max=10,
     ):
         self.reg_type = reg_type
         self.reg_lap = reg_lap
@@ -1781,6 +1786,7 @@ class EMDLaplaceTransport(BaseTransport):
         self.verbose = verbose
         self.distribution_estimation = distribution_estimation
         self.out_of_sample_map = out_of_sample_map
+        self.limit_max = limit_max
 
     def fit(self, Xs, ys=None, Xt=None, yt=None):
         r"""Build a coupling matrix from source and target sets of samples
-- 
2.43.0


From 704eb5b295cfdc1688f62cbd204386555677b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 76/86] fix: wasserstein_1d returns the plan of one-dimensional
 inputs

return_plans=True indexed a second axis that arrays of shape (n,) do not have.
---
 ot/lp/solver_1d.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 802621c..75a9140 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -167,26 +167,33 @@ def wasserstein_1d(
     if return_plans is not False:
         u_quantiles_idx = nx.take_along_axis(u_sorter, idx_u, axis=0)
         v_quantiles_idx = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        if delta.ndim == 1:
+            # a single pair of measures, its plan is the only one
+            delta_plans = delta[:, None]
+            u_quantiles_idx = u_quantiles_idx[:, None]
+            v_quantiles_idx = v_quantiles_idx[:, None]
+        else:
+            delta_plans = delta
         if return_plans == "coo_tuple":
             PlanTuple = namedtuple("PlanTuple", ["data", "rows", "cols"])
             plans = [
                 PlanTuple(
-                    data=delta[:, k],
+                    data=delta_plans[:, k],
                     rows=u_quantiles_idx[:, k],
                     cols=v_quantiles_idx[:, k],
                 )
-                for k in range(delta.shape[1])
+                for k in range(delta_plans.shape[1])
             ]
         else:
             plans = [
                 nx.coo_matrix(
-                    delta[:, k],
+                    delta_plans[:, k],
                     u_quantiles_idx[:, k],
                     v_quantiles_idx[:, k],
                     shape=(n, m),
                     type_as=u_values,
                 )
-                for k in range(delta.shape[1])
+                for k in range(delta_plans.shape[1])
             ]
 
     if p == 1:
-- 
2.43.0


From 5c26293b5a23d95032195e10cae49dca718cd202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 77/86] fix: wasserstein_1d returns the plans of batched sorted
 inputs

With require_sort=False the identity permutations had one axis, the quantile
indices they are taken along have two.
---
 ot/lp/solver_1d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 75a9140..da64cf7 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -148,6 +148,9 @@ def wasserstein_1d(
     else:
         u_sorter = nx.arange(n)
         v_sorter = nx.arange(m)
+        if u_values.ndim > 1:
+            u_sorter = nx.repeat(u_sorter[:, None], u_values.shape[1], 1)
+            v_sorter = nx.repeat(v_sorter[:, None], v_values.shape[1], 1)
 
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
-- 
2.43.0


From 5fdd5622921d314b5f919be25395248c9d715752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 78/86] fix: the batched projections keep the dtype and device
 of their input

---
 ot/batch/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index 30b1c52..1b6157e 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -126,9 +126,9 @@ def bregman_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     if grad not in [None, "autodiff", "envelope", "last_step", "detach"]:
         raise ValueError(f"Unknown grad: {grad}")
@@ -138,8 +138,8 @@ def bregman_projection_batch(
     elif grad == "last_step":
         K_, K = K.clone(), nx.detach(K)
 
-    f = nx.ones((B, n))  # a / nx.sum(K, axis=2)
-    g = nx.ones((B, m))  # b / nx.sum(K, axis=1)
+    f = nx.ones((B, n), type_as=K)  # a / nx.sum(K, axis=2)
+    g = nx.ones((B, m), type_as=K)  # b / nx.sum(K, axis=1)
 
     for n_iters in range(max_iter):
         f = a / nx.sum(K * g[:, None, :], axis=2)
@@ -253,9 +253,9 @@ def bregman_log_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     u = nx.zeros((B, n), type_as=K)  # u = nx.log(a) - nx.logsumexp(K, axis=2).squeeze()
     v = nx.zeros((B, m), type_as=K)  # v = nx.log(b) - nx.logsumexp(K, axis=1).squeeze()
-- 
2.43.0


From b020d23c347e18c64ce156606f9d0b7ee0377c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 79/86] fix: the GMM functions keep the dtype and device of
 their input

---
 ot/gmm.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 0e4a0cd..1794c4c 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -97,7 +97,7 @@ def gmm_pdf(x, m, C, w):
         m.shape[0] == C.shape[0] == w.shape[0]
     ), "All GMM parameters must have the same amount of components"
     nx = get_backend(x, m, C, w)
-    out = nx.zeros((x.shape[:-1]))
+    out = nx.zeros((x.shape[:-1]), type_as=x)
     for k in range(m.shape[0]):
         out = out + w[k] * gaussian_pdf(x, m[k], C[k])
     return out
@@ -309,7 +309,7 @@ def gmm_ot_apply_map(
     n_samples = x.shape[0]
 
     if method == "bary":
-        out = nx.zeros(x.shape)
+        out = nx.zeros(x.shape, type_as=x)
         logpdf = nx.stack(
             [gaussian_logpdf(x, m_s[k], C_s[k])[:, None] for k in range(k_s)]
         )
@@ -337,8 +337,8 @@ def gmm_ot_apply_map(
         # i and j, b[i, j] is the translation part
         rng = np.random.RandomState(seed)
 
-        A = nx.zeros((k_s, k_t, d, d))
-        b = nx.zeros((k_s, k_t, d))
+        A = nx.zeros((k_s, k_t, d, d), type_as=x)
+        b = nx.zeros((k_s, k_t, d), type_as=x)
 
         # only need to compute for non-zero plan entries
         for i, j in zip(*nx.where(plan > 0)):
@@ -353,13 +353,15 @@ def gmm_ot_apply_map(
             [gaussian_logpdf(x, m_s[k], C_s[k]) for k in range(k_s)], axis=-1
         )
         # (n_samples, k_s)
-        out = nx.zeros(x.shape)
+        out = nx.zeros(x.shape, type_as=x)
 
         for i_sample in range(n_samples):
             log_g = logpdf[i_sample]
             log_diff = log_g[:, None] - log_g[None, :]
             weighted_exp = w_s[:, None] * nx.exp(log_diff)
-            denom = nx.sum(weighted_exp, axis=0)[:, None] * nx.ones(plan.shape[1])
+            denom = nx.sum(weighted_exp, axis=0)[:, None] * nx.ones(
+                plan.shape[1], type_as=plan
+            )
             p_mat = plan / denom
 
             p = p_mat.reshape(k_s * k_t)  # stack line-by-line
@@ -421,8 +423,8 @@ def gmm_ot_plan_density(x, y, m_s, m_t, C_s, C_t, w_s, w_t, plan=None, atol=1e-2
     nx = get_backend(x, y, m_s, m_t, C_s, C_t, w_s, w_t)
 
     # hand-made d-variate meshgrid in ij indexing
-    xx = x[:, None, :] * nx.ones((1, m, 1))  # shapes (n, m, d)
-    yy = y[None, :, :] * nx.ones((n, 1, 1))  # shapes (n, m, d)
+    xx = x[:, None, :] * nx.ones((1, m, 1), type_as=x)  # shapes (n, m, d)
+    yy = y[None, :, :] * nx.ones((n, 1, 1), type_as=y)  # shapes (n, m, d)
 
     if plan is None:
         plan = gmm_ot_plan(m_s, m_t, C_s, C_t, w_s, w_t)
-- 
2.43.0


From 2f9027c494f992b202ef1dfb2daf2c055c054ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 80/86] fix: the quantized and semi-relaxed Gromov solvers keep
 the dtype and device of their input

---
 ot/gromov/_quantized.py   | 10 +++++-----
 ot/gromov/_semirelaxed.py | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 5510d74..6cab52e 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -167,8 +167,8 @@ def quantized_fused_gromov_wasserstein_partitioned(
     npart2 = len(list_R2)
 
     # compute marginals for global alignment
-    pR1 = nx.from_numpy(list_to_array([nx.sum(p) for p in list_p1]))
-    pR2 = nx.from_numpy(list_to_array([nx.sum(q) for q in list_p2]))
+    pR1 = nx.from_numpy(list_to_array([nx.sum(p) for p in list_p1]), type_as=CR1)
+    pR2 = nx.from_numpy(list_to_array([nx.sum(q) for q in list_p2]), type_as=CR2)
 
     # compute global alignment
     if alpha == 1.0:
@@ -934,12 +934,12 @@ def get_partition_and_representants_samples(
             stacklevel=2,
         )
 
-        part = nx.arange(n)
-        rep_indices = nx.arange(n)
+        part = nx.arange(n, type_as=X0)
+        rep_indices = nx.arange(n, type_as=X0)
 
     elif npart == 1:
         rng = random.Random(random_state)
-        part = nx.zeros(n)
+        part = nx.zeros(n, type_as=X0)
         rep_indices = [rng.choice(nx.arange(n))]
 
     elif method == "random":
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 663a75e..258d3ec 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1574,10 +1574,10 @@ def semirelaxed_gromov_barycenters(
 
     S = len(Cs)
     if lambdas is None:
-        lambdas = nx.ones(S) / S
+        lambdas = nx.ones(S, type_as=Cs[0]) / S
     else:
         lambdas = list_to_array(lambdas)
-        lambdas = nx.from_numpy(lambdas)
+        lambdas = nx.from_numpy(lambdas, type_as=Cs[0])
 
     # Initialization of transport plans and C (if not provided by user)
     if init_C is None:
@@ -1604,7 +1604,7 @@ def semirelaxed_gromov_barycenters(
                 noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
-                noise = nx.from_numpy(noise)
+                noise = nx.from_numpy(noise, type_as=Cs[0])
                 C = C + noise
 
         else:  # relies on partitioning of inputs
@@ -1890,10 +1890,10 @@ def semirelaxed_fgw_barycenters(
 
     S = len(Cs)
     if lambdas is None:
-        lambdas = nx.ones(S) / S
+        lambdas = nx.ones(S, type_as=Cs[0]) / S
     else:
         lambdas = list_to_array(lambdas)
-        lambdas = nx.from_numpy(lambdas)
+        lambdas = nx.from_numpy(lambdas, type_as=Cs[0])
 
     if fixed_structure:
         if init_C is None:
@@ -1935,7 +1935,7 @@ def semirelaxed_fgw_barycenters(
                 noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
-                noise = nx.from_numpy(noise)
+                noise = nx.from_numpy(noise, type_as=Cs[0])
                 C = C + noise
 
         else:
@@ -1973,7 +1973,7 @@ def semirelaxed_fgw_barycenters(
                 km = KMeans(n_clusters=N, random_state=random_state, n_init=1).fit(
                     stacked_features
                 )
-                X = nx.from_numpy(km.cluster_centers_)
+                X = nx.from_numpy(km.cluster_centers_, type_as=Ys[0])
             else:
                 raise ValueError(
                     f"Scikit-learn must be installed to use G0={G0} while init_X=None."
-- 
2.43.0


From 3829f16baf96d5b94ac746f63863ff859c64087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 81/86] fix: Gromov dictionary learning returns the dtype and
 device of its input

---
 ot/gromov/_dictionary.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ot/gromov/_dictionary.py b/ot/gromov/_dictionary.py
index 6a2b307..959236c 100644
--- a/ot/gromov/_dictionary.py
+++ b/ot/gromov/_dictionary.py
@@ -235,7 +235,7 @@ def gromov_wasserstein_dictionary_learning(
                 cumulated_loss_over_epoch,
             )
 
-    return nx.from_numpy(Cdict_best_state), log
+    return nx.from_numpy(Cdict_best_state, type_as=Cs0[0]), log
 
 
 def _initialize_adam_optimizer(variable):
@@ -402,10 +402,10 @@ def gromov_wasserstein_linear_unmixing(
         outer_count += 1
 
     return (
-        nx.from_numpy(w),
-        nx.from_numpy(Cembedded),
-        nx.from_numpy(T),
-        nx.from_numpy(current_loss),
+        nx.from_numpy(w, type_as=C0),
+        nx.from_numpy(Cembedded, type_as=C0),
+        nx.from_numpy(T, type_as=C0),
+        nx.from_numpy(current_loss, type_as=C0),
     )
 
 
@@ -863,7 +863,11 @@ def fused_gromov_wasserstein_dictionary_learning(
                 cumulated_loss_over_epoch,
             )
 
-    return nx.from_numpy(Cdict_best_state), nx.from_numpy(Ydict_best_state), log
+    return (
+        nx.from_numpy(Cdict_best_state, type_as=Cs0[0]),
+        nx.from_numpy(Ydict_best_state, type_as=Ys0[0]),
+        log,
+    )
 
 
 def fused_gromov_wasserstein_linear_unmixing(
@@ -1048,11 +1052,11 @@ def fused_gromov_wasserstein_linear_unmixing(
         outer_count += 1
 
     return (
-        nx.from_numpy(w),
-        nx.from_numpy(Cembedded),
-        nx.from_numpy(Yembedded),
-        nx.from_numpy(T),
-        nx.from_numpy(current_loss),
+        nx.from_numpy(w, type_as=C0),
+        nx.from_numpy(Cembedded, type_as=C0),
+        nx.from_numpy(Yembedded, type_as=Y0),
+        nx.from_numpy(T, type_as=C0),
+        nx.from_numpy(current_loss, type_as=C0),
     )
 
 
-- 
2.43.0


From 7305b0cae4e43e8d613daa4245ef2de4853f0211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 82/86] fix: solvers create their arrays with the dtype and
 device of the input

---
 ot/lowrank.py                 | 10 +++++-----
 ot/lp/dmmot.py                |  2 +-
 ot/lp/solver_1d.py            |  4 ++--
 ot/lp/solver_circle.py        |  2 +-
 ot/optim.py                   |  2 +-
 ot/partial/partial_solvers.py |  7 +++++--
 ot/sliced/_sliced_plans.py    |  4 ++--
 ot/utils.py                   |  4 ++--
 8 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index 8aea5c3..c781c17 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -91,7 +91,7 @@ def _init_lr_sinkhorn(
 
     if init == "deterministic":
         # Init g
-        g = nx.ones(rank) / rank
+        g = nx.ones(rank, type_as=X_s) / rank
 
         lambda_1 = min(nx.min(a), nx.min(g), nx.min(b)) / 2
         a1 = nx.arange(start=1, stop=ns + 1, type_as=X_s)
@@ -125,8 +125,8 @@ def _init_lr_sinkhorn(
             kmeans_Xs = sklearn.cluster.KMeans(
                 n_clusters=rank, random_state=random_state, n_init="auto"
             )
-            kmeans_Xs.fit(X_s)
-            Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_)
+            kmeans_Xs.fit(nx.to_numpy(X_s))
+            Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_, type_as=X_s)
             C_Xs = dist(X_s, Z_Xs)  # shape (ns, rank)
             C_Xs = C_Xs / nx.max(C_Xs)
             Q = sinkhorn(
@@ -137,8 +137,8 @@ def _init_lr_sinkhorn(
             kmeans_Xt = sklearn.cluster.KMeans(
                 n_clusters=rank, random_state=random_state, n_init="auto"
             )
-            kmeans_Xt.fit(X_t)
-            Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_)
+            kmeans_Xt.fit(nx.to_numpy(X_t))
+            Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_, type_as=X_s)
             C_Xt = dist(X_t, Z_Xt)  # shape (nt, rank)
             C_Xt = C_Xt / nx.max(C_Xt)
             R = sinkhorn(
diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index 919a354..cbe7e9b 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -185,7 +185,7 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
             pass
 
     dualobj = sum([np.dot(A[:, i], arr) for i, arr in enumerate(dual)])
-    obj = nx.from_numpy(obj)
+    obj = nx.from_numpy(obj, type_as=A_copy)
 
     log_dict = {
         "A": xx,
diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index da64cf7..12d9328 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -146,8 +146,8 @@ def wasserstein_1d(
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights = nx.take_along_axis(v_weights, v_sorter, 0)
     else:
-        u_sorter = nx.arange(n)
-        v_sorter = nx.arange(m)
+        u_sorter = nx.arange(n, type_as=u_values)
+        v_sorter = nx.arange(m, type_as=v_values)
         if u_values.ndim > 1:
             u_sorter = nx.repeat(u_sorter[:, None], u_values.shape[1], 1)
             v_sorter = nx.repeat(v_sorter[:, None], v_values.shape[1], 1)
diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index f299ad1..e38bb86 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -377,7 +377,7 @@ def binary_search_circle(
     tp = nx.tile(tp, (1, m))
     tc = (tm + tp) / 2
 
-    done = nx.zeros((u_values.shape[0], m))
+    done = nx.zeros((u_values.shape[0], m), type_as=u_values)
 
     cpt = 0
     while nx.any(1 - done):
diff --git a/ot/optim.py b/ot/optim.py
index 35f819c..0654c1b 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -108,7 +108,7 @@ def line_search_armijo(
         alpha1 = np.clip(alpha1, alpha_min, alpha_max)
         # The callable function operates on nx backend
         fc[0] += 1
-        alpha10 = nx.from_numpy(alpha1)
+        alpha10 = nx.from_numpy(alpha1, type_as=xk0)
         fval = f(xk0 + alpha10 * pk0, *args)
         if isinstance(fval, float):
             # prevent bug from nx.to_numpy that can look for .cpu or .gpu
diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 20b967c..f789d5e 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -313,9 +313,12 @@ def partial_wasserstein(a, b, M, m=None, nb_dummies=1, log=False, **kwargs):
     M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * nx.max(M) * 2
     M_extended = nx.concatenate(
         (
-            nx.concatenate((M, nx.zeros((M.shape[0], M_extension.shape[1]))), axis=1),
             nx.concatenate(
-                (nx.zeros((M_extension.shape[0], M.shape[1])), M_extension), axis=1
+                (M, nx.zeros((M.shape[0], M_extension.shape[1]), type_as=M)), axis=1
+            ),
+            nx.concatenate(
+                (nx.zeros((M_extension.shape[0], M.shape[1]), type_as=M), M_extension),
+                axis=1,
             ),
         ),
         axis=0,
diff --git a/ot/sliced/_sliced_plans.py b/ot/sliced/_sliced_plans.py
index d192a24..623d9e9 100644
--- a/ot/sliced/_sliced_plans.py
+++ b/ot/sliced/_sliced_plans.py
@@ -103,9 +103,9 @@ def sliced_plans(
     m = X_t.shape[0]
 
     if a is None:
-        a = nx.ones(n) / n
+        a = nx.ones(n, type_as=X_s) / n
     if b is None:
-        b = nx.ones(m) / m
+        b = nx.ones(m, type_as=X_t) / m
 
     is_perm = (n == m) and (a == a.sum() / n).all() and (b == a.sum() / n).all()
 
diff --git a/ot/utils.py b/ot/utils.py
index 73b3a3c..d0ec81e 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -206,9 +206,9 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-        z = nx.ones(len(U)) * z
+        z = nx.ones(len(U), type_as=V) * z
         cssv = nx.cumsum(U, axis=1) - z[:, None]
-        ind = nx.arange(max_nz) + 1
+        ind = nx.arange(max_nz, type_as=V) + 1
         cond = U - cssv / ind > 0
         # rho = nx.count_nonzero(cond, axis=1)
         rho = nx.sum(cond, axis=1)
-- 
2.43.0


From 8e57b1a99fe81f754d30c5f7b41371c4ca993fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 83/86] fix: the nearest Brenier potential keeps the dtype and
 device of its input

---
 ot/mapping.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/mapping.py b/ot/mapping.py
index 28ef022..f3a347d 100644
--- a/ot/mapping.py
+++ b/ot/mapping.py
@@ -124,6 +124,7 @@ def nearest_brenier_potential_fit(
         X.shape == V.shape
     ), f"point shape should be the same as value shape, yet {X.shape} != {V.shape}"
     nx = get_backend(X, V, X_classes, a, b)
+    X0 = X
     X, V = to_numpy(X), to_numpy(V)
     n, d = X.shape
     if X_classes is not None:
@@ -191,8 +192,8 @@ def nearest_brenier_potential_fit(
             log_dict["phi_list"].append(phi_val)
 
     # convert back to backend
-    phi_val = nx.from_numpy(phi_val)
-    G_val = nx.from_numpy(G_val)
+    phi_val = nx.from_numpy(phi_val, type_as=X0)
+    G_val = nx.from_numpy(G_val, type_as=X0)
     if not log:
         return phi_val, G_val
     return phi_val, G_val, log_dict
@@ -328,6 +329,7 @@ def nearest_brenier_potential_predict_bounds(
     except ImportError:
         raise ImportError("Please install CVXPY to use this function")
     nx = get_backend(X, phi, G, Y)
+    Y0 = Y
     X = to_numpy(X)
     phi = to_numpy(phi)
     G = to_numpy(G)
@@ -417,7 +419,8 @@ def nearest_brenier_potential_predict_bounds(
             }
             log_dict[y_idx] = log_item
 
-    phi_lu, G_lu = nx.from_numpy(phi_lu), nx.from_numpy(G_lu)
+    phi_lu = nx.from_numpy(phi_lu, type_as=Y0)
+    G_lu = nx.from_numpy(G_lu, type_as=Y0)
     if not log:
         return phi_lu, G_lu
     return phi_lu, G_lu, log_dict
-- 
2.43.0


From a0e1216bdd0b5610c54bdf0a2180239fd6182135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 84/86] fix: dist with the scipy backend keeps the dtype and
 device of its input

---
 ot/utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index d0ec81e..b33a97b 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -456,13 +456,17 @@ def dist(
     if x2 is None:
         x2 = x1
     if backend == "scipy":  # force scipy backend with cdist function
-        x1 = nx.to_numpy(x1)
-        x2 = nx.to_numpy(x2)
-        if isinstance(metric, str) and metric.endswith("minkowski"):
-            return nx.from_numpy(cdist(x1, x2, metric=metric, p=p, w=w))
+        x1_np = nx.to_numpy(x1)
+        x2_np = nx.to_numpy(x2)
         if w is not None:
-            return nx.from_numpy(cdist(x1, x2, metric=metric, w=w))
-        return nx.from_numpy(cdist(x1, x2, metric=metric))
+            w = nx.to_numpy(w)
+        if isinstance(metric, str) and metric.endswith("minkowski"):
+            M = cdist(x1_np, x2_np, metric=metric, p=p, w=w)
+        elif w is not None:
+            M = cdist(x1_np, x2_np, metric=metric, w=w)
+        else:
+            M = cdist(x1_np, x2_np, metric=metric)
+        return nx.from_numpy(M, type_as=x1)
     elif metric == "sqeuclidean":
         return euclidean_distances(x1, x2, squared=True, nx=nx)
     elif metric == "euclidean":
-- 
2.43.0


From 710d0575128ae051bd43a2ae1632a4332000a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 85/86] fix: partial Gromov solvers return the potentials on
 the backend of the input

---
 ot/gromov/_partial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 53f1672..3b86049 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -283,6 +283,8 @@ def partial_gromov_wasserstein(
             **kwargs,
         )
         log["partial_gw_dist"] = nx.from_numpy(log["loss"][-1], type_as=C10)
+        log["u"] = nx.from_numpy(log["u"], type_as=C10)
+        log["v"] = nx.from_numpy(log["v"], type_as=C10)
         return nx.from_numpy(res, type_as=C10), log
     else:
         return nx.from_numpy(
@@ -764,6 +766,8 @@ def partial_fused_gromov_wasserstein(
             **kwargs,
         )
         log["partial_fgw_dist"] = nx.from_numpy(log["loss"][-1], type_as=C10)
+        log["u"] = nx.from_numpy(log["u"], type_as=C10)
+        log["v"] = nx.from_numpy(log["v"], type_as=C10)
         return nx.from_numpy(res, type_as=C10), log
     else:
         return nx.from_numpy(
-- 
2.43.0


From 0405b71dd6031b4bedafe3241ad2f4a1e8855350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 86/86] fix: expected_sliced_plan with uniform weights keeps
 the dtype and device of its input

---
 ot/sliced/_sliced_plans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/sliced/_sliced_plans.py b/ot/sliced/_sliced_plans.py
index 623d9e9..1d77e89 100644
--- a/ot/sliced/_sliced_plans.py
+++ b/ot/sliced/_sliced_plans.py
@@ -493,7 +493,7 @@ def expected_sliced_plan(
     else:  # uniform weights
         if n_projections is None:
             n_projections = projections.shape[1]
-        weights = nx.ones(n_projections) / n_projections
+        weights = nx.ones(n_projections, type_as=X_s) / n_projections
 
     weights_e = nx.concatenate([plans[i].data * weights[i] for i in range(len(plans))])
     Xs_idx = nx.concatenate([plans[i].rows for i in range(len(plans))])
-- 
2.43.0

