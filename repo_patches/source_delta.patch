From 93c3a0ee5b59e3f8ea58dbb20b593c32b7f40941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 01/57] fix: seed the LHS of hyperparameter starts with the
 option that smt supports

---
 gpgradpy/src/optz/GpHparaX0.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 5d52a9c..f146696 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -177,7 +177,13 @@ class GpHparaX0:
             hp_x0       = np.linspace(lhs_lb[0], lhs_ub[0], n_x0+2)[1:-1,None]
         else:
             para_limit  = np.array([lhs_lb, lhs_ub]).T
-            sampling    = LHS(xlimits=para_limit, random_state = 1)
+            
+            # The option for the seed depends on the version of smt
+            try:
+                sampling = LHS(xlimits=para_limit, seed = 1)
+            except Exception:
+                sampling = LHS(xlimits=para_limit, random_state = 1)
+                
             hp_x0       = sampling(n_x0) 
         
         return hp_x0, hp_optz_bounds
-- 
2.43.0


From df68d8b688cecfaa327204c79cbba45410a4cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 02/57] fix: decode the kernel hyperparameter as a float and
 use its default when it is not optimized

---
 gpgradpy/src/base/GpHpara.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 9694678..b6bea46 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -78,9 +78,9 @@ class GpHpara:
             theta = None
         
         if hp_optz_info.has_kernel:
-            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel]
+            hp_kernel = float(hp_vec_mod[hp_optz_info.idx_kernel][0])
         else:
-            hp_kernel = None
+            hp_kernel = self.hp_kernel_default # Is None if the kernel has no hyperparameter
         
         if hp_optz_info.has_varK:
             assert self.b_has_noisy_data
-- 
2.43.0


From c5aa4d20c699fc725c7fda7996c6b2817ac95e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 03/57] fix: optimize hyperparameters when there is no history
 at i_optz = 0

---
 gpgradpy/src/optz/GpHparaX0.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index f146696..c5f1a1a 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -73,6 +73,22 @@ class GpHparaX0:
         lhs_factor = self.hp_lhs_bound_factor
         box_factor = self.hp_box_bound_factor
         
+        ''' Get the previous hyperparameters '''
+        
+        if i_optz == 0: # No history is available so the initial hyperparameters are used
+            hp_init        = self.get_init_hp_vals()
+            old_theta      = hp_init.theta[None,:]
+            old_kernel     = hp_init.kernel
+            old_varK       = hp_init.varK
+            old_var_fval   = hp_init.var_fval
+            old_var_fgrad  = hp_init.var_fgrad
+        else:
+            old_theta      = self.hp_theta_all[idx_min:idx_max, :]
+            old_kernel     = self.hp_kernel_all[idx_min:idx_max]
+            old_varK       = self.hp_varK_all[idx_min:idx_max]
+            old_var_fval   = self.hp_var_fval_all[idx_min:idx_max]
+            old_var_fgrad  = self.hp_var_fgrad_all[idx_min:idx_max]
+        
         ''' Get lb and ub for LHS and box constraints '''
         
         n_hp = hp_optz_info.n_hp
@@ -85,7 +101,7 @@ class GpHparaX0:
         box_ub       = np.full(n_hp, np.nan)
         
         if hp_optz_info.has_theta:
-            para_med = np.median(self.hp_theta_all[idx_min:idx_max, :], axis=0)
+            para_med = np.median(old_theta, axis=0)
             para_med = np.maximum(para_med, self.hp_theta_range[0])
             para_med = np.minimum(para_med, self.hp_theta_range[1])
             
@@ -98,7 +114,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_theta] = np.minimum(para_med * box_factor, self.hp_theta_range[1])
         
         if hp_optz_info.has_kernel:
-            para_med = np.median(self.hp_kernel_all[idx_min:idx_max])
+            para_med = np.median(old_kernel)
             para_med = np.max((para_med, self.hp_kernel_range[0]))
             para_med = np.min((para_med, self.hp_kernel_range[1]))
             
@@ -111,7 +127,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_kernel] = np.min((para_med * box_factor, self.hp_kernel_range[1]))
         
         if hp_optz_info.has_varK:
-            para_med = np.median(self.hp_varK_all[idx_min:idx_max])
+            para_med = np.median(old_varK)
             para_med = np.max((para_med, self.hp_varK_range[0]))
             para_med = np.min((para_med, self.hp_varK_range[1]))
             
@@ -124,7 +140,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_varK] = np.min((para_med * box_factor, self.hp_varK_range[1]))
             
         if hp_optz_info.has_var_fval:
-            para_med = np.max((self.hp_var_fval_range[0], np.median(self.hp_var_fval_all[idx_min:idx_max])))
+            para_med = np.max((self.hp_var_fval_range[0], np.median(old_var_fval)))
             para_med = np.max((para_med, self.hp_var_fval_range[0]))
             para_med = np.min((para_med, self.hp_var_fval_range[1]))
             
@@ -137,7 +153,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_var_fval] = np.min((para_med * box_factor, self.hp_var_fval_range[1]))
             
         if hp_optz_info.has_var_fgrad:
-            para_med = np.max((self.hp_var_fgrad_range[0], np.median(self.hp_var_fgrad_all[idx_min:idx_max])))
+            para_med = np.max((self.hp_var_fgrad_range[0], np.median(old_var_fgrad)))
             para_med = np.max((para_med, self.hp_var_fgrad_range[0]))
             para_med = np.min((para_med, self.hp_var_fgrad_range[1]))
             
-- 
2.43.0


From f4ccabaf59af10687902b48f03f2c29378681a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 04/57] fix: noise vector of a gradient-free GP with unknown
 noise

---
 gpgradpy/src/kernel/Kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 40b6d6d..73307a5 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -333,7 +333,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
                 assert not np.any(np.isnan(std_fval)), f'There are nan values: std_fval = {std_fval}'
                 var_noise = std_fval**2
             else:
-                var_noise = np.full(std_fval.size, hp_vals.var_fval)
+                var_noise = np.full(self.n_eval, hp_vals.var_fval)
             
         else:
             var_noise = np.zeros(self.n_data)
-- 
2.43.0


From 903de6a36e0deca4b81f9600f1292d2798c09f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 05/57] fix: normalize the noise with varK when the surrogate
 is evaluated

---
 gpgradpy/src/kernel/Kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 73307a5..f5233e5 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -208,6 +208,9 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
         if noise_vec is None:
             noise_vec = self.calc_noise_vec(hp_vals)
             
+        if b_normlz_w_varK and np.any(noise_vec > 0):
+            noise_vec = noise_vec / hp_vals.varK # The noise must be normalized like Kern
+            
         n_data = noise_vec.size
         
         if self.use_grad:
-- 
2.43.0


From 9f4894527b1f74bbc9b23483c60cea22576264ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 06/57] fix: derivative of the gradient-free Matern 5/2 kernel
 with respect to theta

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 33914d6..b4c4330 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -117,20 +117,14 @@ class KernelMatern5f2Base:
         
         nu_mat = np.sqrt(nu_mat)
         
-        # Take the inverse of nu_mat without causing error for values of zero
-        # Use 1e-16 as min value, does not change final calculations since
-        # nu_mat[i,j] is zero iff Rtensor[k,i,j] is zero for all 0<=k<=(dim-1) 
-        inv_nu_mat = 1 / (2*np.maximum(nu_mat, 1e-16))
-        # inv_nu_mat = np.divide(0.5, nu_mat, out=np.zeros_like(nu_mat[0,0]), where=nu_mat!=0)
-
         sqrt5      = np.sqrt(5)
         Rtensor_sq = Rtensor**2
-        KernBase   = (1 + sqrt5 * nu_mat + (5.0/3.0) * nu_mat**2) * np.exp(-sqrt5 * nu_mat)
+        Abase      = np.exp(-sqrt5 * nu_mat)
 
         KernBase_grad_th = np.zeros((dim, n1, n1))
 
         for d in range(dim):
-            KernBase_grad_th[d,:,:] = -sqrt5 * Rtensor_sq[d,:,:] * inv_nu_mat * KernBase
+            KernBase_grad_th[d,:,:] = -(5.0/6.0) * Rtensor_sq[d,:,:] * (1 + sqrt5 * nu_mat) * Abase
 
         return KernBase_grad_th
     
-- 
2.43.0


From c076a7ff6b10b38695e38f25c7b4a1d910007955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 07/57] fix: derivative of the kernel matrix with respect to
 theta when only some gradients are used

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 9 +++++----
 gpgradpy/src/kernel/KernelSqExp.py     | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index b4c4330..9bc436f 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -562,7 +562,7 @@ class KernelMatern5f2GradMod:
             Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             Abase_g1      = Abase_gg      = Abase
-            mat1_g1       = mat1 
+            mat1_g1       = mat1_gg       = mat1
             nu_mat_gg     = nu_mat
         else:
             n_grad        = np.sum(bvec_use_grad)
@@ -577,6 +577,7 @@ class KernelMatern5f2GradMod:
             Abase_gg      = Abase_g1[:, bvec_use_grad]
             
             mat1_g1       = mat1[bvec_use_grad, :]
+            mat1_gg       = mat1_g1[:, bvec_use_grad]
             
             nu_mat_g1     = nu_mat[bvec_use_grad,:]
             nu_mat_gg     = nu_mat_g1[:,bvec_use_grad]
@@ -605,7 +606,7 @@ class KernelMatern5f2GradMod:
             KernGrad_grad_th[d, :n1, rd1:rd2] += term.T
             
             # Covariance grad with grad for case of d == i == j
-            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1
+            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1_gg
             
             for i in range(dim):
                 ri1 = n1 + i * n_grad
@@ -617,9 +618,9 @@ class KernelMatern5f2GradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -((25./3.) * theta[i]) * Rtensor_g1[i] * Rtensor_g1[d] * Abase_g1
+                term = -((25./3.) * theta[i]) * Rtensor_gg[i] * Rtensor_gg[d] * Abase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
-                KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term.T
+                KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term
                 
                 # Covariance grad with grad when i == j
                 KernGrad_grad_th[d, ri1:ri2, ri1:ri2] += (-((25./6.) * theta[i]) * Rtensor_sq_gg[d] * Abase_gg
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index da085a3..461b128 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -505,13 +505,14 @@ class KernelSqExpGradMod:
         
         if bvec_use_grad is None:
             n_grad        = n1
-            Rtensor_g1    = Rtensor
+            Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             KernBase_g1   = KernBase_gg   = KernBase
         else:
             n_grad        = np.sum(bvec_use_grad)
             
             Rtensor_g1    = Rtensor[:, bvec_use_grad,:]
+            Rtensor_gg    = Rtensor_g1[:,:, bvec_use_grad]
             
             Rtensor_sq_g1 = Rtensor_sq[:,bvec_use_grad,:]
             Rtensor_sq_gg = Rtensor_sq_g1[:,:,bvec_use_grad]
@@ -549,7 +550,7 @@ class KernelSqExpGradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -4 * theta[i] * Rtensor[d,:,:] * Rtensor[i,:,:] * KernBase
+                term = -4 * theta[i] * Rtensor_gg[d,:,:] * Rtensor_gg[i,:,:] * KernBase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term
                 
-- 
2.43.0


From f09ac52e48917ccc6b0a22fdba55b832dd598382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 08/57] fix: rational quadratic kernel when only some gradients
 of the first set are used

---
 gpgradpy/src/kernel/KernelRatQuad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index 2cdf6d0..f659f97 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -499,7 +499,7 @@ class KernelRatQuadGradMod:
                 
                 Rtensor_sq_gg   = Rtensor_sq_g1
                 
-                B_m_alpha_m1_g2 = B_m_alpha_m1_g1
+                B_m_alpha_m1_g2 = B_m_alpha_m1
                 B_m_alpha_m1_gg = B_m_alpha_m1_g1
                 
                 B_m_alpha_m2_gg = B_m_alpha_m2_g1
-- 
2.43.0


From 4ee38921b2d715244804f39560f305d0fe33675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 09/57] fix: Hessian of the surrogate when only some gradients
 are used

---
 gpgradpy/src/eval/GpEvalModel.py       | 18 ++++++++++++++----
 gpgradpy/src/kernel/KernelMatern5f2.py |  2 +-
 gpgradpy/src/kernel/KernelRatQuad.py   |  6 +++---
 gpgradpy/src/kernel/KernelSqExp.py     |  2 +-
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c6bd211..e7312db 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -149,7 +149,12 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            
+            if self.use_grad:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
+            else:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -283,7 +288,12 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            
+            if self.use_grad:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
+            else:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -355,7 +365,7 @@ class GpEvalModel(GpMeanFun):
 
     def calc_d2mudx2(self, d2Kxy_dx2):
         
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_data
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2mudx2 can only be used on one point per call'
         
         d2mudx2 = np.matmul(d2Kxy_dx2, self.invKernEta_fdiff[None,:,None])[:,:,0]
@@ -365,7 +375,7 @@ class GpEvalModel(GpMeanFun):
     def calc_d2sigdx2(self, sig, dsigdx, Kxy_invKernEta, dKxy_dx, d2Kxy_dx2, sigK):
         
         # Preliminaries
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_data
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2sigdx2 can only be used on one point per call'
         
         # Calculate d2sig2_dx2
diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 9bc436f..71a6605 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -513,7 +513,7 @@ class KernelMatern5f2GradMod:
                     Rj_til   = Rtensor_g2[j] * theta[j]
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = -(25/3) * (theta[i]   * delta_ik * Rj_til 
diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index f659f97..f18c6ed 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -601,7 +601,7 @@ class KernelRatQuadGradMod:
             rk2 = rk1 + n1
             
             ck1 = n2 + k * n2_grad
-            ck2 = ck1 + n2 
+            ck2 = ck1 + n2_grad 
             
             KernGrad_grad_x[k, rk1:rk2, :n2] -= 2 * theta[k] * B_m_alpha_m1
             
@@ -610,7 +610,7 @@ class KernelRatQuadGradMod:
                 ri2 = ri1 + n1
                 
                 ci1 = n2 + i * n2_grad
-                ci2 = ci1 + n2 
+                ci2 = ci1 + n2_grad 
                 
                 # Covariance obj with grad
                 KernGrad_grad_x[k, ri1:ri2, :n2] += (scalar1 * theta[i] * theta[k]) * Rtensor[i,:,:] * Rtensor[k,:,:] * B_m_alpha_m2
@@ -624,7 +624,7 @@ class KernelRatQuadGradMod:
                 
                 for j in range(dim):
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         += (scalar2 * theta[i] * theta[j] * theta[k]) * Rtensor_g2[i] * Rtensor_g2[j] * Rtensor_g2[k] * B_m_alpha_m3_g2
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index 461b128..b0b2d48 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -458,7 +458,7 @@ class KernelSqExpGradMod:
                     delta_ij = int(i == j)
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = (-4* theta[i] * theta[j] * (delta_ik * Rtensor_g2[j] + delta_jk * Rtensor_g2[i])
-- 
2.43.0


From 959743fe1bd2535fe2c7c9ad5c96532166ef220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 10/57] fix: detect all changes to the hyperparameters between
 setup_eval_model() and eval_model()

---
 gpgradpy/src/base/GpHpara.py     | 17 ++++++++++++++++-
 gpgradpy/src/eval/GpEvalModel.py |  6 +++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index b6bea46..8c7cdc2 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -7,7 +7,7 @@ Created on Sat Mar 13 10:52:48 2021
 """
 
 import numpy as np
-from dataclasses import dataclass
+from dataclasses import dataclass, fields
 
 @dataclass
 class HparaOptzVal:
@@ -30,6 +30,21 @@ class GpHpara:
         
         return HparaOptzVal(beta, theta, kernel, varK, var_fval, var_fgrad)
     
+    @staticmethod
+    def check_hp_match(hp_vals1, hp_vals2):
+        
+        # Compares the values since == is ambiguous for numpy arrays
+        for field in fields(HparaOptzVal):
+            val1 = getattr(hp_vals1, field.name)
+            val2 = getattr(hp_vals2, field.name)
+            
+            if (val1 is None) or (val2 is None):
+                if val1 is not val2: return False
+            elif not np.array_equal(val1, val2, equal_nan = True):
+                return False
+            
+        return True
+
     def set_hp_from_idx(self, i_optz):
         
         if np.isnan(self.hp_var_fval_all[i_optz]):
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index e7312db..5ee86d6 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -22,7 +22,7 @@ class GpEvalModel(GpMeanFun):
         can be evaluated with eval_model()
         '''
         
-        self._hp_vals_model_setup = copy.copy(self.hp_vals)
+        self._hp_vals_model_setup = copy.deepcopy(self.hp_vals)
         
         x_scl, Rtensor        = self.get_scl_x_w_dist()
         fval_scl, _, grad_scl = self.get_scl_eval_data()[:3]
@@ -102,7 +102,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
+        check_hp_vals = self.check_hp_match(self.hp_vals, self._hp_vals_model_setup)
         
         if check_hp_vals is False:
             print('hp_vals has changed since setup_eval_model() was called')
@@ -240,7 +240,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
+        check_hp_vals = self.check_hp_match(self.hp_vals, self._hp_vals_model_setup)
         
         if check_hp_vals is False:
             print('hp_vals has changed since setup_eval_model() was called')
-- 
2.43.0


From d73ea43d22be0e3e974bef7a0592d3caa0969161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 11/57] fix: refuse to evaluate the surrogate when the data has
 changed since setup_eval_model()

---
 gpgradpy/src/GaussianProcess.py  | 2 ++
 gpgradpy/src/eval/GpEvalModel.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1a41609..8e9a56a 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -293,6 +293,8 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
         ''' Store input data '''
         
+        self.KernEta_chofac = None # setup_eval_model() must be called again with the new data
+        
         self._x_eval_in    = x_eval
         self._fval_in      = fval
         self._std_fval_in  = std_fval if self.known_eps_fval  else None
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 5ee86d6..4c53739 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -13,6 +13,8 @@ from scipy import linalg
 from . import GpMeanFun
 
 class GpEvalModel(GpMeanFun):
+    
+    KernEta_chofac = None # The surrogate can only be evaluated after setup_eval_model() is called
 
     def setup_eval_model(self, calc_cond = False):
         
@@ -228,6 +230,8 @@ class GpEvalModel(GpMeanFun):
         
         ''' Check inputs '''
         
+        assert self.KernEta_chofac is not None, 'To evaluate the surr the Cholesky decomposition is required'
+        
         if x2model_in.ndim == 1:
             x2model = x2model_in[None,:]
         elif x2model_in.ndim == 2:
-- 
2.43.0


From d97452067909398424404781af7bdefd6225948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 12/57] fix: check the shape of x_eval in set_data()

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 8e9a56a..0edc574 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -264,7 +264,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         fval = np.atleast_1d(fval).ravel()
         
         assert x_eval.ndim == 2, f'x_eval must be a 2 array but x_eval.ndim = {x_eval.ndim}'
-        assert n_eval == fval.size, 'No. of points do not match with x_eval and fval'
+        assert x_eval.shape == (n_eval, self.dim), f'Shape of x_eval is {x_eval.shape} but it should be {(n_eval, self.dim)}'
         
         if (std_fval is None) or np.any(np.isnan(std_fval)):
             self.known_eps_fval = False
-- 
2.43.0


From 57489b02b039d7a1c934acc2d27374c08ec05d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 13/57] fix: leave the GP unchanged when set_data() rejects its
 inputs

---
 gpgradpy/src/GaussianProcess.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 0edc574..733bc77 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -257,42 +257,46 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             assert bvec_use_grad is None, 'bvec_use_grad must be None if grads are not used for the GP'
             n_grad = 0
         
-        self.n_eval = n_eval
-        self.n_grad = n_grad
-        self.n_data = n_eval + n_grad * self.dim
-        
         fval = np.atleast_1d(fval).ravel()
         
         assert x_eval.ndim == 2, f'x_eval must be a 2 array but x_eval.ndim = {x_eval.ndim}'
         assert x_eval.shape == (n_eval, self.dim), f'Shape of x_eval is {x_eval.shape} but it should be {(n_eval, self.dim)}'
         
         if (std_fval is None) or np.any(np.isnan(std_fval)):
-            self.known_eps_fval = False
+            known_eps_fval = False
         else:
-            self.known_eps_fval = True
+            known_eps_fval = True
             std_fval = np.atleast_1d(std_fval).ravel()
             assert n_eval == std_fval.size, f'Size of std_fval is {std_fval.size} while it should be {n_eval}'
         
         if grad is None:
             assert self.use_grad is False, 'No grad info provided but use_grad was set to True'
-            self.has_grad_info   = False
-            self.known_eps_fgrad = False
+            has_grad_info   = False
+            known_eps_fgrad = False
         else:
             assert self.use_grad, 'Grad info provided but use_grad was set to False'
-            self.has_grad_info = True
+            has_grad_info = True
             assert grad.ndim == 2, f'grad must be a 2 array but grad.ndim = {grad.ndim}'
             
             assert grad.shape == (n_grad, self.dim), 'Shape of grad does not match x_eval'
             
             if (std_grad is None) or np.any(np.isnan(std_grad)):
-                self.known_eps_fgrad = False
+                known_eps_fgrad = False
             else:
-                self.known_eps_fgrad = True
+                known_eps_fgrad = True
                 assert std_grad.ndim == 2, f'std_grad must be a 2 array but std_grad.ndim = {std_grad.ndim}'
                 assert grad.shape == std_grad.shape, 'Shape of grad does not match std_grad'
         
         ''' Store input data '''
         
+        self.n_eval = n_eval
+        self.n_grad = n_grad
+        self.n_data = n_eval + n_grad * self.dim
+        
+        self.known_eps_fval  = known_eps_fval
+        self.has_grad_info   = has_grad_info
+        self.known_eps_fgrad = known_eps_fgrad
+        
         self.KernEta_chofac = None # setup_eval_model() must be called again with the new data
         
         self._x_eval_in    = x_eval
-- 
2.43.0


From db8941de7ecec4e1901dabdc098acb0cc59a51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 14/57] fix: store copies of the data provided to set_data()

---
 gpgradpy/src/GaussianProcess.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 733bc77..7844dea 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -299,6 +299,15 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
         self.KernEta_chofac = None # setup_eval_model() must be called again with the new data
         
+        # Copies are used since the arrays that are provided may later be modified
+        x_eval        = np.copy(x_eval)
+        fval          = np.copy(fval)
+        grad          = None if grad          is None else np.copy(grad)
+        bvec_use_grad = None if bvec_use_grad is None else np.copy(bvec_use_grad)
+        
+        if self.known_eps_fval:  std_fval = np.copy(std_fval)
+        if self.known_eps_fgrad: std_grad = np.copy(std_grad)
+        
         self._x_eval_in    = x_eval
         self._fval_in      = fval
         self._std_fval_in  = std_fval if self.known_eps_fval  else None
-- 
2.43.0


From 6ebe2857c5752e9bd4199907057b7e2fc537f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 15/57] fix: stored hyperparameters do not alias the history

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 8c7cdc2..7886c2d 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -62,7 +62,7 @@ class GpHpara:
             hp_var_fgrad = self.hp_var_fgrad_all[i_optz]
         
         hp_vals = self.make_hp_class(
-            self.hp_beta_all[i_optz,:], self.hp_theta_all[i_optz,:], 
+            np.copy(self.hp_beta_all[i_optz,:]), np.copy(self.hp_theta_all[i_optz,:]), 
             self.hp_kernel_all[i_optz], self.hp_varK_all[i_optz], 
             hp_var_fval,                hp_var_fgrad)
         
-- 
2.43.0


From 2f0714c321a8061cfc826ca0fc9ab291be031b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 16/57] fix: rescaling of Hessians when the scaling is not
 isotropic

---
 gpgradpy/src/base/Rescaling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index bb2d613..bc99dfa 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -143,7 +143,7 @@ class RescalingObjData:
         
         scale_inv    = 1 / self.xvec_scale[None,:]
         scl_grad_vec = scale_inv    * self.obj_scale
-        scl_hess_vec = scale_inv**2 * self.obj_scale
+        scl_hess_vec = scale_inv.T @ scale_inv * self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = None if mu_in       is None else (mu_in - self.obj_shift) * self.obj_scale
@@ -168,7 +168,7 @@ class RescalingObjData:
         assert self._obj_data_set, 'Must call set_obj_data prior to this method'
         
         scl_grad_vec = self.xvec_scale[None,:]    / self.obj_scale
-        scl_hess_vec = self.xvec_scale[None,:]**2 / self.obj_scale
+        scl_hess_vec = np.outer(self.xvec_scale, self.xvec_scale) / self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu       = None if mu_scl       is None else mu_scl  / self.obj_scale + self.obj_shift
@@ -275,7 +275,7 @@ class RescalingNonlincon:
         dsigdx_scl   = None if dsigdx_in is None else dsigdx_in * scl_vec
         
         # Scale the Hessians
-        scl_vec      = normz_xvec_scale_inv**2 * self.nlc_scale
+        scl_vec      = np.outer(1 / self.xvec_scale, 1 / self.xvec_scale) * self.nlc_scale
         d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_vec
         d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_vec
         
@@ -293,7 +293,7 @@ class RescalingNonlincon:
         assert mu_scl.ndim == 2,  f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
-        scl_hess_vec  = self.xvec_scale[None,None,:]**2 / self.nlc_scale
+        scl_hess_vec  = np.outer(self.xvec_scale, self.xvec_scale) / self.nlc_scale
         
         mu       = None if mu_scl  is None else mu_scl  / self.nlc_scale + self.nlc_shift[None,:]
         sig      = None if sig_scl is None else sig_scl / self.nlc_scale
-- 
2.43.0


From f7e512bcf658ed93e6f1e6421ba1f82ec30c82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 17/57] fix: set_xscale_data() with nonlinear constraint data
 or a given shift

---
 gpgradpy/src/base/Rescaling.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index bc99dfa..e1bc4bc 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -58,16 +58,13 @@ class RescalingXdata:
             self._calc_n_set_scl_obj()
             
         if self._nlc_data_set:
-            self._calc_n_set_scl_nlc_data()
+            self._calc_n_set_scl_nlc()
             
         if self._boxcon_set:
             self._calc_n_set_scl_boxcon()
             
         if self._lincon_set:
             self._calc_n_set_scl_lincon()
-        
-        if self._nlc_data_set:
-            self._calc_n_set_scl_nonlincon()
     
     def _calc_x_shift_n_scale(self, x_shift_in = None, xvec_scale_in = None):
         
@@ -84,8 +81,8 @@ class RescalingXdata:
                 x_shift = np.zeros(self.dim)
         else:
             assert x_shift_in.size == self.dim, f'Wrong size for x_shift_in: {x_shift_in.shape}'
-            assert x_shift_in.dim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
-            x_shift = 1 * np.atlest_1d(x_shift_in)
+            assert x_shift_in.ndim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
+            x_shift = 1 * np.atleast_1d(x_shift_in)
         
         if xvec_scale_in is None:
             xvec_scale_in = np.ones(self.dim)
-- 
2.43.0


From 37dbcc27df8edddfb3ab29622294545d9ce6486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 18/57] fix: set_nlc_data() without standard deviations or
 gradients and with its default arguments

---
 gpgradpy/src/base/Rescaling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index e1bc4bc..4e7b3ef 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -250,12 +250,12 @@ class RescalingLincon:
     
 class RescalingNonlincon:
     
-    def nlc_init_2_scl(self, mu_in, sig_in, 
+    def nlc_init_2_scl(self, mu_in = None, sig_in = None, 
                        dmudx_in   = None, dsigdx_in   = None, 
                        d2mudx2_in = None, d2sigdx2_in = None):
     
         assert self._nlc_data_set, 'Must call set_nlc_data prior to this method'
-        assert mu_in.ndim    == 2, f'Unexpected shape for mu_in of {mu_in.shape}'
+        assert (mu_in is None) or (mu_in.ndim == 2), f'Unexpected shape for mu_in of {mu_in.shape}'
         
         if dmudx_in is not None:
             assert dmudx_in.ndim == 3, f'Unexpected shape for dmudx_in of {dmudx_in.shape}'
@@ -263,8 +263,8 @@ class RescalingNonlincon:
         normz_xvec_scale_inv = 1 / self.xvec_scale[None,None,:]
         
         # Unscale the mean and standard deviation of the data
-        mu_scl       = (mu_in - self.nlc_shift[None,:]) * self.nlc_scale
-        sig_scl      = sig_in * self.nlc_scale 
+        mu_scl       = None if mu_in  is None else (mu_in - self.nlc_shift[None,:]) * self.nlc_scale
+        sig_scl      = None if sig_in is None else sig_in * self.nlc_scale 
         
         # Scale the gradients
         scl_vec      = normz_xvec_scale_inv * self.nlc_scale
@@ -287,7 +287,7 @@ class RescalingNonlincon:
         # uncertainty of the gradient. The same applies to the Hessian
         
         assert self._nlc_data_set, 'Must call set_nlc_data prior to this method'
-        assert mu_scl.ndim == 2,  f'Unexpected shape for mu_scl of {mu_scl.shape}'
+        assert (mu_scl is None) or (mu_scl.ndim == 2), f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
         scl_hess_vec  = np.outer(self.xvec_scale, self.xvec_scale) / self.nlc_scale
@@ -340,7 +340,7 @@ class RescalingNonlincon:
             assert self._obj_data_set, 'Must call set_obj_data prior to this method'
             nlc_scale = self.obj_scale
         else:
-            raise Exception(f'Unavailable method of obj_scl_method = {self.obj_scl_method}')
+            raise Exception(f'Unavailable method of nlc_scl_method = {self.nlc_scl_method}')
         
         return nlc_shift, nlc_scale
         
@@ -482,7 +482,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._obj_data_set, 'Must call the method set_obj_data prior to this method'
         return self.obj_scl, self.std_obj_scl, self.grad_scl, self.std_grad_scl
         
-    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'dflt_max'):
+    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = None):
         
         n_eval, self.nlc_n = nlc_val_init.shape
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
-- 
2.43.0


From e02705406070fdd425bf6c7e10511140dc2fb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 19/57] fix: saving and loading the data of the surrogate

---
 gpgradpy/src/base/GpInfo.py    | 13 ++++++++++++-
 gpgradpy/src/base/GpParaDef.py | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index b5000fe..6a3143f 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -6,6 +6,7 @@ Created on Sun Jun  6 09:48:36 2021
 @author: andremarchildon
 """
 
+import os
 import numpy as np
 from tabulate import tabulate
 
@@ -31,10 +32,20 @@ class GpInfo:
             print(data2print)
 
         if save2file:
-            self.save_txt_data(data2print, self.path_data_surr_txt, self.path_data_surr_old_txt)
+            self.save_txt_data(data2print, self.path_surr_txt, self.path_surr_old_txt)
 
         return data2print
 
+    @staticmethod
+    def save_txt_data(data2save, file2save, file2save_old):
+        
+        # Keep the previous file until the new one is saved
+        if os.path.isfile(file2save):
+            os.replace(file2save, file2save_old)
+        
+        with open(file2save, 'w') as file:
+            file.write(data2save)
+
     def info_surr_all_data(self, print2screen=True):
         
         data2print  = self.info_surr_summary(False)
diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 9e09b6e..e19ce1e 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -117,7 +117,7 @@ class GpParaDef:
         assert self._save_data, 'If the method init_optz_surr has not been called, then load_data_surr cannot be used'
         
         if all_data is None: 
-            file2load = self.path_data_acq_npz
+            file2load = self.path_surr_npz
             
             if not os.path.isfile(file2load): return 
             
@@ -209,13 +209,22 @@ class GpParaDef:
                      }
 
         if save2file:
-            if file2save     is None: file2save     = self.path_data_surr_npz
-            if file2save_old is None: file2save_old = self.path_data_surr_old_npz
+            if file2save     is None: file2save     = self.path_surr_npz
+            if file2save_old is None: file2save_old = self.path_surr_old_npz
             
             self.save_npz_data(data2save, file2save, file2save_old)
                 
         return data2save
 
+    @staticmethod
+    def save_npz_data(data2save, file2save, file2save_old):
+        
+        # Keep the previous file until the new one is saved
+        if os.path.isfile(file2save):
+            os.replace(file2save, file2save_old)
+            
+        np.savez(file2save, **data2save)
+
     def store_new_para_surr(self, i_optz, hp_vals, 
                             surr_optz_info = None,   cond_val    = np.nan, 
                             time_hp_optz   = np.nan, time_chofac = np.nan, time_pick_hp0 = np.nan):
-- 
2.43.0


From 9e903c336a73c35980274d24873baa6c33ab8381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 20/57] fix: accept wellcond_mtd = None, which selects the base
 method

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 7844dea..78cb86e 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -191,7 +191,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
     def set_wellcond_mtd(self, wellcond_mtd):
         
-        assert wellcond_mtd in self.wellcond_mtd_avail, \
+        assert (wellcond_mtd is None) or (wellcond_mtd in self.wellcond_mtd_avail), \
             f'Requested method not available, wellcond_mtd : {wellcond_mtd}'
             
         if wellcond_mtd is None:
-- 
2.43.0


From 9549294ddc94ca3ff2cb109de036d5275bdd84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 21/57] fix: calc_model_mean_w_data_scl() used the wrong inputs
 for the kernel matrix

---
 gpgradpy/src/eval/GpEvalModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 4c53739..4d31cde 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -410,7 +410,11 @@ class GpEvalModel(GpMeanFun):
                                    xeval_scl, fval_scl, grad_scl = None, 
                                    theta = None, calc_grad = True): 
         
-        Kgrad_xy = self.calc_KernGrad(x2model_scl, xeval_scl, theta)
+        if theta is None:
+            theta = self.hp_vals.theta
+        
+        Rtensor  = self.calc_Rtensor(x2model_scl, xeval_scl, 1)
+        Kgrad_xy = self.calc_KernGrad(Rtensor, theta, self.hp_vals.kernel)
         
         ny = fval_scl.size
         nx = int(Kgrad_xy.shape[0] / (self.dim + 1))
-- 
2.43.0


From 028579934d2c908cb4084b679f0a6c819045275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 22/57] fix: clip the feasibility data like the other data in
 load_npz_data()

---
 gpgradpy/results/PltOptzResults.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index 20276f6..d37220a 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -66,6 +66,7 @@ class PltOptzResults:
         else:
             merit_all = merit_all[:, :n_x0_max, :]
             opt_all   = opt_all[:, :n_x0_max, :]
+            fsb_all   = fsb_all[:, :n_x0_max, :]
             
         return merit_all, opt_all, fsb_all
     
-- 
2.43.0


From c726d077a46ebdf3b0a39c16697c8702aee87995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 23/57] fix: maximum of the initial condition numbers was
 always nan

---
 gpgradpy/src/optz/OptzLkd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 56c5406..ac5610b 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -254,7 +254,7 @@ class OptzLkd(CalcLkd):
             
             if self.b_use_cond_cstr:
                 lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
-                optz_max_init_cond    = np.max((optz_max_init_cond, cond_val))
+                optz_max_init_cond    = np.fmax(optz_max_init_cond, cond_val)
                 if np.isnan(lkd_val):        optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
-- 
2.43.0


From 056dbe88f760c4a65aadf721a76272e2544f94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 24/57] fix: calc_model_mean_w_data_scl() did not request the
 gradients of the mean function

---
 gpgradpy/src/eval/GpEvalModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 4d31cde..5b181c9 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -419,11 +419,11 @@ class GpEvalModel(GpMeanFun):
         ny = fval_scl.size
         nx = int(Kgrad_xy.shape[0] / (self.dim + 1))
 
-        mean_fval, mean_fgrad = self.eval_mean_fun(xeval_scl, hp_beta, self.use_grad)[:2]
+        mean_fval, mean_fgrad = self.eval_mean_fun(xeval_scl, hp_beta, calc_grad = self.use_grad)[:2]
         mean_fun_vec          = self.make_data_vec(mean_fval, mean_fgrad)
         
         x2model_base_mu_val, x2model_base_mu_grad \
-            = self.eval_mean_fun(x2model_scl, hp_beta, calc_grad)[:2]
+            = self.eval_mean_fun(x2model_scl, hp_beta, calc_grad = calc_grad)[:2]
         
         if self.use_grad:
             assert grad_scl is not None, 'grad_scl should not be None when use_grad is True'
-- 
2.43.0


From e6030e96ec364ebdd1b167f24178601e1382bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 25/57] fix: iterations of the rescaling methods did not
 rescale the data and lost the optimized theta

---
 gpgradpy/src/optz/OptzLkd.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index ac5610b..f61e656 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -139,7 +139,7 @@ class OptzLkd(CalcLkd):
         best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(hp_x0, optz_bound)
         
         max_iter      = self.cond_vreq_max_iter
-        theta_all     = np.full((max_iter, self.dim), np.nan)
+        best_hp_all   = np.full((max_iter, best_hp.size), np.nan)
         dist2line_all = np.full(max_iter, np.nan)
         scale_vec_all = np.full((max_iter, self.dim), np.nan)
         
@@ -155,28 +155,39 @@ class OptzLkd(CalcLkd):
                 
                 theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_new_xo)
                 
-                theta_all[cnt,:]     = theta_new_xo
+                # Set the scaling and modify theta since the scaling that is set satisfies x_scl_method
+                self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_new)
+                
+                ratio_scale  = (xvec_scale_new / self.DataScl.xvec_scale)**2
+                theta_new_xo = theta_new_xo + np.log10(ratio_scale) if self.optz_log_hp_theta else theta_new_xo * ratio_scale
+                
+                x0_hp_vec = np.copy(best_hp)
+                x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
+                
+                best_hp_all[cnt,:]   = x0_hp_vec
                 dist2line_all[cnt]   = est_dist2sol
-                scale_vec_all[cnt,:] = xvec_scale_new
+                scale_vec_all[cnt,:] = self.DataScl.xvec_scale
                 
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
                 else:
-                    x0_hp_vec = np.copy(best_hp)
-                    x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
-                    
-                    best_hp,cond_val = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[:2]
+                    best_hp      = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[0]
+                    theta_new_xo = best_hp[self.hp_info_optz_lkd.idx_theta]
                 
                 cnt += 1
                 
             idx_min_dist    = np.nanargmin(dist2line_all)
-            theta_final     = theta_all[idx_min_dist, :]
+            best_hp_final   = best_hp_all[idx_min_dist, :]
             scale_vec_final = scale_vec_all[idx_min_dist, :]
             
             self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_final)
             
-            best_hp_final = np.copy(best_hp)
-            best_hp_final[self.hp_info_optz_lkd.idx_theta] = theta_final
+            # Condition number for the final hyperparameters and scaling
+            hp_vals  = self.hp_vec2dataclass(self.hp_info_optz_lkd, best_hp_final)
+            Rtensor  = self.get_scl_x_w_dist()[1]
+            varK     = None if self.b_has_noisy_data else 1
+            cond_val = self.calc_all_K_w_chofac(Rtensor, hp_vals, calc_chofac = False, 
+                                                calc_cond = True, varK = varK)[4]
         else:
             best_hp_final = best_hp
         
-- 
2.43.0


From 1944e0aed4dd7362567343cffb4b6b5011470eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 26/57] fix: use the hyperparameters at i_optz with the scaling
 of the data they were optimized for

---
 gpgradpy/src/base/GpHpara.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 7886c2d..f21ecc2 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -68,6 +68,10 @@ class GpHpara:
         
         self.hp_vals = hp_vals
         
+        # The stored theta is for the scaling of the data that was used at i_optz
+        if self.b_use_data_scl and not np.any(np.isnan(self.xvec_rescaling_all[i_optz,:])):
+            self.DataScl.set_xscale_data(xvec_scale_in = self.xvec_rescaling_all[i_optz,:])
+        
     def hp_vec2dataclass(self, hp_optz_info, hp_vec):
         '''
         Parameters
-- 
2.43.0


From 7d24022069248dff8bde3d0c5a134b025ff3276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 27/57] fix: gradient when the Cholesky decomposition fails is
 with respect to the optimized variables

---
 gpgradpy/src/optz/OptzLkd.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index f61e656..2567c85 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -57,24 +57,25 @@ class OptzLkd(CalcLkd):
             cond_val  = lkd_info.cond
             cond_grad = lkd_info.cond_grad
             
+            # Adjust gradients for terms being optimized with respect to their log values
+            if calc_grad:
+                bvec            = self.hp_info_optz_lkd.bvec_log_optz
+                log_hp          = hp_vec[bvec]
+                transformation  = 10**log_hp * np.log(10)
+                
+                if b_chofac_good:
+                    lkd_info.ln_lkd_grad[bvec] *= transformation
+            
+                if self.b_use_cond_cstr:
+                    cond_grad[bvec] *= transformation
+            
             if b_chofac_good:
                 ln_lkd_val  = lkd_info.ln_lkd 
                 ln_lkd_grad = lkd_info.ln_lkd_grad
-                
-                # Adjust gradients for terms being optimized with respect to their log values
-                if calc_grad:
-                    bvec            = self.hp_info_optz_lkd.bvec_log_optz
-                    log_hp          = hp_vec[bvec]
-                    transformation  = 10**log_hp * np.log(10)
-                    
-                    ln_lkd_grad[bvec] *= transformation
-                
-                    if self.b_use_cond_cstr:
-                        cond_grad[bvec] *= transformation
             else:
                 # If the Cholesky decomposition fails use the condition number as the obj
                 ln_lkd_val  = -cond_val
-                ln_lkd_grad = -cond_grad
+                ln_lkd_grad = None if cond_grad is None else -cond_grad
                 
             # Store values
             self._lkd_val   = ln_lkd_val
-- 
2.43.0


From 7583e0853d2f54592ddeb802e11c652e0854b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 28/57] fix: count the failures of the Cholesky decomposition
 at the starting points

---
 gpgradpy/src/optz/OptzLkd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 2567c85..0e4b0fe 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -78,6 +78,8 @@ class OptzLkd(CalcLkd):
                 ln_lkd_grad = None if cond_grad is None else -cond_grad
                 
             # Store values
+            self._b_chofac_good = b_chofac_good
+            
             self._lkd_val   = ln_lkd_val
             self._lkd_grad  = ln_lkd_grad
             
@@ -265,9 +267,9 @@ class OptzLkd(CalcLkd):
             ''' Calculate parameters related to the condition number '''
             
             if self.b_use_cond_cstr:
-                lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
+                cond_val              = self.calc_store_likelihood(x0_i)[2]
                 optz_max_init_cond    = np.fmax(optz_max_init_cond, cond_val)
-                if np.isnan(lkd_val):        optz_n_cho_fail += 1
+                if not self._b_chofac_good:  optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
             ''' Optimization '''
-- 
2.43.0


From df3da25c3d30a8828bcf77732c67c503677d0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 29/57] fix: select a starting point when some Cholesky
 decompositions fail and the others are ill-conditioned

---
 gpgradpy/src/optz/GpHparaX0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index c5f1a1a..c882d6b 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -48,7 +48,7 @@ class GpHparaX0:
                 bvec_cond_no_good = cond_all > (1.2*self.cond_max)
                 
                 # Esure theere is at least one valid initial solution
-                if np.sum(bvec_cond_no_good) == bvec_cond_no_good.size:
+                if np.all(bvec_cond_no_good | np.isnan(cond_all)):
                     idx = np.nanargmin(cond_all) 
                     bvec_cond_no_good[idx] = False
                 
-- 
2.43.0


From 2b12da7bce7bbde9cf4d87414c467aa038aa86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 30/57] fix: refuse to evaluate the surrogate when the scaling
 of the data has changed since setup_eval_model()

---
 gpgradpy/src/base/GpHpara.py | 1 +
 gpgradpy/src/optz/OptzLkd.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index f21ecc2..419732d 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -70,6 +70,7 @@ class GpHpara:
         
         # The stored theta is for the scaling of the data that was used at i_optz
         if self.b_use_data_scl and not np.any(np.isnan(self.xvec_rescaling_all[i_optz,:])):
+            self.KernEta_chofac = None # setup_eval_model() must be called again with the new scaling of the data
             self.DataScl.set_xscale_data(xvec_scale_in = self.xvec_rescaling_all[i_optz,:])
         
     def hp_vec2dataclass(self, hp_optz_info, hp_vec):
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 0e4b0fe..02d49fe 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -141,6 +141,8 @@ class OptzLkd(CalcLkd):
         
         best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(hp_x0, optz_bound)
         
+        self.KernEta_chofac = None # setup_eval_model() must be called again with the new scaling of the data
+        
         max_iter      = self.cond_vreq_max_iter
         best_hp_all   = np.full((max_iter, best_hp.size), np.nan)
         dist2line_all = np.full(max_iter, np.nan)
-- 
2.43.0


From 44faa5eb043b9a09ffea90d78c6f8ac358f5439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 31/57] fix: keep a complete file when saving is interrupted
 again after an interrupted save

---
 gpgradpy/src/base/GpParaDef.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index e19ce1e..ef89402 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -219,11 +219,19 @@ class GpParaDef:
     @staticmethod
     def save_npz_data(data2save, file2save, file2save_old):
         
-        # Keep the previous file until the new one is saved
+        file2save = os.fspath(file2save)
+        
+        if not file2save.endswith('.npz'):
+            file2save += '.npz' # As is done by np.savez
+        
+        # The previous files are kept until the new one is complete
+        file_tmp = file2save[:-4] + '_tmp.npz'
+        np.savez(file_tmp, **data2save)
+        
         if os.path.isfile(file2save):
             os.replace(file2save, file2save_old)
             
-        np.savez(file2save, **data2save)
+        os.replace(file_tmp, file2save)
 
     def store_new_para_surr(self, i_optz, hp_vals, 
                             surr_optz_info = None,   cond_val    = np.nan, 
-- 
2.43.0


From b9021baee747b3d9832d962d37696e4fcc479df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 32/57] fix: refuse to evaluate the surrogate when
 setup_eval_model() failed

---
 gpgradpy/src/eval/GpEvalModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 5b181c9..22a19f6 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -24,6 +24,7 @@ class GpEvalModel(GpMeanFun):
         can be evaluated with eval_model()
         '''
         
+        self.KernEta_chofac       = None # In case the setup fails
         self._hp_vals_model_setup = copy.deepcopy(self.hp_vals)
         
         x_scl, Rtensor        = self.get_scl_x_w_dist()
-- 
2.43.0


From 537f32837701035a08c7ccdf7768beb26eb8be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 33/57] fix: recalling stored hyperparameters does not change
 whether the noise of the data is known

---
 gpgradpy/src/base/GpHpara.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 419732d..096aef5 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -47,19 +47,9 @@ class GpHpara:
 
     def set_hp_from_idx(self, i_optz):
         
-        if np.isnan(self.hp_var_fval_all[i_optz]):
-            self.known_eps_fval = True
-            hp_var_fval = None
-        else:
-            self.known_eps_fval = False
-            hp_var_fval = self.hp_var_fval_all[i_optz]
-            
-        if np.isnan(self.hp_var_fgrad_all[i_optz]):
-            self.known_eps_fgrad = True
-            hp_var_fgrad = None
-        else:
-            self.known_eps_fgrad = False
-            hp_var_fgrad = self.hp_var_fgrad_all[i_optz]
+        # The noise variances are only hyperparameters if they were stored
+        hp_var_fval  = None if np.isnan(self.hp_var_fval_all[i_optz])  else self.hp_var_fval_all[i_optz]
+        hp_var_fgrad = None if np.isnan(self.hp_var_fgrad_all[i_optz]) else self.hp_var_fgrad_all[i_optz]
         
         hp_vals = self.make_hp_class(
             np.copy(self.hp_beta_all[i_optz,:]), np.copy(self.hp_theta_all[i_optz,:]), 
-- 
2.43.0


From 84f0f4f81bbd65079e9d3d2e1da08dcee2fb00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 34/57] fix: data without evaluations are rejected before the
 surrogate is changed

---
 gpgradpy/src/GaussianProcess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 78cb86e..481bc46 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -243,6 +243,8 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         # Calculate the no. of function evaluations and gradients to use
         n_eval = fval.size
         
+        assert n_eval > 0, 'There must be at least one function evaluation'
+        
         if self.use_grad:
             if bvec_use_grad is None:
                 n_grad = n_eval 
-- 
2.43.0


From 2cebe01eb03ba800e38dfe3f0c9b81c276e481cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 35/57] fix: a selection of gradients that is not a 1D array of
 bool is rejected

---
 gpgradpy/src/GaussianProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 481bc46..d485ecb 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -249,6 +249,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             if bvec_use_grad is None:
                 n_grad = n_eval 
             else:
+                assert bvec_use_grad.ndim == 1 and bvec_use_grad.dtype == bool, 'bvec_use_grad must be a 1D array of bool'
                 n_grad = np.sum(bvec_use_grad)
                 # assert self.b_use_data_scl == False, 'The class Rescaling is not setup for the case when not all gradients are used'
                 assert bvec_use_grad.size == n_eval, \
-- 
2.43.0


From e7faed148bbd24c4d43c3aabaaf89645c56bb71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 36/57] fix: a selection without gradients is accepted when
 their noise is known

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index d485ecb..5e1a31a 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -333,7 +333,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_fgrad_zero       = True
         elif self.known_eps_fgrad:
             self.b_optz_var_fgrad   = False 
-            self.b_fgrad_zero       = True if (np.max(std_grad) < 1e-10) else False
+            self.b_fgrad_zero       = True if (np.max(std_grad, initial=0) < 1e-10) else False
         else:
             self.b_optz_var_fgrad   = True 
             self.b_fgrad_zero       = False
-- 
2.43.0


From 37025c3badd4041c578f48a2b7e0e75fb538012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 37/57] fix: standard deviations that are not known are not
 scaled

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 5e1a31a..2340ff5 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -376,7 +376,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
                 raise Exception(f'Unknown method wellcond_mtd = {self.wellcond_mtd}')
             
             self.DataScl = Rescaling(x_eval, x_scl_method = x_scl_method, dist_set = dist_set)
-            self.DataScl.set_obj_data(fval, std_fval, grad, std_grad)
+            self.DataScl.set_obj_data(fval, self._std_fval_in, grad, self._std_grad_in)
         else:
             self.Rtensor_init = self.calc_Rtensor(x_eval, x_eval, 1)
             
-- 
2.43.0


From 08f8c1f3049a0f771edf91e484357ab780c96c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 38/57] fix: the constraint on the condition number uses the
 current value of cond_max

---
 gpgradpy/src/GaussianProcess.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 2340ff5..f3aa9d4 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -208,14 +208,19 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_use_cond_cstr = False
         else:
             self.b_use_cond_cstr = True
-            self.condnum_nlc = NonlinearConstraint(self.return_cond_val, -np.inf, self.cond_max,
-                                                   jac = self.return_cond_grad)
             
         if ('rescale' in self.wellcond_mtd) or ('dflt_v' in self.wellcond_mtd):
             self.b_use_data_scl = True
         else:
             self.b_use_data_scl = False
         
+    @property
+    def condnum_nlc(self):
+        
+        # Uses the current value of cond_max since it may be set at any time
+        return NonlinearConstraint(self.return_cond_val, -np.inf, self.cond_max,
+                                   jac = self.return_cond_grad)
+        
     def set_data(self, x_eval, fval, std_fval, 
                  grad = None, std_grad = None, bvec_use_grad = None):
         '''
-- 
2.43.0


From 7bca5e60d27d312705e0aaa16941464361738508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 39/57] fix: a refused call of set_nlc_data leaves the
 constraint data as they were

---
 gpgradpy/src/base/Rescaling.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 4e7b3ef..ca4f7b2 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -484,11 +484,16 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         
     def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = None):
         
-        n_eval, self.nlc_n = nlc_val_init.shape
+        n_eval, nlc_n = nlc_val_init.shape
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
         assert n_eval == self.n_eval, f'Unecpected shape for nlc_val_init of {nlc_val_init.shape} when n_eval = {n_eval}'
         assert nlc_scl_method in self.nlc_scl_method_avail, f'Requested nlc_scl_method = {nlc_scl_method} is not available'
         
+        if (nlc_scl_method == 'obj_scl') and (n_eval > 1):
+            assert self._obj_data_set, 'Must call set_obj_data prior to this method'
+        
+        self.nlc_n = nlc_n
+        
         self._nlc_data_set      = True
         
         # Store init data
-- 
2.43.0


From 5315c58ebc43b0d266342bacad12b10c0d755c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 40/57] fix: loading saved runs without a given number of
 iterations keeps all iterations

---
 gpgradpy/results/PltOptzResults.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index d37220a..c502dc0 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -22,8 +22,9 @@ class PltOptzResults:
     def load_npz_data(case_folder, file_vec, n_iter_max = 1000, n_x0_init = 20, load_noise_free_data = True):
         
         if n_iter_max is None:
+            # Keep all of the iterations of the longest history
             b_clip_iter = True 
-            n_iter_max  = 1000 
+            n_iter_max  = max([np.load(path.join(case_folder, file))['merit_all'].shape[1] for file in file_vec], default = 0)
         else:
             b_clip_iter = False
         
-- 
2.43.0


From 38ce63a7baabf425249e135cc5b91187662e2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 41/57] fix: the bounds of theta follow the rescaling of the
 data in the rescaling methods

---
 gpgradpy/src/optz/OptzLkd.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 02d49fe..b0b9015 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -7,7 +7,7 @@ Created on Mon Oct 10 11:02:23 2022
 """
 
 import numpy as np
-from scipy.optimize import minimize
+from scipy.optimize import Bounds, minimize
 
 from . import CalcLkd
 
@@ -154,6 +154,8 @@ class OptzLkd(CalcLkd):
             
             theta_new_xo = best_hp[self.hp_info_optz_lkd.idx_theta]
             
+            xvec_scale_init = np.copy(self.DataScl.xvec_scale)
+            
             while not_done:
                 x_scl      = self.DataScl.x_scl
                 xvec_scale = self.DataScl.xvec_scale
@@ -176,7 +178,18 @@ class OptzLkd(CalcLkd):
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
                 else:
-                    best_hp      = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[0]
+                    # The bounds for theta change along with the scaling of the data
+                    ratio_bound = (xvec_scale_init / self.DataScl.xvec_scale)**2
+                    idx_theta   = self.hp_info_optz_lkd.idx_theta
+                    lb, ub      = np.copy(optz_bound.lb), np.copy(optz_bound.ub)
+                    
+                    for bound in (lb, ub):
+                        if self.optz_log_hp_theta:
+                            bound[idx_theta] += np.log10(ratio_bound)
+                        else:
+                            bound[idx_theta] *= ratio_bound
+                    
+                    best_hp      = self.optz_hp_max_lkd(x0_hp_vec, Bounds(lb, ub))[0]
                     theta_new_xo = best_hp[self.hp_info_optz_lkd.idx_theta]
                 
                 cnt += 1
-- 
2.43.0


From 6c920e592274d3e17288cfe52c1b702d023282b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 42/57] fix: seed the evaluation points of the figures with the
 option that smt supports

---
 gpgradpy/plt/plt_cond.py      | 7 ++++++-
 gpgradpy/plt/plt_nugget_1d.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index 576eca9..208a4bd 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -101,7 +101,12 @@ nugget_dflt = GP.calc_nugget(n_eval)[1]
 def make_lhs(para_min, para_max, n_eval):
     
     para_limit      = np.array([para_min, para_max]).T
-    xdata_sampling  = LHS(xlimits=para_limit, random_state = 2)
+    # The option for the seed depends on the version of smt
+    try:
+        xdata_sampling = LHS(xlimits=para_limit, seed = 2)
+    except Exception:
+        xdata_sampling = LHS(xlimits=para_limit, random_state = 2)
+        
     x_eval          = xdata_sampling(n_eval) 
     
     return x_eval
diff --git a/gpgradpy/plt/plt_nugget_1d.py b/gpgradpy/plt/plt_nugget_1d.py
index bbab510..63cca78 100644
--- a/gpgradpy/plt/plt_nugget_1d.py
+++ b/gpgradpy/plt/plt_nugget_1d.py
@@ -98,7 +98,12 @@ nugget = GP.calc_nugget(n_eval)[1]
 def make_lhs(para_min, para_max, n_eval):
     
     para_limit      = np.array([para_min, para_max]).T
-    xdata_sampling  = LHS(xlimits=para_limit, random_state = 2)
+    # The option for the seed depends on the version of smt
+    try:
+        xdata_sampling = LHS(xlimits=para_limit, seed = 2)
+    except Exception:
+        xdata_sampling = LHS(xlimits=para_limit, random_state = 2)
+        
     x_eval          = xdata_sampling(n_eval) 
     
     return x_eval
-- 
2.43.0


From 55dcb001743782ce12083b098ee0c212eb21885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 43/57] fix: plot the first hyperparameter on the axis with its
 label in plt_cond

---
 gpgradpy/plt/plt_cond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index 208a4bd..a183a94 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -189,7 +189,8 @@ def calc_cond_lkd(use_grad, kernel_type, wellcond_mtd = 'precon',
     
     for i in range(n_gamma):
         for j in range(n_gamma):
-            theta    = np.array([theta_vec[i], theta_vec[j]])
+            # The rows of the matrices are for the y axis (second hyperparameter) of the plots
+            theta    = np.array([theta_vec[j], theta_vec[i]])
             hp_vals  = GP.make_hp_class(varK = varK, theta = theta, kernel = hp_kernel)
             lkd_info = GP.calc_lkd_all(hp_vals, calc_lkd = True, calc_cond = True, calc_grad = False)[0]
             
-- 
2.43.0


From 578fe4e47b4b63c878a64a0b91b3c9b7914dafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 44/57] fix: draw the limit of the condition number with the
 contour of the condition number

---
 gpgradpy/plt/plt_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index a183a94..6a47003 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -270,7 +270,7 @@ def plot_lkd(fig, ax, scl_lkd_all, log10_condK_all, loc_max_lkd = None, base_fil
         
     if log10_condK_all is not None:
         if np.max(log10_condK_all) > np.log10(cond_max):
-            ax.contour(Xmat_para, Ymat_para, scl_lkd_all, levels=[np.log10(cond_max)])
+            ax.contour(Xmat_para, Ymat_para, log10_condK_all, levels=[np.log10(cond_max)])
     
     fig.colorbar(cs, pad = 0.08, shrink = plt_shrink, aspect = plt_aspect)
     
-- 
2.43.0


From bc7632e3a31d2852cb2c407f7d18164e876e5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 45/57] fix: create the folder in which plt_acq saves its
 figure

---
 gpgradpy/plt/plt_acq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_acq.py b/gpgradpy/plt/plt_acq.py
index 05b3f64..baa325b 100644
--- a/gpgradpy/plt/plt_acq.py
+++ b/gpgradpy/plt/plt_acq.py
@@ -7,7 +7,7 @@ Created on Thu Jun 22 07:35:41 2023
 """
 
 import numpy as np 
-from os import path
+from os import path, makedirs
 from scipy.stats import norm
 import matplotlib.pyplot as plt
 
@@ -163,6 +163,9 @@ surr_plt.plot_acq(ax, x_exa, acq_val_scl_all, str_acq_vec,
                   )
 
 if save_fig:
+    if not path.exists(folder_all):
+        makedirs(folder_all)
+    
     fullpath = path.join(folder_all, 'surr_w_acq_1d.png')
     fig.savefig(fullpath, dpi=dpi)
     
-- 
2.43.0


From d509f04873589ea2f909c4fe3c2038f2eebb64b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 46/57] fix: skip cases without data when plotting the results
 of the paper

---
 gpgradpy/results/optz_paper_precon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/results/optz_paper_precon.py b/gpgradpy/results/optz_paper_precon.py
index c85cc7e..bd65272 100644
--- a/gpgradpy/results/optz_paper_precon.py
+++ b/gpgradpy/results/optz_paper_precon.py
@@ -75,6 +75,10 @@ for i_case in range(n_cases):
     case_folder   = path.join(base_folder, str_test_case)
     basefigname   = str_test_case
 
+    if not path.exists(case_folder):
+        print(f'No data for the case {str_test_case}')
+        continue
+
     if str_test_case == 'Rosen_a10_d5':
         n_iter_max  = 160
         plot_obj_opt(case_folder, file_vec, label_vec, basefigname, n_iter_max, legend_loc = 'upper right')
-- 
2.43.0


From 51e975566cbdc3847ddf1e5dd8c0e7713d09e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 47/57] fix: save the map of the correlation before it is shown

---
 gpgradpy/plt/plt_kern_corr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/plt/plt_kern_corr.py b/gpgradpy/plt/plt_kern_corr.py
index 371614a..4576261 100644
--- a/gpgradpy/plt/plt_kern_corr.py
+++ b/gpgradpy/plt/plt_kern_corr.py
@@ -139,11 +139,13 @@ def plt_2d_corr(corr_gwg_2d, str_kern):
     fig2.colorbar(cs)
     
     fig2.tight_layout()
-    plt.show() 
     
+    # Save before the figure is shown since there is no current figure once its window is closed
     if save_figs:
         fullpath = path.join(folders, f'corr_2d_{str_kern}.png')
-        plt.savefig(fullpath, dpi = dpi, format = 'png')
+        fig2.savefig(fullpath, dpi = dpi, format = 'png')
+    
+    plt.show() 
 
 ''' Plot '''
 
-- 
2.43.0


From 6d98809b4a5a34cf48194457d6db645c37428fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 48/57] fix: use the relation of the kernel between theta and
 gamma in plt_cond

---
 gpgradpy/plt/plt_cond.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index 6a47003..9f32986 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -184,6 +184,9 @@ def calc_cond_lkd(use_grad, kernel_type, wellcond_mtd = 'precon',
     
     hp_kernel   = GP.hp_kernel_default
     
+    # The relation between theta and gamma, which is on the axes, depends on the kernel
+    theta_vec   = GP.gamma2theta(gamma_vec)
+    
     lkd_all     = np.full((n_gamma, n_gamma), np.nan)
     condK_all   = np.full((n_gamma, n_gamma), np.nan)
     
-- 
2.43.0


From d623e31930f9de7153b437f99505e0ab4e32a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 49/57] fix: set the hyperparameter of the kernel in
 plt_surr_1d

---
 gpgradpy/plt/plt_surr_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/plt/plt_surr_1d.py b/gpgradpy/plt/plt_surr_1d.py
index 88a3274..a5d60fe 100644
--- a/gpgradpy/plt/plt_surr_1d.py
+++ b/gpgradpy/plt/plt_surr_1d.py
@@ -90,7 +90,7 @@ def calc_lkd(GP, theta_vec):
     ln_lkd_all  = np.zeros(n_theta)
 
     for i in range(n_theta):
-        hp_vals = GP.make_hp_class(None, np.atleast_1d(theta_vec[i]))
+        hp_vals = GP.make_hp_class(None, np.atleast_1d(theta_vec[i]), GP.hp_kernel_default)
         
         lkd_info, b_chofac_good = GP.calc_lkd_all(hp_vals, calc_cond = True)
         
@@ -104,7 +104,7 @@ def calc_lkd(GP, theta_vec):
 
 def eval_model(GP, theta, hp_mu, varK):
     
-    hp_vals_th_best = GP.make_hp_class(np.atleast_1d(hp_mu), np.atleast_1d(theta), varK = varK)
+    hp_vals_th_best = GP.make_hp_class(np.atleast_1d(hp_mu), np.atleast_1d(theta), GP.hp_kernel_default, varK = varK)
     
     GP.hp_vals = hp_vals_th_best
     GP.setup_eval_model() 
@@ -198,7 +198,7 @@ gp_sig_grad_xeval_all  = np.zeros((n_max, n_eval, dim))
 for i in range(n_max):
     
     idx = vec_idx_lkd_max[i]
-    hp_vals_th_best = GP.make_hp_class(np.atleast_1d(hp_mu_vec[idx]), np.atleast_1d(theta_vec[idx]), varK = varK_vec[idx])
+    hp_vals_th_best = GP.make_hp_class(np.atleast_1d(hp_mu_vec[idx]), np.atleast_1d(theta_vec[idx]), GP.hp_kernel_default, varK = varK_vec[idx])
     GP.hp_vals = hp_vals_th_best
     
     GP.setup_eval_model() 
-- 
2.43.0


From 7fbef74004885aff78dc1b0a60b6ffb070c92d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 50/57] fix: set the hyperparameter of the kernel in plt_acq

---
 gpgradpy/plt/plt_acq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/plt/plt_acq.py b/gpgradpy/plt/plt_acq.py
index baa325b..8f2f2f2 100644
--- a/gpgradpy/plt/plt_acq.py
+++ b/gpgradpy/plt/plt_acq.py
@@ -95,7 +95,7 @@ n_eval, dim = x_eval.shape
 GP = GaussianProcess(dim, use_grad, kernel_type, wellcond_mtd)
 GP.set_data(x_eval, obj_eval, std_fval, grad_eval, std_grad)
 
-hp_vals     = GP.make_hp_class(None, theta_vec)
+hp_vals     = GP.make_hp_class(None, theta_vec, GP.hp_kernel_default)
 lkd_info    = GP.calc_lkd_all(hp_vals, calc_cond = True)[0]
 
 hp_mu       = np.array([lkd_info.hp_beta[0]])
@@ -103,7 +103,7 @@ hp_varK     = lkd_info.hp_varK
 
 # hp_mu = np.array([-1.4])
 
-hp_vals_th_best = GP.make_hp_class(hp_mu, theta_vec, varK = hp_varK)
+hp_vals_th_best = GP.make_hp_class(hp_mu, theta_vec, GP.hp_kernel_default, varK = hp_varK)
 GP.hp_vals      = hp_vals_th_best
 
 GP.setup_eval_model() 
-- 
2.43.0


From 1df68c680b9258ce33691e41737357704c7de849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:12 +0000
Subject: [PATCH 51/57] fix: plot the likelihood for the gamma on the labels of
 the axes when debugging its optimization

---
 gpgradpy/src/optz/GpHparaOptz.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaOptz.py b/gpgradpy/src/optz/GpHparaOptz.py
index 5fefd86..abf3d49 100644
--- a/gpgradpy/src/optz/GpHparaOptz.py
+++ b/gpgradpy/src/optz/GpHparaOptz.py
@@ -275,13 +275,16 @@ class GpHparaOptz(OptzLkd, GpHparaX0, GpHparaCon, GpHparaGrad):
         #     ax.set_xticks(self.para_tick_loc)
         #     ax.set_yticks(self.para_tick_loc)
         
-        Xmat_para = 10**Xmat_para
-        Ymat_para = 10**Ymat_para
+        # The axes are for gamma while theta is optimized
+        Xmat_para = self.theta2gamma(10**Xmat_para)
+        Ymat_para = self.theta2gamma(10**Ymat_para)
+        gamma_x0  = self.theta2gamma(10**hp_x0)
+        gamma_opt = self.theta2gamma(10**hp_optz)
         
         cs = ax.contourf(Xmat_para, Ymat_para, lkd_val, cmap = 'viridis')
         
-        ax.plot(10**hp_x0[:,0], 10**hp_x0[:,1], 'rs')
-        ax.plot(10**hp_optz[0], 10**hp_optz[1], 'm*')
+        ax.plot(gamma_x0[:,0], gamma_x0[:,1], 'rs')
+        ax.plot(gamma_opt[0], gamma_opt[1], 'm*')
         
         fig.colorbar(cs)
         
-- 
2.43.0


From 918d2edbe1e1cc6cf3264ea17799180534b86e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 52/57] fix: an iteration that is stored again keeps no
 optimization info of before

---
 gpgradpy/src/base/GpParaDef.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index ef89402..fbde58f 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -274,7 +274,13 @@ class GpParaDef:
         if self.b_use_data_scl:
             self.xvec_rescaling_all[idx] = self.DataScl.xvec_scale
 
-        # Optimization info 
+        # Optimization info (none of it is kept if the iteration was stored before)
+        for optz_info_all in (self.hp_optz_success,     self.hp_optz_iter_mean,
+                              self.hp_optz_iter_max,    self.hp_optz_con_good,
+                              self.optz_n_cho_fail_all, self.optz_n_cond2big_all,
+                              self.optz_max_init_cond_all):
+            optz_info_all[idx] = np.nan
+            
         if surr_optz_info is not None:
 
             if 'hp_optz_success'   in surr_optz_info:
@@ -298,3 +304,5 @@ class GpParaDef:
         
         if self.var_fval[idx] > 0:
             self.varK_var_fval[idx] = self.hp_varK_all[idx] / self.var_fval[idx]
+        else:
+            self.varK_var_fval[idx] = np.nan
-- 
2.43.0


From fa5035e6ee5bffda65f8256026c17006dd5ce197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:49 +0000
Subject: [PATCH 53/57] fix: steer the optimizer away from a failed
 factorization with preconditioning as well

---
 gpgradpy/src/optz/CalcLkd.py    | 14 +++++++-------
 gpgradpy/src/optz/GpHparaCon.py |  9 +++++++--
 gpgradpy/src/optz/OptzLkd.py    |  2 +-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 8887f73..0367ed4 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -307,17 +307,17 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
             
             if Kcov_chofac is None:
                 b_chofac_good   = False
-                cond, cond_grad = self.calc_cond_L2_w_grad(Kcov, Kcov_grad_hp)
+                cond, cond_grad = self.calc_cond_L2_w_grad(Kcov, Kcov_grad_hp, b_use_precon = False)
                 lkd_info        = LkdInfo(cond = cond, cond_grad = cond_grad)
             else:
                 b_chofac_good   = True
                 lkd_info        = self.calc_lkd_all_w_noise(hp_vals.theta, Kcov_chofac, 
                                                             Kcov_grad_hp, lkd_use_adj_mtd = lkd_use_adj_mtd)
-            
-            if calc_cond and calc_grad:
-                lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
-            else:
-                lkd_info.cond = cond_K
+                
+                if calc_cond and calc_grad:
+                    lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
+                else:
+                    lkd_info.cond = cond_K
         else:
             Kern, _, Kern_w_eta, Kern_chofac, cond_K, etaK, idx_etaK_argmax \
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
@@ -329,7 +329,7 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
             
             if Kern_chofac is None:
                 b_chofac_good   = False
-                cond, cond_grad = self.calc_cond_L2_w_grad(Kern_w_eta, KernGrad_hp)
+                cond, cond_grad = self.calc_cond_L2_w_grad(Kern_w_eta, KernGrad_hp, b_use_precon = False)
                 lkd_info        = LkdInfo(cond = cond, cond_grad = cond_grad)
             else:
                 b_chofac_good   = True
diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 9457df9..b2829ed 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -158,7 +158,12 @@ class GpHparaCon:
         else:
             raise Exception(f'cond_norm must be either 2 or "fro" but it is {cond_norm}')
         
-    def calc_cond_L2_w_grad(self, Kmat_w_eta, Kmat_grad_hp = None):
+    def calc_cond_L2_w_grad(self, Kmat_w_eta, Kmat_grad_hp = None, b_use_precon = None):
+        
+        # The gradient is for the condition number of Kmat_w_eta, ie without the preconditioning
+        if b_use_precon is None:
+            b_use_precon = (self.wellcond_mtd == 'precon')
+        
         # assert Kmat_w_eta[0,0] > 1, 'Kmat_w_eta should have diagonal entries greater than 1 since it contains the noise'
 
         n_data = Kmat_w_eta.shape[0]
@@ -167,7 +172,7 @@ class GpHparaCon:
         if Kmat_grad_hp is None:
             cond_grad = None
         else:
-            if self.wellcond_mtd == 'precon':
+            if b_use_precon:
                 print('Not setup to calculate the gradient of the condition number if wellcond_mtd = "precon" ')
                 cond_grad = None
             else:
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index b0b9015..0012c29 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -66,7 +66,7 @@ class OptzLkd(CalcLkd):
                 if b_chofac_good:
                     lkd_info.ln_lkd_grad[bvec] *= transformation
             
-                if self.b_use_cond_cstr:
+                if cond_grad is not None:
                     cond_grad[bvec] *= transformation
             
             if b_chofac_good:
-- 
2.43.0


From b3954a3164228a14fc7bc6a7c7bfbc60818a663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 54/57] fix: do not store optimized hyperparameters for which
 the factorization fails

---
 gpgradpy/src/optz/GpHparaOptz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/src/optz/GpHparaOptz.py b/gpgradpy/src/optz/GpHparaOptz.py
index abf3d49..523e9bb 100644
--- a/gpgradpy/src/optz/GpHparaOptz.py
+++ b/gpgradpy/src/optz/GpHparaOptz.py
@@ -222,6 +222,9 @@ class GpHparaOptz(OptzLkd, GpHparaX0, GpHparaCon, GpHparaGrad):
         lkd_info, b_chofac_good = self.calc_lkd_all(hp_vals, calc_lkd = False, 
                                                     calc_cond = False, calc_grad = False)
         
+        # Without the factorization there are no hyperparameters that can be stored
+        assert b_chofac_good, f'The Cholesky decomposition failed for the optimized hyperparameters, hp_vals = {hp_vals}'
+        
         hp_vals.beta = lkd_info.hp_beta 
         
         if self.b_has_noisy_data is False:
-- 
2.43.0


From a796b32e1c21b48f355af1f97f5e89551fbe00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:01 +0000
Subject: [PATCH 55/57] fix: forget the required minimum distance when the
 method does not rescale the origin

---
 gpgradpy/src/GaussianProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index f3aa9d4..0dcc345 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -357,6 +357,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         # Data related to rescaling to help with the condition number 
         # vreq = self.calc_mtd_rescale_origin_vreq(n_eval, self.dim)
         # self._vmin_req_grad = vreq
+        self._vmin_req_grad = np.nan # Only set for the method 'rescale_origin'
         
         self._vmin_init = self.calc_dist_min(x_eval)
         
-- 
2.43.0


From 409b00b0a01783b8703c4d7e922482afb812f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:01 +0000
Subject: [PATCH 56/57] fix: storing again without scaling forgets the scaling
 of the earlier store

---
 gpgradpy/src/base/GpParaDef.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index fbde58f..9c648e7 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -271,8 +271,8 @@ class GpParaDef:
         self.vmin_init_all[idx]         = self._vmin_init
         self.vmin_req_grad_all[idx]     = self._vmin_req_grad
         
-        if self.b_use_data_scl:
-            self.xvec_rescaling_all[idx] = self.DataScl.xvec_scale
+        # There is no scaling to restore if the data is not scaled
+        self.xvec_rescaling_all[idx]    = self.DataScl.xvec_scale if self.b_use_data_scl else np.nan
 
         # Optimization info (none of it is kept if the iteration was stored before)
         for optz_info_all in (self.hp_optz_success,     self.hp_optz_iter_mean,
-- 
2.43.0


From 1a97d324efc91ed9eb7b36701709a3a9ff033663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:01 +0000
Subject: [PATCH 57/57] fix: print the information on the whole surrogate when
 asked to

---
 gpgradpy/src/base/GpInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index 6a3143f..7290f74 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -52,6 +52,9 @@ class GpInfo:
         data2print += self.info_surr_theta(False)
         data2print += self.info_surr_optz(False)
         
+        if print2screen:
+            print(data2print)
+        
         return data2print
 
     def info_surr_options(self, print2screen=True):
-- 
2.43.0

