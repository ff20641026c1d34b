From 2e684a91176476333fb8782258db7370fdae3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 01/49] fix: matvec_operator accepts an output array

'res or np.empty_like(vec)' asks for the truth value of the array.
---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..2ecea1b 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -35,7 +35,7 @@ def _matvec_operator(*operators):
 
     """
     def matvec(vec, res=None):
-        out = res or np.empty_like(vec)
+        out = np.empty_like(vec) if res is None else res
         for op in operators:
             op.matvec(vec, out=out)
         return out
-- 
2.43.0


From 46af2261b85a6b34f14edfb605c98f35349296b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 02/49] fix: dense Hamiltonian of a purely diagonal sector

todense() popped from an empty list when the only operator was the local
one (a single site, or the N symmetry without exchange).
---
 edpyt/matvec_product.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 2ecea1b..37733af 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,7 +86,10 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
-    out = ops.pop().todense()
+    if ops:
+        out = ops.pop().todense()
+    else: # no hopping nor non-local term
+        out = np.zeros(2*diag_op[0].shape)
     n = out.shape[0]
     for op in ops:
         out += op.todense()
-- 
2.43.0


From 1a5489290be6af2d0fe490202e594b7f6f0f1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:06 +0000
Subject: [PATCH 03/49] fix: stationary solution is the null vector of the rate
 matrix

Choosing the eigenvalue closest to 1 picks another one when the rates are
small compared to (or so large that rounding is comparable to) one.
---
 edpyt/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/rates.py b/edpyt/rates.py
index ad787a0..549cd49 100644
--- a/edpyt/rates.py
+++ b/edpyt/rates.py
@@ -11,7 +11,7 @@ def stationary_solution(W):
     """
     w, v = np.linalg.eig(W)
 
-    j_stationary = np.argmin(abs(w - 1.0))
+    j_stationary = np.argmin(abs(w))
     p_stationary = v[:,j_stationary].real
     p_stationary /= p_stationary.sum()
     return p_stationary
-- 
2.43.0


From 6f7a4bb3c2994b3e584f08731d75b14fbdef02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:06 +0000
Subject: [PATCH 04/49] fix: tridiagonal matrix of order one with an index
 range

stebz/stein do not accept an empty off-diagonal.
---
 edpyt/tridiag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 1d0573d..5e61d82 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -11,6 +11,8 @@ egs_tridiag = lambda a, b: _solve_partial(a,b,eigvals_only=True)[0][0] #stebz(a,
 gs_tridiag = lambda a, b: _solve_partial(a,b)
 
 def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
+    if a.size==1: # LAPACK wrappers need off-diagonal elements.
+        return a.copy(), None if eigvals_only else np.ones((1,1))
     il = select_range[0] + 1
     iu = select_range[1] + 1
     order = 'E' if eigvals_only else 'B'
-- 
2.43.0


From d5e8043c3049d25c79db101454ac8644942bec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:06 +0000
Subject: [PATCH 05/49] fix: ascending order of selected eigenpairs of a split
 matrix

Eigenvalues ordered by block are ascending only within each block when an
off-diagonal element vanishes.
---
 edpyt/tridiag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 5e61d82..64bf679 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -21,7 +21,9 @@ def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
     if eigvals_only:
         return w, None
     v, info = stein(a,b,w,iblock,isplit)
-    return w, v[:, :m]
+    # stein needs block order, i.e. ascending only within blocks.
+    idx = np.argsort(w, kind='stable')
+    return w[idx], v[:, :m][:, idx]
 
 
 def _solve_full(a, b, eigvals_only=False):
-- 
2.43.0


From 9d4525095e4a01785ffd437540396aca1f7d2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 06/49] fix: sl_solve with eigvals_only

eigh_tridiagonal returns only the eigenvalues then, which cannot be
unpacked in two.
---
 edpyt/lanczos.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 4a1d21b..5612890 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -167,11 +167,10 @@ def sl_solve(matvec, a, b, v0=None, select=0, select_range=(0,0), eigvals_only=F
 
     """
     assert select in [0,2], f"Invalid select type {select}."
-    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     if eigvals_only:
-        return w
-    else:
-        assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+        return eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
+    assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+    w, U = eigh_tridiagonal(a, b[1:], select, select_range)
     lanc_step = sl_step(matvec, comm)
     v = v0
     l = np.zeros_like(v)
-- 
2.43.0


From 055811f02d771e5b8bad1b140a7939fe0a72c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 07/49] fix: integrate_gf with an array of chemical potentials
 or a given radius

---
 edpyt/integrate_gf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..fed997a 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -83,10 +83,8 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
         a_p = mu + 1j*zp/beta
     else:
         mu = np.broadcast_to(mu, (nzp,)+mu.shape)
-        zp = np.resize(zp, mu.shape)
-        a_p = mu + 1j*zp/beta
+        a_p = mu + 1j*zp.reshape((nzp,)+(1,)*(mu.ndim-1))/beta
 
-    R = 1e10
     mu_0 = 1j*R*gf(1.j*R)
 
     mu_1 = complex(0)
-- 
2.43.0


From e54dc93785181a05b975a63c35aac08d132d4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 08/49] fix: tunnelling integrals at coinciding energies

---
 edpyt/integrals.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 1a3c869..5cc24a7 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -16,13 +16,6 @@ def Psi(n, a, b, beta):
     return polygamma(n, 0.5 + (1.j*beta)/(2.*np.pi)*(a-b))
 
 
-def Taylor(n, x, a, b, beta):
-    k = Psi(n, a, b, beta)
-    return k / x \
-           - 0.5 * k \
-           + 1/12 * x * k \
-           - 1/720 * x**3 * k
-
 # fmax = 1e15
 # fmin = 1/fmax
 
@@ -35,13 +28,10 @@ nB = lambda x: 1./(np.exp(x)-1)
 
 def I1(C, eps, mu, beta):
     x = (mu[1]-mu[0]) * beta
-    if abs(x) < 1e-16:
-        return 0. #np.sign(x)
-    if abs(x) < 1e-15:
-        return C**2 * beta/(2*np.pi) * np.imag(
-            Taylor(1,x,mu[1],eps,beta)
-          - Taylor(1,x,mu[0],eps,beta)
-        )        
+    if abs(x) < 1e-3: # mu[1] -> mu[0]
+        return C**2 * beta/(2*np.pi)**2 * (1-0.5*x+x**2/12) * np.real(
+            Psi(2,0.5*(mu[0]+mu[1]),eps,beta)
+        )
     return C**2 * beta/(2*np.pi) * nB(x) * np.imag(
             Psi(1,mu[1],eps,beta)
           - Psi(1,mu[0],eps,beta)
@@ -62,14 +52,12 @@ def I1(C, eps, mu, beta):
 
 def I2(A, B, epsA, epsB, mu, beta):
     x = (mu[1]-mu[0])*beta
-    if abs(x) < 1e-16:
-        return 0. # -1.
-    if abs(x) < 1e-15:
-        return A * B / (epsA-epsB) * np.real(
-              Taylor(0,epsA,mu[1],beta) 
-            - Taylor(0,epsA,mu[0],beta) 
-            - Taylor(0,epsB,mu[1],beta)
-            + Taylor(0,epsB,mu[0],beta)
+    if abs(epsA-epsB)*beta < 1e-3: # epsB -> epsA
+        return A * B * I1(1.,0.5*(epsA+epsB),mu,beta)
+    if abs(x) < 1e-3: # mu[1] -> mu[0]
+        return A * B / (2*np.pi) * (1-0.5*x+x**2/12) / (epsA-epsB) * np.imag(
+              Psi(1,epsA,0.5*(mu[0]+mu[1]),beta)
+            - Psi(1,epsB,0.5*(mu[0]+mu[1]),beta)
         )
     return A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
-- 
2.43.0


From 1b2c64467c8764bf0d304bbdf247773b6b2421fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 09/49] fix: cross terms of a squared amplitude count twice

---
 edpyt/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 5cc24a7..0efb780 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -90,7 +90,7 @@ Gamma1 = I1
 def Gamma2(A, B, epsA, epsB, mu, beta):
     return I1(A,epsA,mu,beta) \
          + I1(B,epsB,mu,beta) \
-         + I2(A,B,epsA,epsB,mu,beta)
+         + 2 * I2(A,B,epsA,epsB,mu,beta)
 
 
 def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
-- 
2.43.0


From a3eb76b31c652bacff62cbfed63e22544d44468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 10/49] fix: intrep is the inverse of binrep

---
 edpyt/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lookup.py b/edpyt/lookup.py
index 3cb5d3b..66df961 100644
--- a/edpyt/lookup.py
+++ b/edpyt/lookup.py
@@ -41,9 +41,9 @@ def binrep(i, n, format="array"):
 def intrep(arr_repr):
     """Inverse of binrep."""
     if isinstance(arr_repr, str):
-        return np.uint32(int(arr_repr, base=2))
+        return np.uint32(int(arr_repr[::-1], base=2))
     i = unsiged_dt(0)
-    for shift, j in enumerate(arr_repr[::-1]):
+    for shift, j in enumerate(arr_repr):
         if j:
             i += unsiged_dt(1) << shift
     return i
-- 
2.43.0


From ed5f50fab103dded052574e4053a4252108cc027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 11/49] fix: eprint of spin-resolved sectors

---
 edpyt/eshow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eshow.py b/edpyt/eshow.py
index 02a21e9..85f9598 100644
--- a/edpyt/eshow.py
+++ b/edpyt/eshow.py
@@ -24,7 +24,7 @@ def eprint(espace, n):
     def fockstates(sct):
         
         states = []
-        if hasattr(states,'up'):
+        if hasattr(sct.states,'up'):
             for sdw in sct.states.dw:
                 for sup in sct.states.up:
                     states.append( fock(sup,sdw,n) )
-- 
2.43.0


From 413cd4bf8b33818a7e1debcdff99d3f0cc730cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 12/49] fix: pair hopping without spin exchange in
 spin-resolved sectors

---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From ce2c950ef63219eea421d75ad447d6545eb7ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 13/49] fix: sign of the spin exchange in spin-resolved sectors

---
 edpyt/ham_non_local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 4fb87f3..9b139b4 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -111,8 +111,8 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
             if Jx is not None:
                 #             \sum_ij \sum_ss' 0.5 * Jx_ij [c^+_is c^+_js' c_is' c_js]
                 #    s=s'  :: \sum_ij \sum_s - 0.5 * Jx_ij [c^+_is c_is] [c^+_js c_js]
-                #    s!=s' :: \sum_ij - 0.5 * Jx_ij [S+_i S-_j + S+_j + S-_i]
-                #          :: \sum_ij - Jx_ij [S+_i S-_j]
+                #    s!=s' :: \sum_ij 0.5 * Jx_ij [c^+_iu c_ju c^+_jd c_id + c^+_id c_jd c^+_ju c_iu]
+                #          :: \sum_ij Jx_ij [c^+_iu c_ju] [c^+_jd c_id]
                 tmp = 0.
                 for i in range(n):
                     if (not nup[i]) & ndw[i]:
@@ -124,7 +124,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                                 sgn_dw, fdw = cdgc(sdw, j, i)
                                 jdw = binsearch(states_dw, fdw)
                                 Jndx = jdw * dup + jup
-                                sp_mat.data[count] = - sgn_up * sgn_dw * Jx.data[p]
+                                sp_mat.data[count] = sgn_up * sgn_dw * Jx.data[p]
                                 sp_mat.indices[count] = Jndx                
                                 count += 1
                     for p in range(Jx.indptr[i], Jx.indptr[i+1]):
-- 
2.43.0


From 46330553af5d5d96b5478d984a96c2a1e980e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 14/49] fix: on-site energies of each spin in total-charge
 sectors

---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..7edfcda 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += edwdiag[i]*ndw[i] + eupdiag[i]*nup[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From b1ac275e35d27b6a94f629569933b5ab9d3633cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 15/49] fix: exchange and pair hopping couplings of a single
 site

---
 edpyt/ham_non_local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 9b139b4..62b347a 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -89,7 +89,9 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
             warn(warn_offdiag.format(interaction='pair-hopping'))
         Jp = nnz_offdiag_csrmat(Jp, nnz_p)
     
-    nnz = (nnz_x + nnz_p) * int(binom(n-2, Nup-1)) * int(binom(n-2, Ndw-1))
+    nnz = nnz_x + nnz_p
+    if nnz > 0: # (binom is nan for n=1).
+        nnz *= int(binom(n-2, Nup-1)) * int(binom(n-2, Ndw-1))
         
     sp_mat = empty_csrmat(nnz, (dwn*dup, dwn*dup))
     
-- 
2.43.0


From f85d691b8df1f16b0d62b12291e1d73dbc9ba8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 16/49] fix: middle level of an initial bath of three levels

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From 345871322a2c0813d76138b8b12b5c552a100f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 17/49] fix: fit_wrap.fit_hybrid starts from the initial bath

---
 edpyt_backend/fit_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..d9a9b21 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -11,11 +11,16 @@ fit.restype = None
 fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
                 ct.POINTER(ct.c_double),ct.c_int,ct.c_int,
                 ndpointer(np.complex128),ct.c_double]
+init_bath = lib.init_bath
+init_bath.restype = None
+init_bath.argtypes = [ndpointer(ct.c_double)]
 
 
 def fit_hybrid(nbath, nmats, delta, beta):
     
     x = np.empty(2*nbath, np.float64)
+    ct.c_int.in_dll(lib, 'nbath').value = nbath
+    init_bath(x)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From 333508e69c3ae9074aab36709db425525166f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 18/49] fix: fit_cffi.fit_hybrid with a strided target

---
 edpyt/fit_cffi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/fit_cffi.py b/edpyt/fit_cffi.py
index ee8d3a2..15869e6 100644
--- a/edpyt/fit_cffi.py
+++ b/edpyt/fit_cffi.py
@@ -1,9 +1,11 @@
+import numpy as np
 from edpyt_backend._fit import lib, ffi
 
 _cfit = lib.fit
 
 def fit_hybrid(x, nmats, delta, beta):
     nbath = x.size//2
+    delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ffi.new('int*')
     fret = ffi.new('double* ')
     x_ptr = ffi.cast('double*', x.ctypes.data)
-- 
2.43.0


From b78760926234012295b6cc5ac0a50c5edd6a0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 19/49] fix: dbrent keeps the minimum bracketed after a step to
 the left

---
 edpyt_backend/dbrent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/dbrent.c b/edpyt_backend/dbrent.c
index 7d1d8ab..175247c 100644
--- a/edpyt_backend/dbrent.c
+++ b/edpyt_backend/dbrent.c
@@ -80,7 +80,7 @@ double dbrent(double ax, double bx, double cx, double(*f)(double),
 			MOV3(x, fx, dx, u, fu, du)
 		}
 		else {
-			if (u < x) a = x; else b = u;
+			if (u < x) a = u; else b = u;
 			if (fu <= fw || w == x) {
 				MOV3(v, fv, dv, w, fw, dw)
 				MOV3(w, fw, dw, u, fu, du)
-- 
2.43.0


From 6b4cd1ee178a1976b04d30ee011c48026d9683bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 20/49] fix: exact Green function of spin down moves to the
 sector with one more down spin

---
 edpyt/gf_exact.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..b532cd3 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -13,6 +13,8 @@ from edpyt.operators import (
     c, cdg, check_empty, check_full
 )
 
+from edpyt.sector import OutOfHilbertError, get_cdg_sector
+
 
 # def Gf(q, l):
 #     """Green's function kernel wrapper.
@@ -110,11 +112,10 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
-        # Cannot have more spin than spin states
-        if nupJ > n: continue
+        try: # Add spin (N+1 sector)
+            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
+        except OutOfHilbertError: # More spin than spin states
+            continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From e561c182453ade9d4b5ea258680cc10be1fe08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 21/49] fix: Lanczos Green function leaves the sectors of the
 eigenspace as they are

---
 edpyt/gf_lanczos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..9a8acd2 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from edpyt.build_mb_ham import build_mb_ham
-from edpyt.espace import build_empty_sector, solve_sector
+from edpyt.espace import Sector, build_empty_sector, solve_sector
 from edpyt.lanczos import ZeroNormInitialVector, build_sl_tridiag
 from edpyt.lookup import binsearch
 from edpyt.matvec_product import matvec_operator
@@ -181,7 +181,7 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
-                sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
+                sctJ = Sector(sctJ.states, sctJ.d, *solve_sector(H, V, sctJ))
                 # <J|I>
                 bJ = project_exact(pos, n, cdg, sctI, sctJ)
                 # EJ-EI
@@ -216,7 +216,7 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
-                sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
+                sctJ = Sector(sctJ.states, sctJ.d, *solve_sector(H, V, sctJ))
                 # <J|I>
                 bJ = project_exact(pos, n, c, sctI, sctJ)
                 # EI-EJ
-- 
2.43.0


From a9c2a7e27b62218710d22b247ba562050238a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 22/49] fix: off-diagonal Green function skips states that the
 operator annihilates

---
 edpyt/gf2_lanczos.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5ca46ed 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -89,7 +89,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +113,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From e4147d28f677b81a24680b2d57d861282746a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 23/49] fix: occupations leave the shape of the eigenvectors
 passed in alone

---
 edpyt/observs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..5e405ab 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -78,8 +78,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
     occps = np.zeros(nev) # internal
     
     if evecs.flags.f_contiguous:
-        evecs = evecs.T
-        evecs.shape = (nev, dwn, dup)
+        evecs = evecs.T.reshape(nev, dwn, dup)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ij,ji->i',evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ij,ji->i',evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
@@ -87,7 +86,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From 2c7764356874f5d4885369b9dd3131fef327cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:07 +0000
Subject: [PATCH 24/49] fix: a Green function without poles is zero at every
 frequency asked for

---
 edpyt/gf_lanczos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index 9a8acd2..67f5e41 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -48,7 +48,9 @@ class Gf:
             kernel(a, b)
         )
     def __call__(self, e, eta):
-        out = np.sum([f(e, eta) for f in self.funcs], axis=0)
+        out = np.zeros(np.atleast_1d(e + 1.j*eta).shape, complex)
+        for f in self.funcs:
+            out += f(e, eta)
         return out / self.Z
 
 
-- 
2.43.0


From bb4324985db55481acd452657e7a7dc46db68b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 25/49] fix: cotunneling active sectors stay inside the Hilbert
 space

get_active_neig indexed sectors with negative or too many electrons, which
marked unrelated sectors or raised IndexError.
---
 edpyt/cotunneling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..92dd7da 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -394,7 +394,8 @@ def find_active_sectors(ngs):
 def get_active_neig(n, ngs, val=2):
     from edpyt.lookup import get_sector_index
     neig = np.zeros((n+1)*(n+1),int)
-    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)]
+    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)
+           if (0<=nup<=n) and (0<=ndw<=n)]
     for i in idx:
         neig[i] = val
     return neig
\ No newline at end of file
-- 
2.43.0


From 3ac72cd97d5d8dc9fce36cffb77f7feaf887732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 26/49] fix: total-charge tunnelling reaches the empty and the
 full sector

The bounds excluded charge 0 and 2n as neighbours: a single level with one
electron had no elements at all (and cotnl raised IndexError).
---
 edpyt/cotnl.py | 4 ++--
 edpyt/sqtnl.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..673fb3a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -128,11 +128,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From f5efb4019664195870f508c8800ee0dba0b62f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 27/49] fix: thermal window of approximate cotunneling is
 1/beta without bias

z/(exp(beta z)-1) tends to 1/beta for z -> 0, not to 1, and overflowed for
beta*z below the rounding of 1.
---
 edpyt/cotnl.py       | 6 +++---
 edpyt/cotunneling.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 673fb3a..4c46ad3 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -209,11 +209,11 @@ nF.__doc__ = "Fermi function."
 
 def G(beta, z):
     """Helper function for approximate solution."""
-    if (beta*abs(z))<1e-18:
-        return 1.
+    if z==0.:
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
-    return z/(np.exp(beta*z)-1)
+    return z/np.expm1(beta*z)
 
 # from numba import vectorize, guvectorize
 
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 92dd7da..fb4fc3c 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -229,11 +229,11 @@ class _Sigma:
     @staticmethod
     def G(beta, z):
         """Helper function for approximate solution."""
-        if (beta*abs(z))<1e-18:
-            return 1.
+        if z==0.:
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
-        return z/(np.exp(beta*z)-1)
+        return z/np.expm1(beta*z)
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-- 
2.43.0


From e533e6b5d52dc702843871f6af57d0ff073a4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 28/49] fix: product of Fermi factors in the numerical
 cotunneling integral

A misplaced parenthesis put the second factor in the argument of the first.
---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 4c46ad3..b192750 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -265,8 +265,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From 3ad2673794a1ec2c06e57e665f094c9ca7974a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 29/49] fix: poles of the exact cotunneling integral

The amplitudes are Y/(E-z): their poles are at E, not at -E.
---
 edpyt/cotnl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index b192750..c2d77c1 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -249,7 +249,7 @@ class Sigma:
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
         Y = [Y for gf in self.gf2 for Y in gf.y(A, extract, inject)]
-        E = [-E for gf in self.gf2 for E in gf.E]
+        E = [E for gf in self.gf2 for E in gf.E]
         if len(Y) == 1:
             return Gamma1(*Y,*E,mu,beta)
         elif len(Y) == 2:
-- 
2.43.0


From 28b1cda231a4f24c803247e2cac03e07e4cc745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 30/49] fix: evaluate cotunneling amplitudes at several
 energies

The energies were broadcast against the intermediate states.
---
 edpyt/cotunneling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index fb4fc3c..9510891 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -212,7 +212,7 @@ class Gf2:
     def __call__(self, z, aF, aI):
         z = np.atleast_1d(z)
         res = np.einsum('j,j,kj->k',aF.dot(self.vF.T),aI.dot(self.vI.T),
-                        np.reciprocal(z-self.E[None,:]))
+                        np.reciprocal(z[:,None]-self.E[None,:]))
         return res
 
 
-- 
2.43.0


From 34c8763c1df5a65df98b0080fe48da8d4a468e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 31/49] fix: integrate cotunneling rates over all intermediate
 states

Only the first intermediate state of each neighbouring sector entered the
integral, while the approximate rate sums over all of them.
---
 edpyt/cotunneling.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9510891..482332f 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -1,10 +1,10 @@
 from numba import vectorize
 import numpy as np
-from itertools import zip_longest
+from itertools import combinations, zip_longest
 from collections import defaultdict
 from operator import attrgetter
 
-from edpyt.integrals import Gamma1, Gamma2
+from edpyt.integrals import I1, I2
 
 from edpyt.sector import (
     OutOfHilbertError, get_c_sector, get_cdg_sector)
@@ -25,6 +25,14 @@ def abs2(r, i):
     return r**2 + i**2
 
 
+def Gamma(Y, E, mu, beta):
+    """Integral of |sum_j Y[j] / (z - E[j])|^2 over the bias window."""
+    res = sum(I1(y,e,mu,beta) for y,e in zip(Y,E))
+    for j, k in combinations(range(len(Y)), 2):
+        res += 2 * I2(Y[j],Y[k],E[j],E[k],mu,beta)
+    return res
+
+
 def projector(ispin):
     if ispin==0:
         return project_exact_up
@@ -247,9 +255,9 @@ class _Sigmae(_Sigma):
     #  |  e     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[inject].dot(self.gf2.vF[0])*A[extract].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[inject].dot(self.gf2.vF.T)*A[extract].dot(self.gf2.vI.T),
+            self.gf2.E,
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
@@ -264,9 +272,9 @@ class _Sigmah(_Sigma):
     #  |  h     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[extract].dot(self.gf2.vF[0])*A[inject].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[extract].dot(self.gf2.vF.T)*A[inject].dot(self.gf2.vI.T),
+            self.gf2.E,
             [mu[extract]-self.dE,mu[inject]], beta)
     
     def __call__(self, z, A, extract, inject):
@@ -295,11 +303,10 @@ class Sigma(_Sigma):
         super().__init__(self.gf2e)
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma2(
-            A[inject].dot(self.gf2e.vF[0])*A[extract].dot(self.gf2e.vI[0]), #A
-            A[extract].dot(self.gf2h.vF[0])*A[inject].dot(self.gf2h.vI[0]), #B
-            self.gf2e.E[0], # epsA
-            self.gf2h.E[0], # epsB
+        return Gamma(
+            np.concatenate([A[inject].dot(self.gf2e.vF.T)*A[extract].dot(self.gf2e.vI.T),
+                            A[extract].dot(self.gf2h.vF.T)*A[inject].dot(self.gf2h.vI.T)]),
+            np.concatenate([self.gf2e.E, self.gf2h.E]),
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
-- 
2.43.0


From a0a915f6c20394176d70dfc23abecd3a5e6fc337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 32/49] fix: extract every sequential element once

The processes that differ in the spin of the other electron gave the same
element again (under the wrong spin for holes).
---
 edpyt/sqtnl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index 494fe13..7164afd 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -18,6 +18,8 @@ def extract_sequential_from_cotunneling(sigmadict):
             continue
         for sigma in sigmalist:
             spins = sigma.spins
+            if spins[0] != spins[1]:
+                continue
             for gf in sigma.gf2:
                 if isinstance(gf, Gf2e):
                     for j in range(gf.vI.shape[0]):
-- 
2.43.0


From c1416aa017bb5b89ec17a131687be18c53480cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 33/49] fix: building cotunneling matrices leaves the elements
 as they were

Looking up missing pairs in the defaultdict added empty entries, which broke
a later screening.
---
 edpyt/cotunneling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 482332f..c8b85fa 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -187,6 +187,7 @@ def build_transition_elements(n, egs, espace, cutoff=None):
     for ns in np.unique(reached_by_gs,axis=0):
         ispin_subset = [i for i,ds in zip(ispin,dS) if (ns[0]+ds[0],ns[1]+ds[1]) in reached_by_gs]
         project_sector(n, ns[0], ns[1], espace, sigmadict, ispin_subset)
+    sigmadict = dict(sigmadict)
     if cutoff is not None:
         return screen_transition_elements(sigmadict, egs, espace, cutoff)
     return sigmadict
-- 
2.43.0


From a335e2e87fd6e7dbfaaf3d5ff5bb85e0a8bb604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 34/49] fix: keep states without transitions in the rate matrix

Its order differed from the transition matrix, and was 0 for a single state.
---
 edpyt/cotnl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index c2d77c1..bc6ceac 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -309,6 +309,8 @@ def build_rate_and_transition_matrices(sigmadict, beta, mu, A, extract, inject,
         # if idF[1] != idI[1]:
             W[idI,idI] -= gamma.sum()
             W[idF,idI] += gamma.sum()
+        else:
+            W[idF,idI] += 0. # keep states that go nowhere
         T[idF,idI] += gamma[extract,inject] - gamma[inject,extract]
     if build_matrices:
         return map(lambda D: dict_to_matrix(D), [W,T])
-- 
2.43.0


From 2f1a63f631f9018efed356fa4a0b4358603250f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 35/49] fix: evaluate the hybridisation at a single frequency,
 as integrate does

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..3dd8c81 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -56,7 +56,7 @@ class Delta:
         fit_hybrid(self.x, self.nmats, delta, self.beta)
 
     def __call__(self, z):
-        return _delta(self.x, z)
+        return _delta(self.x, np.atleast_1d(z)).reshape(np.shape(z))
 
 
 class Gfimp:
-- 
2.43.0


From 7383e2c55bffe78e46db95f070febaca74049b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 36/49] fix: spin-dependent integrate had no usable default
 chemical potential

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 3dd8c81..57b2318 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -252,7 +252,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From 4a62cd8eb608fe904a4f5788cb0dcd0740e18150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 37/49] fix: make the hybridisation causal; the assignment went
 to a copy

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 57b2318..257f415 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -445,7 +445,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From 7d35d02b3712dda6682cd8cd4f8b51d638b512b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 38/49] fix: the loop crashed printing the occupation when
 there was no goal

---
 edpyt/dmft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 257f415..26c72f9 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -447,6 +447,8 @@ class DMFT:
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
         delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
+        if occp is None:  # no goal given
+            occp = np.nan
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
         )
-- 
2.43.0


From e4485fe36768b7678c4b6a1de44c3e5ac1a9705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 39/49] fix: index local Green functions by representative, not
 by site

---
 edpyt/nano_dmft.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..dbe4beb 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -77,15 +77,13 @@ class Gfloc:
         """Interacting Green's function."""
         z = np.atleast_1d(z)
         sigma = self.get_sigma(z)
-        it = np.nditer([sigma, z, None], flags=['external_loop'], order='F')
-        with it:
-            for sigma_, z_, out in it:
-                x = self.free(z_[0], inverse=True)
-                x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
-                out[self.idx_neq,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            return it.operands[2][self.idx_neq,...]
-                # out[self.idx_world,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            # return it.operands[2][self.idx_world,...]
+        # One matrix per frequency (and spin), sites of this process only.
+        out = np.empty((len(self.idx_neq),)+sigma.shape[1:], complex)
+        for idx in np.ndindex(sigma.shape[1:]):
+            x = self.free(z[idx[-1]], inverse=True)
+            x.flat[::(self.n+1)] -= sigma[(slice(None),)+idx][self.idx_inv]
+            out[(slice(None),)+idx] = np.linalg.inv(x).diagonal()[self.idx_neq]
+        return out
 
     def update(self, mu):
         """Update chemical potential."""
-- 
2.43.0


From af808f6356f76a5717c1b14e09fef9886c79b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 40/49] fix: occupation of a single spin-resolved site was
 counted twice

---
 edpyt/nano_dmft.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index dbe4beb..9bd7ff1 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -30,11 +30,11 @@ def _get_occps_method(comm):
             self.comm.Allgather([occps_loc, occps_loc.size], [occps, occps_loc.size])
             shape = list(occps_loc.shape)
             shape[0] *= self.comm.size
-            return np.squeeze(occps.reshape(shape)[self.idx_inv,...])
+            return occps.reshape(shape)[self.idx_inv,...]
     else:
         def wrap(self, mu):
             occps = integrate_gf(self, mu)
-            return np.squeeze(occps[self.idx_inv,...])
+            return occps[self.idx_inv,...]
     return wrap
 
 
@@ -144,9 +144,9 @@ class Gfloc:
         # else:
         #     occps = occps_loc
         # occps = np.squeeze(occps[self.idx_inv,...])
-        if occps.ndim<2:
-            return 2. * occps#.sum()
-        return occps.sum(1)#.sum()
+        if occps.ndim>1 and occps.shape[1]>1: # spin-resolved
+            return occps.sum(1)#.sum()
+        return 2. * occps.reshape(-1)#.sum()
 
 
 class Gfimp:
-- 
2.43.0


From 97d7a0970c44ad7a28f9ff63e2963a9b5748c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 41/49] fix: keep the starting bath when the Python fit ends
 above it

---
 edpyt/fit_cg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edpyt/fit_cg.py b/edpyt/fit_cg.py
index 957edd7..d8b7a49 100644
--- a/edpyt/fit_cg.py
+++ b/edpyt/fit_cg.py
@@ -70,7 +70,10 @@ def fit_hybrid(p, nmats, vals_true, beta):
     ddelta = DDelta(z, p.size)
     chi2 = Chi2(delta, vals_true)
     dchi2 = dChi2(delta, ddelta, vals_true)
-    p[:] = fmin_cg(chi2, p, dchi2, disp=False)
+    best = fmin_cg(chi2, p, dchi2, disp=False)
+    # The line search may give up on a point above the one it started from.
+    if chi2(best) <= chi2(p):
+        p[:] = best
 
 
 def get_initial_bath(*, p=None, nbath=None, bandwidth=2.):
-- 
2.43.0


From 0659ec6705fa31c1ca6267a649380c06d333e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 42/49] fix: draw poles only where the density is positive, and
 keep the density

---
 edpyt/dedlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..7d952c1 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -51,9 +51,9 @@ class RandomSampler:
         '''
         self.eners = np.linspace(lims[0],lims[1],int(np.diff(lims)*nsamples+1),
                                  endpoint=True)
-        cdf = p(self.eners)
-        cdf /= cdf.sum()
+        cdf = np.array(p(self.eners), float) # (copy) p may hand out its own array
         cumsum(cdf)
+        cdf /= cdf[-1]
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
@@ -64,7 +64,7 @@ class RandomSampler:
         '''
         n = self.poles.size
         for i in range(n):
-            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random())]
+            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random(), side='right')]
         self.poles.sort()
 
 
-- 
2.43.0


From 4faf1fe10342cd7c30686133223703851ee502b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 43/49] fix: average the self-energy alone, not on top of what
 the given array holds

---
 edpyt/dedlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 7d952c1..210790a 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -228,6 +228,7 @@ def siam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros_like(z)
         return_sigma = True
+    sigma[:] = 0.                    # (given) whatever it holds
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = 0.                   # non-interacting impurity occupation
     imp_occp1 = 0.                   # interacting impurity occupation
@@ -326,6 +327,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros((nimp,z.size),complex)
         return_sigma = True
+    sigma[:] = 0.                    # (given) whatever it holds
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
-- 
2.43.0


From 82de096ccd86308620cc52070c72c83787fee988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 44/49] fix: moam_solve left the interaction undefined when U
 is a number, as by default

---
 edpyt/dedlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 210790a..f764c47 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -334,6 +334,8 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     # imp_entropy = 0.                 # impurity entropy
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))             # non-interacting e-e interaction.
+    if np.isscalar(U):               # same for each impurity.
+        U = np.diag(np.full(nimp,U))
     if isinstance(U, np.ndarray):    # interacting e-e interaction.
         V1 = V0.copy()              
         V1[:nimp,:nimp] = U
-- 
2.43.0


From 7a7420852088da27180288242e53a304fe191a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 45/49] fix: moam_solve averaged over all rounds instead of the
 samples each impurity accepted

---
 edpyt/dedlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index f764c47..545cf4e 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -332,6 +332,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
     # imp_entropy = 0.                 # impurity entropy
+    Q = np.zeros(nimp)               # accepted samples of each impurity
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))             # non-interacting e-e interaction.
     if np.isscalar(U):               # same for each impurity.
@@ -391,10 +392,12 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
                     imp_occp0[i] += occp0[i]
                     imp_occp1[i] += occp1[i]
                     # imp_entropy += get_entropy(gfimp,espace,egs,beta)
+                    Q[i] += 1
                     found = True
-    sigma /= N
-    imp_occp0 /= N
-    imp_occp1 /= N
+    Q = np.where(Q>0, Q, 1)          # (never accepted) leave zeros.
+    sigma /= Q[:,None]
+    imp_occp0 /= Q
+    imp_occp1 /= Q
     # imp_entropy /= (N*kB)
     imp_entropy = 0. #(N*kB)
     if return_sigma:
-- 
2.43.0


From 66434d696474d0d7893c528c45612cf8ccd45a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 46/49] fix: cotnl screening dropped intermediate states that
 only a uniform coupling does not see

---
 edpyt/cotnl.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index bc6ceac..e935779 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -334,16 +334,14 @@ def screen_transition_elements(sigmadict, egs, espace, cutoff):
                 and(abs(espace[idF[:1]].eigvals[idF[1]]-egs)<cutoff)
                 and(abs(espace[idI[:1]].eigvals[idI[1]]-egs)<cutoff)}
     # return sigmadict
-    n = sigmadict[next(iter(sigmadict))][0].gf2[0].vF.shape[1]
-    A = np.ones((2,n))
     screened = {}
     for (idF,idI), sigmalist in sigmadict.items():
         sigmas = []
         for sigma in sigmalist:
             gfs = []
             for gf in sigma.gf2:
-                y = gf.y(A, 1, 0)
-                nnz_idx = np.abs(y) > 1e-10
+                # Intermediate states that some pair of leads can reach.
+                nnz_idx = np.abs(gf.vF).max(1)*np.abs(gf.vI).max(1) > 1e-10
                 if any(nnz_idx):
                     gfs.append(gf)
                     gf.vF = gf.vF[nnz_idx,:]
-- 
2.43.0


From 4fa03dc80f2b9e4a441dee33895ed2b21f4a3c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 47/49] fix: building a Hamiltonian set the write flag of the
 caller's matrix (read-only ones were unlocked or raised)

---
 edpyt/build_mb_ham.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index daba0ec..f15888d 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -38,8 +38,7 @@ def build_mb_ham(H, V, sct, comm=None):
 
     """
     n = H.shape[-1]
-    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H
-    H.flags.writeable = False
+    H = np.broadcast_to(H, (2,n,n)) # (readonly view, the caller's array is left alone)
 
     if isinstance(V, np.ndarray):
         U = V
@@ -71,8 +70,6 @@ def build_mb_ham(H, V, sct, comm=None):
     if (Jx is not None) or (Jp is not None):
         operators.append(build_ham_non_local(Jx, Jp, sct, operators[0]))
 
-    H.flags.writeable = True
-
     return operators
 
 
-- 
2.43.0


From 532cd21aee1535554c6dc9d69cf115ffefbd6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 48/49] fix: indexing a Lanczos Green function matrix below the
 diagonal called an element that is not stored

---
 edpyt/gf2_lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index 5ca46ed..55566cd 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -27,7 +27,7 @@ class _Gf2():
         return G
     
     def __getitem__(self, ij):
-        i,j = ij
+        i,j = sorted(ij) # (only the upper triangle is stored)
         if i==j:
             return self.gf[i,j]
         return lambda e, eta: 0.5*(self.gf[i,j](e,eta)
-- 
2.43.0


From 5449445c7671ea69dd756c4678efa15a95177963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 49/49] fix: spin densities of eigenvectors given as
 one-dimensional arrays can be drawn

---
 edpyt/cotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotools.py b/edpyt/cotools.py
index 48c9159..d639436 100644
--- a/edpyt/cotools.py
+++ b/edpyt/cotools.py
@@ -54,7 +54,7 @@ def draw_spin_density(atoms, evec, states, n, subset=None, axes=None, plane='xy'
         """
     axes = draw_skeleton(atoms, axes, plane)
     nup, ndw = map(lambda nxx: nxx[:,0], 
-                   get_evecs_occupation(np.atleast_2d(evec),states.up,states.dw,n))
+                   get_evecs_occupation(np.reshape(evec, (-1,1)),states.up,states.dw,n))
     ax = 'xyz'.index(plane[0]), 'xyz'.index(plane[1])
     for i in range(n):
         circle = plt.Circle(positions[i,ax], nup[i], color='black', zorder=10)
-- 
2.43.0

