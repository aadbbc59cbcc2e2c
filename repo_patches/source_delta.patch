From 56b0f3cc42442d7456ff47ad5f83e6cbea754939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:15 +0000
Subject: [PATCH 01/63] fix: detect the van Hove singularity of the triangular
 lattice in scaled units

`z` is already given in units of the hopping, so points outside the band
were treated as singular and the true singularity was not handled.
---
 gftool/lattice/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index c410cf9..47c91eb 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -76,7 +76,7 @@ def gf_z(z, half_bandwidth):
     z = z.reshape(-1)
     advanced = z.imag < 0
     z = np.where(advanced, np.conj(z), z)  # calculate retarded only, and use symmetry
-    singular = D * z == -1  # try singularity which needs to be avoided
+    singular = z == -1  # try singularity which needs to be avoided
     z[singular] = 0  # mock value to avoid errors
     rr = _signed_sqrt(2*z + 3)
     gg = 4.0 / (_signed_sqrt(rr - 1)**3 * _signed_sqrt(rr + 3))  # eq (2.9)
-- 
2.43.0


From 2a84773c6381be096bcbf78036f92517add73f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:15 +0000
Subject: [PATCH 02/63] fix: accept array_like tt in gf_ret_t as documented

A list was repeated instead of multiplied by an integer half-bandwidth.
---
 gftool/lattice/bethe.py | 2 +-
 gftool/lattice/box.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 8dc3809..9b3ba4b 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -406,7 +406,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    tt = np.asarray(half_bandwidth*tt)
+    tt = np.asarray(half_bandwidth*np.asarray(tt))
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
     small = retard & (abs(tt) < _SMALL)
diff --git a/gftool/lattice/box.py b/gftool/lattice/box.py
index 326d421..4450c64 100644
--- a/gftool/lattice/box.py
+++ b/gftool/lattice/box.py
@@ -145,7 +145,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    tt = np.asarray(half_bandwidth*tt)
+    tt = np.asarray(half_bandwidth*np.asarray(tt))
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
     small = retard & (abs(tt) < _SMALL)
-- 
2.43.0


From 9ee2ea6ab09a3c0658be0b2cbe24d8fafd327aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:15 +0000
Subject: [PATCH 03/63] fix: fcc.dos_mp vanishes outside the band and uses full
 working precision

---
 gftool/lattice/fcc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index c0af611..30e5a47 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -315,7 +315,7 @@ def dos_mp(eps, half_bandwidth=1):
     """
     D = mp.mpf(half_bandwidth) * mp.mpf('1/2')
     eps = mp.mpf(eps) / D
-    if 3 < eps < -1:
+    if eps < -1 or eps > 3:
         return mp.mpf('0')
     if eps == -1:
         return mp.inf
@@ -328,4 +328,4 @@ def dos_mp(eps, half_bandwidth=1):
     kii = mp.ellipk(m_p)
     if m_p.imag < 0:
         kii += 2j * mp.ellipk(1 - m_p)  # eq (2.17)
-    return abs(4 / (mp.pi**3 * D * epsp1) * (_u_ellipk(m_m) * kii).imag)  # eq (2.16)
+    return abs(4 / (mp.pi**3 * D * epsp1) * (mp.ellipk(m_m) * kii).imag)  # eq (2.16)
-- 
2.43.0


From 6d1f95eb1656918126e4094287533faa0cfce926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 04/63] fix: use multi-precision pi in triangular.dos_mp

---
 gftool/lattice/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index 47c91eb..394051d 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -334,4 +334,4 @@ def dos_mp(eps, half_bandwidth=1):
         else:
             msg = "Should be impossible. Please report this!"
             raise RuntimeError(msg)
-        return 2 / np.pi**2 / D * dos_
+        return 2 / mp.pi**2 / D * dos_
-- 
2.43.0


From 89ff9fb3a98e74fe318ed4005449e8a1ba024fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 05/63] fix: half-bandwidth scaling of the small eps expansion
 in sc.dos_mp

The expansion is in `3*eps/half_bandwidth`.  Also convert `half_bandwidth`
to the working precision.
---
 gftool/lattice/sc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index 9e12461..4e9b295 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -304,7 +304,7 @@ def gf_z_mp(z, half_bandwidth=1):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     z = D_inv * mp.mpc(z)
     z_sqr = 1 / z**2
     xi = mp.sqrt(1 - mp.sqrt(1 - z_sqr)) / mp.sqrt(1 + mp.sqrt(1 - 9*z_sqr))
@@ -364,11 +364,11 @@ def dos_mp(eps, half_bandwidth=1):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     eps = mp.fabs(eps)
-    if eps < 10**(-mp.dps/4):
+    if D_inv * eps < 10**(-mp.dps/4):
         km2 = 0.25 * (2 - mp.sqrt(3))
-        dos0 = D_inv * (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
+        dos0 = (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
         dos1 = 1 / (3 * mp.pi**4 * dos0)
         even_coeffs = [dos0*d0 - dos1*d1 for d0, d1 in zip(
             [1, mp.mpf("1/18"), mp.mpf("11/648"), mp.mpf("19/2160")],
@@ -376,6 +376,6 @@ def dos_mp(eps, half_bandwidth=1):
         )]
         coeffs = [0] * (2*len(even_coeffs) - 1)
         coeffs[::2] = even_coeffs
-        return mp.polyval(coeffs[::-1], eps)
+        return D_inv * mp.polyval(coeffs[::-1], D_inv * eps)
 
     return -mp.im(gf_z_mp(eps, half_bandwidth)) / mp.pi
-- 
2.43.0


From e65f35ca9e5e0230687265e6ce144fe0707a7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 06/63] fix: bcc and fcc DOS of integer energies

The result was stored in an array of the type of `eps`, so integers
truncated the DOS or raised an OverflowError.
---
 gftool/lattice/bcc.py | 2 +-
 gftool/lattice/fcc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bcc.py b/gftool/lattice/bcc.py
index e44cc85..bd8dc16 100644
--- a/gftool/lattice/bcc.py
+++ b/gftool/lattice/bcc.py
@@ -147,7 +147,7 @@ def dos(eps, half_bandwidth):
     """
     eps = np.asarray(eps)
     eps_rel = eps / half_bandwidth
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros(eps.shape, dtype=np.result_type(eps, float))
     singular = eps_rel == 0
     finite = (abs(eps_rel) <= 1) & ~singular
     # identity `K(m) = (1/m) [K(m) + iK'(1/m)]` could be used to avoid 1/0
diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 30e5a47..77ea054 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -176,7 +176,7 @@ def dos(eps, half_bandwidth):
     eps = np.asarray(eps)
     singular = eps == -0.5*half_bandwidth
     finite = (-0.5*half_bandwidth < eps) & (eps < 1.5*half_bandwidth) & ~singular
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros(eps.shape, dtype=np.result_type(eps, float))
     dos_[finite] = 1 / np.pi * gf_z(eps[finite], half_bandwidth=half_bandwidth).imag
     dos_[singular] = np.inf
     return abs(dos_)  # at 0.5D wrong sign
-- 
2.43.0


From 27114a4ad9d9a7048f34d5d72c855a4c0b0b7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 07/63] fix: bose_fct of integers returned integers

---
 gftool/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 41d4654..3d29a08 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -47,7 +47,7 @@ def bose_fct(eps, beta):
     >>> plt.show()
     """
     betaeps = np.asanyarray(beta*eps)
-    res = np.empty_like(betaeps)
+    res = np.empty_like(betaeps, dtype=np.result_type(betaeps, float))
     small = betaeps < 700
 
     with catch_warnings():
-- 
2.43.0


From 3659a01599f83e2236d653905e52d8fb983b6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 08/63] fix: pole_gf_tau_b raises ValueError for vanishing
 poles as documented

Also convert `tau` before comparing it, it is documented as array_like.
---
 gftool/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index b4d24dc..dea8e0b 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -334,11 +334,12 @@ def pole_gf_tau_b(tau, poles, weights, beta):
     >>> __ = plt.xlabel('τ')
     >>> plt.show()
     """
+    tau, beta = np.asanyarray(tau), np.asanyarray(beta)
     assert np.all((tau >= 0.) & (tau <= beta))
     poles = np.atleast_1d(poles)
-    tau = np.asanyarray(tau)[..., newaxis]
-    beta = np.asanyarray(beta)[..., newaxis]
-    if np.any(poles.real < 0):
+    tau = tau[..., newaxis]
+    beta = beta[..., newaxis]
+    if np.any(poles.real <= 0):
         msg = "Bosonic Green's function only well-defined for positive `poles`."
         raise ValueError(msg)
     # eps((beta-tau)*pole)*g(pole, beta) = -exp(-tau*pole)*g(pole, -beta)
-- 
2.43.0


From 336594f3d42056e7e233c7826c4c00fff0448b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 09/63] fix: catastrophic cancellation in Bethe Green's
 function for large z

---
 gftool/lattice/bethe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 9b3ba4b..a38a69e 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -65,7 +65,9 @@ def gf_z(z, half_bandwidth):
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
     except AttributeError:
         complex_pres = complex
-    gf_z = 2./half_bandwidth*z_rel*(1 - np.sqrt(1 - z_rel**-2))
+    z_rel_inv = 1 / z_rel
+    # avoid the cancellation in `1 - sqrt(1 - z_rel**-2)` for large `z_rel`
+    gf_z = 2./half_bandwidth*z_rel_inv / (1 + np.sqrt(1 - z_rel_inv**2))
     return gf_z.astype(dtype=complex_pres, copy=False)
 
 
@@ -96,7 +98,8 @@ def gf_d1_z(z, half_bandwidth):
     except AttributeError:
         complex_pres = complex
     sqrt = np.sqrt(1 - z_rel_inv**2)
-    gf_d1 = 2. / half_bandwidth**2 * (1 - 1/sqrt)
+    # avoid the cancellation in `1 - 1/sqrt` for large `z`
+    gf_d1 = -2. / half_bandwidth**2 * z_rel_inv**2 / (sqrt * (1 + sqrt))
     return gf_d1.astype(dtype=complex_pres, copy=False)
 
 
-- 
2.43.0


From 7e83e36738e4d792359a1d6ad10a1c36e6b6c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 10/63] fix: accept array_like tau in pole gf_tau as documented

---
 gftool/basis/pole.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 1ee5c64..b4253bf 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -371,10 +371,11 @@ def gf_tau(tau, poles, weights, beta):
     --------
     pole_gf_z : Corresponding commutator Green's function.
     """
+    tau, beta = np.asanyarray(tau), np.asanyarray(beta)
     assert np.all((tau >= 0.) & (tau <= beta))
     poles = np.atleast_1d(poles)
-    tau = np.asanyarray(tau)[..., newaxis]
-    beta = np.asanyarray(beta)[..., newaxis]
+    tau = tau[..., newaxis]
+    beta = beta[..., newaxis]
     return _gu_sum(weights*_single_pole_gf_tau(tau, poles, beta=beta))
 
 
-- 
2.43.0


From 92c266fb9d805d44df16b5159cfb5a61f6a86e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 11/63] fix: occupation constraint in gf_from_tau

The constraint was broadcast to the number of moments, so it failed
unless exactly one moment was given.  Furthermore the occupation was
rounded down when counting the constraints.
---
 gftool/basis/pole.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index b4253bf..3c803ac 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -645,18 +645,19 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
         gf_sp_mat *= weight[..., np.newaxis]
         gf_tau = gf_tau * weight
     if moments.shape[-1] > 0 or occ:  # constrained
-        if moments.shape[-1] + int(occ) > n_pole:
+        if moments.shape[-1] + (1 if occ else 0) > n_pole:
             msg = (
                 "Too many poles given, system is over constrained. "
                 f"poles: {n_pole}, moments: {moments.shape[-1]}"
             )
             raise ValueError(msg)
-        constrain_mat = np.polynomial.polynomial.polyvander(poles, deg=moments.shape[-1]-1).T
-        if occ:
+        constrain_mat = poles**np.arange(moments.shape[-1])[:, newaxis]
+        if occ:  # one additional constraint
             constrain_mat = np.concatenate(
-                np.broadcast_arrays(constrain_mat, fermi_fct(poles, beta=beta)), axis=-2
+                [constrain_mat, fermi_fct(poles, beta=beta)[newaxis, :]], axis=-2
             )
-            moments = np.concatenate(np.broadcast_arrays(moments, occ), axis=-1)
+            occ_ = np.broadcast_to(occ, (*moments.shape[:-1], 1))
+            moments = np.concatenate([moments, occ_], axis=-1)
         _lstsq_ec = np.vectorize(linalg.lstsq_ec, signature="(m,n),(m),(l,n),(l)->(n)",
                                  otypes=[otype], excluded={"rcond"})
         resid = _lstsq_ec(gf_sp_mat, gf_tau, constrain_mat, moments)
-- 
2.43.0


From c2e88aa7bb28f7f97c685175033cfbea39c3e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 12/63] fix: order of axes in check_convergence for matrix
 potentials

---
 gftool/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index dea8e0b..c7c85d1 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -580,7 +580,8 @@ def check_convergence(gf_iw, potential, beta, order=2, matrix=False, total=False
 
     if matrix:
         dec = gtmatrix.decompose_her(potential)
-        tail = dec.reconstruct(1./np.add.outer(dec.eig, iw), kind="diag")
+        tail = dec.reconstruct(1./np.add.outer(iw, dec.eig), kind="diag")
+        tail = np.moveaxis(tail, 0, -1)  # Matsubara frequencies are the last axis
     else:
         tail = 1/np.add.outer(potential, iw)
 
-- 
2.43.0


From 66c6a6ad8619fd75b02ef5c7e501e025a5f8a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 13/63] fix: order of singular values for stacked unitary
 decompositions

---
 gftool/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 53ad61e..3ef5030 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -257,7 +257,7 @@ class UDecomposition(Decomposition):
     @property
     def s(self):
         """Singular values in descending order, different from order of `eig`."""
-        return np.sort(abs(self.eig))[::-1]
+        return np.sort(abs(self.eig))[..., ::-1]
 
 
 def decompose_mat(mat) -> Decomposition:
-- 
2.43.0


From 04ef65a6ec7167326b5813a2efd43d103d5b6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 14/63] fix: stable prediction of multiple data sets with
 common coefficients

---
 gftool/linearprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 6e22b37..8e63b21 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -364,7 +364,7 @@ def _predict_stable(x, pcoeff, num: int):
     # drop exponential growing terms
     bad = abs(dec.eig) > 1
     # print(f'Bad {np.count_nonzero(bad)}/{bad.size}')
-    residues[bad] = 0
+    residues = np.where(bad, 0, residues)
 
     # predict
     start = x.shape[-1]
-- 
2.43.0


From 3895e2ab2a8b4be612bd92c3f7962f87dcb7c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 15/63] fix: data type of SIAM Hamiltonian

Real on-site energies were truncated for integer hoppings.
---
 gftool/siam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/siam.py b/gftool/siam.py
index 5eec126..a95595e 100644
--- a/gftool/siam.py
+++ b/gftool/siam.py
@@ -176,7 +176,8 @@ def hamiltonian_matrix(e_onsite, e_bath, hopping):
     """
     broadcast = np.broadcast(e_onsite[..., np.newaxis], e_bath, hopping)
     n_bath = broadcast.shape[-1]
-    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1], dtype=hopping.dtype)
+    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1],
+                   dtype=np.result_type(e_onsite, e_bath, hopping))
     ham[..., 0, 0] = e_onsite
     ham[..., 0, 1:] = hopping
     ham[..., 1:, 0] = np.conj(hopping)
-- 
2.43.0


From 7daa59b342aa85517c05c963e04febc0f6263fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 16/63] fix: numerator of Pade approximants with constant
 denominator

The numerator has `num_deg + 1` coefficients.
---
 gftool/hermpade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 089f668..c00615a 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -452,7 +452,7 @@ def pade_lstsq(an, num_deg: int, den_deg: int, rcond=None, fix_q=None) -> RatPol
         msg = "Order of q+p (den_deg+num_deg) must be smaller than len(an)."
         raise ValueError(msg)
     if den_deg == 0:  # trivial case: no rational polynomial
-        return RatPol(Polynom(an), Polynom(np.array([1])))
+        return RatPol(Polynom(an[:num_deg+1]), Polynom(np.array([1])))
     # first solve the Toeplitz system for q, first row contains tailing zeros
     top = np.r_[an[num_deg+1::-1][:den_deg+1], [0]*(den_deg-num_deg-1)]
     amat = toeplitz(an[num_deg+1:], top)
@@ -535,13 +535,13 @@ def pader(an, num_deg: int, den_deg: int, rcond: float = 1e-14) -> RatPol:
     an = an[:l_max]
     # TODO: do rescaling, haven't found it in the reference
     tol = rcond * np.linalg.norm(an)
-    if np.all(abs(an[:num_deg]) <= tol):  # up to tolerance function is 0
+    if np.all(abs(an[:num_deg+1]) <= tol):  # up to tolerance function is 0
         return RatPol(Polynom([0]), Polynom([1]))
     row = np.r_[an[0], np.zeros(den_deg)]
     col = an
     while True:
         if den_deg == 0:
-            pcoeff, qcoeff = an[:den_deg], np.array([1])
+            pcoeff, qcoeff = an[:num_deg+1], np.array([1])
             break
         # top = np.r_[an[num_deg+1:num_deg+1-den_deg:-1], [0]*(den_deg-num_deg)]
         # amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From 98a9c4266b912cc2e8998a35b94960bc2b515050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 17/63] fix: evaluate quadratic Hermite-Pade approximants for
 scalars

---
 gftool/hermpade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index c00615a..20e6820 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -723,8 +723,8 @@ class _Hermite2Base:
         """Evaluate the two branches."""
         pz, qz, rz = self.p(z), self.q(z), self.r(z)
         discriminant = np.emath.sqrt(qz**2 - 4*pz*rz)
-        p_branch = 0.5*(-qz + discriminant) / rz
-        m_branch = 0.5*(-qz - discriminant) / rz
+        p_branch = np.asarray(0.5*(-qz + discriminant) / rz)
+        m_branch = np.asarray(0.5*(-qz - discriminant) / rz)
         # more stable calculation of branches, using `out` for lazy evaluation
         # see [fasondini2019]_, 5.2 Evaluating the quadratic formula
         np.divide(pz, rz*m_branch, out=p_branch, where=abs(p_branch) < abs(m_branch))
-- 
2.43.0


From f264e56b8ddef270f84b820f6e4bf9787cbfd14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 18/63] fix: maximal number of poles in polepade.number_poles

`2*n_poles + degree` has to be smaller than the number of points,
otherwise the following assertion fails.
---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c02656c..c660109 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -202,7 +202,7 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
        https://doi.org/10.1007/s00211-018-0948-4
     """
     tol = np.finfo(fct_z.dtype).eps
-    max_n_poles = abs_max_n_poles = (z.size - degree)//2
+    max_n_poles = abs_max_n_poles = (z.size - degree - 1)//2
     if n_poles0 is None:
         n_poles = min(max_n_poles, 50)
     else:
-- 
2.43.0


From 8c0fee4bbdc0aa3eec311dff774a358b4b82f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 19/63] fix: polepade.asymptotic returns standard deviation for
 weighted data

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c660109..357e63f 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -385,7 +385,7 @@ def asymptotic(z, fct_z, zeros, poles, weight=None):
         std = np.std(ratios, ddof=1, axis=-1)
     else:
         asym = np.average(ratios, weights=weight, axis=-1)
-        std = np.average(abs(ratios - asym)**2, weights=weight, axis=-1)
+        std = np.sqrt(np.average(abs(ratios - asym)**2, weights=weight, axis=-1))
     return asym, std
 
 
-- 
2.43.0


From eaaa6593cbcd47634860c4292d27d3ad7fd0b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 20/63] fix: FilterNegImagNum with relative number of
 approximants

---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 01f991f..9f0324c 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -171,7 +171,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
     def filter_neg_imag_num(pade_iter):
         badness = np.array([np.max(pade.imag, axis=-1) for pade in pade_iter])
-        abs_num_ = rel_num * badness.shape[0] if abs_num is None else abs_num
+        abs_num_ = int(rel_num * badness.shape[0]) if abs_num is None else abs_num
         if abs_num_ >= badness.shape[0]:
             LOGGER.warning("Skipping filter, not enough Padés (#Padés = %s)",
                            badness.shape[0])
-- 
2.43.0


From 82318db4eb8711f7921bb78d62eedf696554c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 21/63] fix: lstsq_ec uses rcond also without constraints

---
 gftool/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index e6c943d..b0cb706 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -93,7 +93,7 @@ def lstsq_ec(a, b, c, d, rcond=None):
                 f"Expected (L, N), (L), got {c.shape}, {d.shape}."
             )
             raise ValueError(msg)
-        return np.linalg.lstsq(a, b, rcond=None)[0]
+        return np.linalg.lstsq(a, b, rcond=rcond)[0]
     constrains = d.shape[-1]
     q_ct, r_ct = np.linalg.qr(transpose(c).conj(), mode='complete')
     r_ct = r_ct[..., :constrains, :]
-- 
2.43.0


From ecab9d03ca45e9971a2c520b6083b5a4aa3064a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 22/63] fix: averaged Pade of multiple functions without filter

The mask has to match the number of approximants.
---
 gftool/pade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 9f0324c..c9f678b 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -727,7 +727,8 @@ def averaged(z_out, z_in, *, valid_z=None, fct_z=None, coeff=None,
             filters = (filter_valid,)
         is_valid = apply_filter(*filters, validity_iter=validity_iter)
     else:
-        is_valid = np.ones((len(kind), *coeff.shape[:-1]), dtype=bool)
+        n_pades = len(range(coeff.shape[-1] - 1)[kind.slice])
+        is_valid = np.ones((n_pades, *coeff.shape[:-1]), dtype=bool)
 
     assert is_valid.shape[1:] == coeff.shape[:-1]
 
-- 
2.43.0


From 87576beb2b505c47c4b8a8d907ddc1525e47d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 23/63] fix: fcc.dos failed for energies rounded to the lower
 band-edge

The Green's function is evaluated for the scaled energy.
---
 gftool/lattice/fcc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 77ea054..535a3de 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -174,7 +174,8 @@ def dos(eps, half_bandwidth):
     >>> plt.show()
     """
     eps = np.asarray(eps)
-    singular = eps == -0.5*half_bandwidth
+    # scaled energy can be rounded to the singularity
+    singular = (eps == -0.5*half_bandwidth) | (2/half_bandwidth*eps == -1)
     finite = (-0.5*half_bandwidth < eps) & (eps < 1.5*half_bandwidth) & ~singular
     dos_ = np.zeros(eps.shape, dtype=np.result_type(eps, float))
     dos_[finite] = 1 / np.pi * gf_z(eps[finite], half_bandwidth=half_bandwidth).imag
-- 
2.43.0


From e5e6fdcf533c86df7018a39b6e438e7491daa296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 24/63] fix: accept array_like energies in bose_fct as
 documented

---
 gftool/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 3d29a08..986c314 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -46,7 +46,7 @@ def bose_fct(eps, beta):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    betaeps = np.asanyarray(beta*eps)
+    betaeps = np.asanyarray(beta*np.asanyarray(eps))
     res = np.empty_like(betaeps, dtype=np.result_type(betaeps, float))
     small = betaeps < 700
 
-- 
2.43.0


From 0e7066c7364b3e1d66a2a99939c71307c0cf0c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 25/63] fix: loss of significance in fermi_fct_d1 for negative
 energies

---
 gftool/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 986c314..530d989 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -143,7 +143,8 @@ def fermi_fct_d1(eps, beta):
     >>> plt.show()
     """
     fermi = fermi_fct(eps, beta=beta)
-    return -beta*fermi*(1-fermi)
+    # 1 - fermi_fct(eps) would cancel for large negative energies
+    return -beta*fermi*fermi_fct(eps, beta=-beta)
 
 
 def fermi_fct_inv(fermi, beta):
-- 
2.43.0


From 3fa67cc65207c38a5c9563fd4a503a84b43c6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 26/63] fix: pole gf_d1_z of integer frequencies and poles

---
 gftool/basis/pole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 3c803ac..8565e10 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -337,7 +337,7 @@ def gf_d1_z(z, poles, weights):
     """
     poles = np.atleast_1d(poles)
     z = np.asanyarray(z)[..., newaxis]
-    return -_gu_sum(weights * (z - poles)**-2)
+    return -_gu_sum(weights / (z - poles)**2)
 
 
 def _single_pole_gf_tau(tau, pole, beta):
-- 
2.43.0


From ad81c25c344c31902d700081fcc6e5293f6c9b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:45 +0000
Subject: [PATCH 27/63] fix: imaginary-time Green's function of purely
 imaginary poles

---
 gftool/basis/pole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 8565e10..c2d552d 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -345,7 +345,7 @@ def _single_pole_gf_tau(tau, pole, beta):
     # exp(-tau*pole)*f(-pole, beta) = exp((beta-tau)*pole)*f(pole, beta)
     exponent = np.where(pole.real >= 0, -tau, -tau + beta) * pole
     # -(1-fermi_fct(poles, beta=beta))*np.exp(-tau*poles)
-    return -np.exp(exponent) * fermi_fct(-np.sign(pole.real)*pole, beta)
+    return -np.exp(exponent) * fermi_fct(np.where(pole.real >= 0, -pole, pole), beta)
 
 
 def gf_tau(tau, poles, weights, beta):
-- 
2.43.0


From e3f94b9cbd817d439e30e8995b3944d101a80acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 28/63] fix: individual weights for each of multiple fitted
 Green's functions

---
 gftool/basis/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index c2d552d..cd4acfd 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -569,7 +569,7 @@ def gf_from_z(z, gf_z, n_pole, moments=(), width=1., weight=None) -> PoleFct:
     otype = np.result_type(gf_z, moments, poles)
     if weight is not None:
         weight = np.concatenate([weight, weight], axis=-1)
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_z = gf_z * weight
     if moments.shape[-1] > 0:
         if moments.shape[-1] > n_pole:
@@ -642,7 +642,7 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     moments = np.asarray(moments)
     otype = np.result_type(gf_tau, moments, poles)
     if weight is not None:
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_tau = gf_tau * weight
     if moments.shape[-1] > 0 or occ:  # constrained
         if moments.shape[-1] + (1 if occ else 0) > n_pole:
-- 
2.43.0


From dfc74cb542277af16df5253068a9398f5ca2b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 29/63] fix: gf_from_tau ignored the constraint occ=0

---
 gftool/basis/pole.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index cd4acfd..43a6013 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -644,15 +644,16 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     if weight is not None:
         gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_tau = gf_tau * weight
-    if moments.shape[-1] > 0 or occ:  # constrained
-        if moments.shape[-1] + (1 if occ else 0) > n_pole:
+    fix_occ = occ is not False  # an empty Green's function has `occ=0`
+    if moments.shape[-1] > 0 or fix_occ:  # constrained
+        if moments.shape[-1] + (1 if fix_occ else 0) > n_pole:
             msg = (
                 "Too many poles given, system is over constrained. "
                 f"poles: {n_pole}, moments: {moments.shape[-1]}"
             )
             raise ValueError(msg)
         constrain_mat = poles**np.arange(moments.shape[-1])[:, newaxis]
-        if occ:  # one additional constraint
+        if fix_occ:  # one additional constraint
             constrain_mat = np.concatenate(
                 [constrain_mat, fermi_fct(poles, beta=beta)[newaxis, :]], axis=-2
             )
-- 
2.43.0


From 8b454d59bbaffdf72f6cdc44c8e5f01182e74be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:21 +0000
Subject: [PATCH 30/63] fix: tt2z_lin for z=0 in stacked frequencies

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 839d472..39f5329 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1332,7 +1332,7 @@ def tt2z_lin(tt, gf_t, z):
     weight2 = (np.exp(izdt) - weight1)/izdt
     gf_z = delta_tt * (weight1*g_dft + weight2*dg_dft)
     if np.any(zero):
-        gf_z[..., zero] = _trapezoid(gf_t, x=tt)[..., np.newaxis]
+        gf_z = np.where(zero, _trapezoid(gf_t, x=tt)[..., np.newaxis], gf_z)
     return gf_z
 
 
-- 
2.43.0


From 4c6c11ad8b1b3aa8656dbd0383db9d68d4ffc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:21 +0000
Subject: [PATCH 31/63] fix: loss of significance in tt2z_lin for small
 frequencies

---
 gftool/fourier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 39f5329..19fbcbe 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1330,6 +1330,8 @@ def tt2z_lin(tt, gf_t, z):
     dg_dft = _gu_matvec(phase, gf_t[..., 1:] - gf_t[..., :-1])
     weight1 = np.expm1(izdt)/izdt
     weight2 = (np.exp(izdt) - weight1)/izdt
+    # Taylor expansion for small frequencies, where the difference cancels
+    weight2 = np.where(abs(izdt) < 1e-3, 0.5 + izdt*(1/3 + izdt*(1/8 + izdt/30)), weight2)
     gf_z = delta_tt * (weight1*g_dft + weight2*dg_dft)
     if np.any(zero):
         gf_z = np.where(zero, _trapezoid(gf_t, x=tt)[..., np.newaxis], gf_z)
-- 
2.43.0


From 9c58e3507e98183b745fa95cc6330899f1a040c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 32/63] fix: density for complex hermitian potential matrices

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index c7c85d1..3265ef5 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -455,7 +455,7 @@ def density(gf_iw, potential, beta, return_err=True, matrix=False, total=False):
         eig = dec.eig
         tail = dec.reconstruct(1./np.add.outer(iw, eig), kind="diag")
         tail = np.moveaxis(tail, source=0, destination=-1)
-        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag")
+        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag").real
     else:
         tail = 1/np.add.outer(potential, iw)
         analytic = fermi_fct(-potential, beta=beta)
-- 
2.43.0


From 786447790db9c918534125c87e77404995b4ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 33/63] fix: accept array_like hopping in beb as documented

---
 gftool/beb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/beb.py b/gftool/beb.py
index 94e556e..137beec 100644
--- a/gftool/beb.py
+++ b/gftool/beb.py
@@ -188,6 +188,7 @@ def gf_loc_z(z, self_beb_z, hopping, hilbert_trafo: Callable[[complex], complex]
     --------
     solve_root
     """
+    hopping = np.asarray(hopping)
     hopping_dec = SpecDec(*decompose_her(hopping))
     LOGGER.info('hopping singular values %s', hopping_dec.s)
     hopping_dec = hopping_dec.truncate(rcond)
@@ -370,6 +371,7 @@ def solve_root(z, e_onsite, concentration, hopping, hilbert_trafo: Callable[[com
     >>> __ = plt.legend()
     >>> plt.show()
     """
+    hopping = np.asarray(hopping)
     hopping_dec = SpecDec(*decompose_her(hopping))
     LOGGER.info('hopping singular values %s', hopping_dec.s)
     hopping_dec = hopping_dec.truncate(rcond)
-- 
2.43.0


From 3a36d83d5f1ac62db0afa2ced24179b8fa64126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:07 +0000
Subject: [PATCH 34/63] fix: accept and broadcast array_like on-site energies
 in gf_2x2_z

---
 gftool/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 3ef5030..e9da821 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -562,7 +562,8 @@ def gf_2x2_z(z, eps0, eps1, hopping, hilbert_trafo=None):
     -----
     For the trivial case `eps0==eps1 and hopping==0`, this implementation fails.
     """
-    mean_eps = np.mean([eps0, eps1], axis=0)
+    eps0, eps1 = np.asarray(eps0), np.asarray(eps1)
+    mean_eps = 0.5*(eps0 + eps1)
     sqrt_ = np.lib.scimath.sqrt(0.25*(eps0 - eps1)**2 + hopping*np.conj(hopping))
     if hilbert_trafo is None:
         gf_p, gf_m = 1./(z - mean_eps - sqrt_), 1./(z - mean_eps + sqrt_)
-- 
2.43.0


From bc38cb31ebe352f6b3a4d891056fd1796c6589f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:18 +0000
Subject: [PATCH 35/63] fix: pole-based Pade for functions without zeros

---
 gftool/polepade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 357e63f..2d2fe2a 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -343,6 +343,8 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
     """
     if n is None:
         n = poles.size - 1
+    if n == 0:  # constant numerator
+        return np.array([], dtype=complex)
     fct_z = fct_z/np.median(fct_z)
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
-- 
2.43.0


From 393739b73d959a8d997b91b40fae858d03865bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:13 +0000
Subject: [PATCH 36/63] fix: companion of stacked too short coefficients raises
 documented ValueError

---
 gftool/linearprediction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 8e63b21..4fbd670 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -139,7 +139,7 @@ def companion(a):
     Raises
     ------
     ValueError
-        If any of the following are true: a) ``a.size < 2``; b) ``a[0] == 0``.
+        If any of the following are true: a) ``a.shape[-1] < 2``; b) ``a[0] == 0``.
 
     Notes
     -----
@@ -152,7 +152,7 @@ def companion(a):
     """
     a = np.atleast_1d(a)
 
-    if a.size < 2:
+    if a.shape[-1] < 2:
         msg = "The length of `a` must be at least 2."
         raise ValueError(msg)
 
-- 
2.43.0


From 20314538b4c9249c86032c024fd6284d35990a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:55 +0000
Subject: [PATCH 37/63] fix: accept array_like matrix in orth_compl as
 documented

---
 gftool/linalg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index b0cb706..38589c5 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -40,6 +40,7 @@ def orth_compl(mat):
     >>> np.allclose(mat_perp@mat, 0)
     True
     """
+    mat = np.asarray(mat)
     dim0, dim1 = mat.shape[-2:]
     if dim0 <= dim1:
         msg = f"`mat` needs to be tall, (given: shape={mat.shape})"
-- 
2.43.0


From 1e5736a48d7e3a8a9ca3fbf5512afc5ef835c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:17 +0000
Subject: [PATCH 38/63] fix: accept array_like arguments in hubbard_I_self_z as
 documented

---
 gftool/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 3265ef5..81cdecb 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -282,8 +282,8 @@ def hubbard_I_self_z(z, U, occ):
     >>> __ = plt.plot(ww.real, -1./np.pi*gf_iw.imag)
     >>> plt.show()
     """
-    hartree = U * occ
-    return hartree * z / (z - U + hartree)
+    hartree = np.multiply(U, occ)
+    return hartree * z / (np.subtract(z, U) + hartree)
 
 
 def pole_gf_tau_b(tau, poles, weights, beta):
-- 
2.43.0


From 2e4447dfc50711a1b08b24b7bd26abc11e01c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:46 +0000
Subject: [PATCH 39/63] fix: bose_fct changed the global warning filters when
 called from several threads

---
 gftool/statistics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 530d989..9f92dbd 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -5,8 +5,6 @@ Per default, the functions refer to Fermi statistics,
 a tailing '_b' indicates Bose statistics instead.
 """
 
-from warnings import catch_warnings, filterwarnings
-
 import numpy as np
 from scipy import linalg
 from scipy.special import expit, logit
@@ -50,8 +48,7 @@ def bose_fct(eps, beta):
     res = np.empty_like(betaeps, dtype=np.result_type(betaeps, float))
     small = betaeps < 700
 
-    with catch_warnings():
-        filterwarnings("ignore", message="divide by zero encountered.*", category=RuntimeWarning)
+    with np.errstate(divide="ignore"):
         res[small] = 1./np.expm1(betaeps[small])
     # avoid overflows for big numbers using negative exponents
     res[~small] = -np.exp(-betaeps[~small])/np.expm1(-betaeps[~small])
-- 
2.43.0


From 71fbc6219afc91dde801067f1f4b1211fd565cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:18 +0000
Subject: [PATCH 40/63] fix: ZeroPole.to_ratpol without zeros or poles

---
 gftool/basis/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/__init__.py b/gftool/basis/__init__.py
index ab373d0..9278314 100644
--- a/gftool/basis/__init__.py
+++ b/gftool/basis/__init__.py
@@ -80,8 +80,9 @@ class ZeroPole(NamedTuple):
 
     def to_ratpol(self) -> "RatPol":
         """Represent the rational polynomial as fraction of two polynomial."""
-        numerator = np.polynomial.Polynomial.fromroots(self.zeros)*self.amplitude
-        denominator = np.polynomial.Polynomial.fromroots(self.poles)
+        polyfromroots = np.polynomial.polynomial.polyfromroots  # allows for empty roots
+        numerator = np.polynomial.Polynomial(polyfromroots(self.zeros))*self.amplitude
+        denominator = np.polynomial.Polynomial(polyfromroots(self.poles))
         return RatPol(numer=numerator, denom=denominator)
 
 
-- 
2.43.0


From a24e4a3feb2b353c8f4d23c1f5ab4132c41b6d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:10 +0000
Subject: [PATCH 41/63] fix: onedim.dos_mp raised ZeroDivisionError at the
 band-edges

---
 gftool/lattice/onedim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/lattice/onedim.py b/gftool/lattice/onedim.py
index 5fbcb92..5a4db87 100644
--- a/gftool/lattice/onedim.py
+++ b/gftool/lattice/onedim.py
@@ -267,4 +267,6 @@ def dos_mp(eps, half_bandwidth=1):
     if mp.fabs(eps) > half_bandwidth:
         return mp.mpf('0')
     eps_rel = eps / half_bandwidth
+    if mp.fabs(eps_rel) == 1:  # van Hove singularity at the band-edges
+        return mp.inf
     return mp.mpf('1') / (mp.pi * half_bandwidth * mp.sqrt(-mp.powm1(eps_rel, mp.mpf('2'))))
-- 
2.43.0


From 4e7dad137759173fe021cc9c74f6de5be1578283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:55 +0000
Subject: [PATCH 42/63] fix: fcc Green's function for frequencies far away from
 the band

---
 gftool/lattice/fcc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 535a3de..9ace300 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -86,7 +86,9 @@ def gf_z(z, half_bandwidth):
     m_p = 0.5*(1 + sum1 - sum2)  # eq. (2.11)
     m_m = 0.5*(1 - sum1 - sum2)  # eq. (2.11)
     kii = np.asarray(_u_ellipk(m_p))
-    kii[m_p.imag < 0] += 2j*_u_ellipk(1 - m_p[m_p.imag < 0])  # eq (2.17)
+    # outside of the band `m_p.imag >= 0`, far away its sign is merely round-off
+    plane = (m_p.imag < 0) & (abs(z) < 10)
+    kii[plane] += 2j*_u_ellipk(1 - m_p[plane])  # eq (2.17)
     gf = 4 / (np.pi**2 * D * zp1) * _u_ellipk(m_m) * kii  # eq (2.16)
     return np.where(retarded, np.conj(gf), gf)  # return to retarded by symmetry
 
-- 
2.43.0


From 4e0672d18781bb5d33fe33f400a05cea38bce697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:30 +0000
Subject: [PATCH 43/63] fix: keep phase of first time point in tt2z_lpz

---
 gftool/fourier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 19fbcbe..e404f51 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1488,7 +1488,8 @@ def tt2z_lpz(tt, gf_t, z, order=None, quad='trapz', **kwds):
     convo = np.moveaxis(convo, 0, -1)
     phase = _phase(z[..., newaxis], tt[newaxis, :order+1])
     numer = _gu_matvec(phase[..., :order], convo)
-    denom = _gu_matvec(phase, aa)
+    # the phase of the first time point has to survive in the ratio
+    denom = _gu_matvec(_phase(z[..., newaxis], tt[newaxis, :order+1] - tt[0]), aa)
     return numer / denom
 
 
-- 
2.43.0


From 24648785e142abd1ffda515174134c8a922bc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:20 +0000
Subject: [PATCH 44/63] fix: cancellation in simple cubic Green's function for
 small z

---
 gftool/lattice/sc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index 4e9b295..f37904f 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -68,10 +68,13 @@ def gf_z(z, half_bandwidth=1):
     D_inv = 3 / half_bandwidth
     z = D_inv * z
     z_sqr = z**-2
-    xi = sqrt(1 - sqrt(1 - z_sqr)) / sqrt(1 + sqrt(1 - 9*z_sqr))
+    root1, root9 = sqrt(1 - z_sqr), sqrt(1 - 9*z_sqr)
+    xi = sqrt(1 - root1) / sqrt(1 + root9)
     denom_inv = 1 / ((1 - xi)**3 * (1 + 3*xi))
     k2 = 16 * xi**3 * denom_inv
-    gf_z = (1 - 9*xi**4) * (2 / np.pi * _u_ellipk(k2))**2 * denom_inv / z
+    # `1 - 9*xi**4`, where the terms cancel for small `z`
+    prefactor = 2 * (root9 + 9*root1 - 8) / (1 + root9)**2
+    gf_z = prefactor * (2 / np.pi * _u_ellipk(k2))**2 * denom_inv / z
     return D_inv * gf_z
 
 
@@ -307,9 +310,12 @@ def gf_z_mp(z, half_bandwidth=1):
     D_inv = 3 / mp.mpf(half_bandwidth)
     z = D_inv * mp.mpc(z)
     z_sqr = 1 / z**2
-    xi = mp.sqrt(1 - mp.sqrt(1 - z_sqr)) / mp.sqrt(1 + mp.sqrt(1 - 9*z_sqr))
+    root1, root9 = mp.sqrt(1 - z_sqr), mp.sqrt(1 - 9*z_sqr)
+    xi = mp.sqrt(1 - root1) / mp.sqrt(1 + root9)
     k2 = 16 * xi**3 / ((1 - xi)**3 * (1 + 3*xi))
-    green = (1 - 9*xi**4) * (2 * mp.ellipk(k2) / mp.pi)**2 / ((1 - xi)**3 * (1 + 3*xi)) / z
+    # `1 - 9*xi**4`, where the terms cancel for small `z`
+    prefactor = 2 * (root9 + 9*root1 - 8) / (1 + root9)**2
+    green = prefactor * (2 * mp.ellipk(k2) / mp.pi)**2 / ((1 - xi)**3 * (1 + 3*xi)) / z
 
     return D_inv * green
 
-- 
2.43.0


From 52aabe2b2e93cad0eb584d0c3c7724a3eabb616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:34 +0000
Subject: [PATCH 45/63] fix: triangular Green's function for real frequencies

---
 gftool/lattice/triangular.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index 394051d..5b86a19 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -84,7 +84,11 @@ def gf_z(z, half_bandwidth):
     mm = kk**2
     K = np.asarray(_u_ellipk(mm))
     # eqs (2.22) and eq (2.18), fix correct plane
-    K[kk.imag > 0] += 2j*_u_ellipk(1 - mm[kk.imag > 0])
+    plane = kk.imag > 0
+    K_plane = np.asarray(_u_ellipk(1 - mm[plane]))
+    # for real `z` the retarded limit is above the branch cut of the elliptic integral
+    K_plane = np.where(mm[plane].imag == 0, np.conj(K_plane), K_plane)
+    K[plane] += 2j*K_plane
     gf_z = 1 / np.pi / D * gg * K  # eq (2.6)
     gf_z[singular] = 0 - 1j*np.inf
     return np.where(advanced, np.conj(gf_z), gf_z).reshape(shape)  # return to advanced by symmetry
-- 
2.43.0


From d61c0271dce11e918bb8dcf40d420c25fa19a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 46/63] fix: cancellation in box Green's function far from the
 band

---
 gftool/lattice/box.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gftool/lattice/box.py b/gftool/lattice/box.py
index 4450c64..ad5e71f 100644
--- a/gftool/lattice/box.py
+++ b/gftool/lattice/box.py
@@ -44,7 +44,10 @@ def gf_z(z, half_bandwidth):
     >>> plt.show()
     """
     z_rel = z / half_bandwidth
-    return 0.5 / half_bandwidth * np.emath.log((z_rel + 1) / (z_rel - 1))
+    far = abs(z_rel) > 2  # quotient approaches 1, we avoid the cancellation of the logarithm
+    gf_near = 0.5 * np.emath.log((z_rel + 1) / (z_rel - 1))
+    gf_far = np.arctanh(1 / np.where(far, z_rel, 2))
+    return np.where(far, gf_far, gf_near)[()] / half_bandwidth
 
 
 def dos(eps, half_bandwidth):
-- 
2.43.0


From d3cdddf0c5abde578d5a1bc19fa512e3a042c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 47/63] fix: density_error estimate is a bound also for
 negative or complex noisy data

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 81cdecb..41cc92a 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -512,7 +512,7 @@ def density_error(delta_gf_iw, iw_n, noisy=True):
     wn = iw_n[part].imag
     denominator = 1./np.pi/wn[-1]
     if noisy:
-        factor = np.average(delta_gf_iw[..., part] * wn**2, axis=-1)
+        factor = abs(np.average(delta_gf_iw.real[..., part] * wn**2, axis=-1))
     else:
         delta_gf_iw = abs(delta_gf_iw.real)
         factor = np.max(delta_gf_iw[..., part] * wn**2, axis=-1)
-- 
2.43.0


From 4723291c5c4890fffa87097993e517b1c1f13c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:51 +0000
Subject: [PATCH 48/63] fix: lstsq_ec minimizes also for redundant constraints

The fallback for an exactly singular triangular factor fixed all components
instead of the independent ones, the result was feasible but not minimal.
---
 gftool/linalg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index 38589c5..48a945f 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -100,10 +100,11 @@ def lstsq_ec(a, b, c, d, rcond=None):
     r_ct = r_ct[..., :constrains, :]
     try:
         y = spla.solve_triangular(r_ct, d, trans='C')
-    except np.linalg.LinAlgError as lin_err:  # try fall back to pseudo-inverse for singular values
-        y, err, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
-        if not np.allclose(err, 0):
-            raise np.linalg.LinAlgError from lin_err
+    except np.linalg.LinAlgError:  # fall back to pseudo-inverse for singular values
+        # only the independent combinations are fixed, the remaining ones are free for the minimization
+        u_mat, sv, vh_mat = np.linalg.svd(c)
+        constrains = np.count_nonzero(sv > np.finfo(sv.dtype).eps*max(c.shape)*sv[0])
+        q_ct, y = transpose(vh_mat).conj(), transpose(u_mat).conj()[:constrains] @ d / sv[:constrains]
     aq = a @ q_ct
     z = np.linalg.lstsq(aq[:, constrains:], b - _gu_sum(aq[:, :constrains]*y),
                         rcond=rcond)[0]
-- 
2.43.0


From 0cd39c3b109c6c5953cbf5a9b0957429f8c1fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 49/63] fix: equidistance check of Laplace transforms is
 independent of the unit of time

---
 gftool/fourier.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index e404f51..c1486cb 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -116,6 +116,13 @@ def _phase_numpy(z, tt):
 _phase = _phase_numexpr if _HAS_NUMEXPR else _phase_numpy
 
 
+def _is_equidistant(tt) -> bool:
+    """Check if grid `tt` is equidistant up to rounding, independent of the unit of time."""
+    delta_tt = tt[1] - tt[0]
+    tol = 1e-8*abs(delta_tt) + 4*np.finfo(float).eps*np.max(abs(tt))
+    return np.allclose(tt[1:] - tt[:-1], delta_tt, atol=tol)
+
+
 def iw2tau_dft(gf_iw, beta):
     r"""
     Discrete Fourier transform of the Hermitian Green's function `gf_iw`.
@@ -1318,7 +1325,7 @@ def tt2z_lin(tt, gf_t, z):
        http://www.sam.math.ethz.ch/~hiptmair/Seminars/OSCINT/INO06.pdf
     """
     delta_tt = tt[1] - tt[0]
-    if not np.allclose(tt[1:] - tt[:-1], delta_tt):
+    if not _is_equidistant(tt):
         msg = "Equidistant `tt` required for current implementation."
         raise ValueError(msg)
     zero = z == 0  # special case `z=0` has to be handled separately (due: 1/z)
@@ -1386,7 +1393,7 @@ def tt2z_pade(tt, gf_t, z, degree=-1, pade=pade, quad='trapz', **kwds):
     """
     degree = degree + 1  # adding an additional zero reduces discretization error
     delta_tt = tt[1] - tt[0]
-    if not np.allclose(tt[1:] - tt[:-1], delta_tt):
+    if not _is_equidistant(tt):
         msg = "Equidistant `tt` required for current implementation."
         raise ValueError(msg)
     if quad not in ('trapz', 'simps'):
@@ -1449,7 +1456,7 @@ def tt2z_herm2(tt, gf_t, z, herm2=Hermite2.from_taylor, quad='trapz', **kwds):
     tt2z_lin : Laplace integration using Filon's method.
     """
     delta_tt = tt[1] - tt[0]
-    if not np.allclose(tt[1:] - tt[:-1], delta_tt):
+    if not _is_equidistant(tt):
         msg = "Equidistant `tt` required for current implementation."
         raise ValueError(msg)
     if quad not in ('trapz', 'simps'):
@@ -1472,7 +1479,7 @@ def tt2z_herm2(tt, gf_t, z, herm2=Hermite2.from_taylor, quad='trapz', **kwds):
 def tt2z_lpz(tt, gf_t, z, order=None, quad='trapz', **kwds):
     """Linear prediction Z-transform of the real-time Green's function `gf_t`."""
     delta_tt = tt[1] - tt[0]
-    if not np.allclose(tt[1:] - tt[:-1], delta_tt):
+    if not _is_equidistant(tt):
         msg = "Equidistant `tt` required for current implementation."
         raise ValueError(msg)
     if order is None:
-- 
2.43.0


From a26cf6d81f54dd0351ee4021765b226c121aab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 50/63] fix: loss of precision in tau2iv_dft for low
 temperatures

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index c1486cb..e1c3359 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -469,7 +469,7 @@ def tau2iv_dft(gf_tau, beta):
     >>> plt.show()
     """
     gf_mean = _trapezoid(gf_tau, dx=beta/(gf_tau.shape[-1]-1), axis=-1)
-    gf_iv = beta * np.fft.ihfft(gf_tau[..., :-1] - gf_mean[..., newaxis])
+    gf_iv = beta * np.fft.ihfft(gf_tau[..., :-1] - gf_mean[..., newaxis]/beta)
     gf_iv[..., 0] = gf_mean
     # gives better results in practice but is wrong...
     # gf_iv = beta * np.fft.ihfft(.5*(gf_tau[..., 1:] + gf_tau[..., :-1]))
-- 
2.43.0


From 5586cbabdc51d2b3b4d23b8348e73fca446271c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 51/63] fix: rounding errors of large matrices are not refused
 as asymmetry

---
 gftool/matrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index e9da821..4202ab1 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -377,7 +377,8 @@ def decompose_sym(sym_mat, check=True) -> Decomposition:
     >>> np.allclose(sym_mat, dec.reconstruct())
     True
     """
-    if check and not np.allclose(sym_mat - transpose(sym_mat), 0):
+    tol = 1e-8*max(1, np.max(abs(sym_mat), initial=0))
+    if check and not np.allclose(sym_mat - transpose(sym_mat), 0, atol=tol):
         msg = "Matrix `sym_mat` is not symmetric."
         raise ValueError(msg)
     h, rv = np.linalg.eig(sym_mat)
@@ -441,7 +442,8 @@ def decompose_her(her_mat, check=True) -> UDecomposition:
     >>> np.allclose(her_mat, dec.reconstruct())
     True
     """
-    if check and not np.allclose(her_mat - transpose(her_mat.conj()), 0):
+    tol = 1e-8*max(1, np.max(abs(her_mat), initial=0))
+    if check and not np.allclose(her_mat - transpose(her_mat.conj()), 0, atol=tol):
         msg = "Matrix `her_mat` is not Hermitian."
         raise ValueError(msg)
     eig, vec = np.linalg.eigh(her_mat)
-- 
2.43.0


From 84bfa52db0e7c10d5bfd33076caea028e59e59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:54 +0000
Subject: [PATCH 52/63] fix: linear prediction of integer series truncated to
 integers

---
 gftool/linearprediction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 4fbd670..0199905 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -270,6 +270,7 @@ def pcoeff_burg(x, order: int):
     .. [Kay1988] Kay, S.M., 1988. Modern spectral estimation:
        theory and application. Pearson Education India.
     """
+    x = x.astype(np.result_type(x, 1.0), copy=False)  # coefficients are no integers
     N = x.shape[-1]
     rho = np.full([*x.shape[:-1], order+1], np.nan)
     rho[..., 0] = _gu_sum(abs(x)**2) / N
@@ -338,7 +339,8 @@ def predict(x, pcoeff, num: int, stable=False):
     # Naive implementation of the sum
     start = x.shape[-1]
     order = pcoeff.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff, 1.0)
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         xtended[..., ii] = -_gu_sum(pcoeff[..., ::-1] * xtended[..., ii-order:ii])
     return xtended
@@ -368,7 +370,8 @@ def _predict_stable(x, pcoeff, num: int):
 
     # predict
     start = x.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff, 1.0)
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         residues *= dec.eig
         xtended[..., ii] = _gu_sum(residues)
-- 
2.43.0


From 495d87b47f3a40a12b792f95ff478c2054725a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 53/63] fix: pole-based Pade for symmetric data, whose median
 vanishes

---
 gftool/polepade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 2d2fe2a..ee7f00e 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -289,7 +289,7 @@ def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvan
     """
     if n is None:
         n = m - 1
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     vander = vandermond(z, deg=max(n+1, m))
     numer = -vander[..., :n+1]
     denom = vander[..., :m]
@@ -345,7 +345,7 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
         n = poles.size - 1
     if n == 0:  # constant numerator
         return np.array([], dtype=complex)
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
     scaling = 1./np.linalg.norm(numer, axis=-1, keepdims=True)
-- 
2.43.0


From acfd8ee7f5fbf48088a9c822c23c6d081981c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:21 +0000
Subject: [PATCH 54/63] fix: FilterNegImagNum kept also the bad approximants of
 batched functions

The indices of the best approximants were applied to every function,
instead of the function they belong to.
---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index c9f678b..ff8a67a 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -179,7 +179,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
         keep = np.argsort(badness, axis=0)[:abs_num_]  # abs_num_ best results
         is_valid = np.zeros_like(badness, dtype=bool)
-        is_valid[keep] = True
+        np.put_along_axis(is_valid, keep, True, axis=0)
         is_valid[badness <= 0] = True
         LOGGER.debug("Filter Padés with positive imaginary part (keep best %s): %s",
                      abs_num_, np.count_nonzero(is_valid, axis=0))
-- 
2.43.0


From d764e475ce9076972799a59f7041e77b1e637d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:21 +0000
Subject: [PATCH 55/63] fix: FilterHighVariance rejected all approximants of
 batched functions

The ranking of the approximants of different functions was mixed up.
---
 gftool/pade.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gftool/pade.py b/gftool/pade.py
index ff8a67a..20d059d 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -226,6 +226,10 @@ def FilterHighVariance(rel_num: Opt[float] = None, abs_num: Opt[int] = None):
             Boolean array indicating which continuations to keep.
         """
         pade = np.array(list(pade_iter))
+        if pade.ndim > 2:  # every function is filtered on its own
+            flat = np.moveaxis(pade, 0, -2).reshape(-1, pade.shape[0], pade.shape[-1])
+            is_valid = np.array([filter_high_variance(pade_ii) for pade_ii in flat])
+            return np.moveaxis(is_valid.reshape(*pade.shape[1:-1], -1), -1, 0)
         pade_sum = np.sum(pade, axis=0)
         N_pades = pade.shape[0]
         # iteratively remove Padés with larges deviation
-- 
2.43.0


From a0e821b20d1a29e074fc80523af2327281ef772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:32 +0000
Subject: [PATCH 56/63] fix: gf_2x2_z for uncoupled sites with equal energies
 returned NaN

---
 gftool/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 4202ab1..23ab2fe 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -571,6 +571,8 @@ def gf_2x2_z(z, eps0, eps1, hopping, hilbert_trafo=None):
         gf_p, gf_m = 1./(z - mean_eps - sqrt_), 1./(z - mean_eps + sqrt_)
     else:
         gf_p, gf_m = hilbert_trafo(z - mean_eps - sqrt_), hilbert_trafo(z - mean_eps + sqrt_)
+    # uncoupled sites with equal energies: `gf_p == gf_m`, weights have to add up to 1
+    sqrt_ = np.where(sqrt_ == 0, 1, sqrt_)
     gf0 = 0.5 / sqrt_ * ((eps0 - mean_eps + sqrt_)*gf_p - (eps0 - mean_eps - sqrt_)*gf_m)
     gf1 = 0.5 / sqrt_ * ((eps1 - mean_eps + sqrt_)*gf_p - (eps1 - mean_eps - sqrt_)*gf_m)
     return np.stack([gf0, gf1], axis=-1)
-- 
2.43.0


From 6bc6477afa3ab35c6f3c858bd74f6214c3752a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:32 +0000
Subject: [PATCH 57/63] fix: hubbard_dimer_gf_z without hopping and interaction
 divided by zero

---
 gftool/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 41cc92a..48d1f0f 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -240,6 +240,7 @@ def hubbard_dimer_gf_z(z, hopping, interaction, kind="+"):
     U = interaction
     W = (0.25*U*U + 4*t*t)**0.5
     E_0 = 0.5*U - W
+    W = np.where(W == 0, 1, W)  # `t=U=0`: the poles coincide, weights have to add up to 1
     gf_z = (0.5 + s*t/W) / (z - (E_0 + s*t))
     gf_z += (0.5 - s*t/W) / (z - (U + s*t - E_0))
     return gf_z
-- 
2.43.0


From 59ee8f0a8a0257c5ab1b86efbe92ab05cbbadea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:32 +0000
Subject: [PATCH 58/63] fix: pcoeff_burg returned NaN if the series is
 predicted exactly by a lower order

The prediction error vanishes, e.g. for a constant or alternating series.
---
 gftool/linearprediction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 0199905..95ceebb 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -286,7 +286,8 @@ def pcoeff_burg(x, order: int):
         # else:
         denom = _gu_sum(abs(eforw)**2) + _gu_sum(abs(eback)**2)
         # eq (7.40)
-        kk = a[..., k-1, k-1] = numer / denom
+        # no prediction error left: `denom` and `numer` vanish
+        kk = a[..., k-1, k-1] = numer / np.where(denom == 0, 1, denom)
         rho[..., k] = (1.0 - abs(kk)**2) * rho[..., k-1]
         kk = kk[..., np.newaxis]
         if k > 1:
-- 
2.43.0


From 137b087aff241755413d87c7a9fd273d853f42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:46 +0000
Subject: [PATCH 59/63] =?UTF-8?q?fix:=20quadratic=20Hermite-Pad=C3=A9=20ap?=
 =?UTF-8?q?proximants=20where=20the=20leading=20polynomial=20vanishes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

One of the branches remains finite, but both were NaN.
---
 gftool/hermpade.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 20e6820..c8e5c84 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -723,12 +723,13 @@ class _Hermite2Base:
         """Evaluate the two branches."""
         pz, qz, rz = self.p(z), self.q(z), self.r(z)
         discriminant = np.emath.sqrt(qz**2 - 4*pz*rz)
-        p_branch = np.asarray(0.5*(-qz + discriminant) / rz)
-        m_branch = np.asarray(0.5*(-qz - discriminant) / rz)
+        p_numer, m_numer = 0.5*(-qz + discriminant), 0.5*(-qz - discriminant)
+        with np.errstate(divide='ignore', invalid='ignore'):  # one branch is finite for `rz=0`
+            p_branch, m_branch = np.asarray(p_numer / rz), np.asarray(m_numer / rz)
         # more stable calculation of branches, using `out` for lazy evaluation
         # see [fasondini2019]_, 5.2 Evaluating the quadratic formula
-        np.divide(pz, rz*m_branch, out=p_branch, where=abs(p_branch) < abs(m_branch))
-        np.divide(pz, rz*p_branch, out=m_branch, where=abs(m_branch) < abs(p_branch))
+        np.divide(pz, m_numer, out=p_branch, where=abs(p_numer) < abs(m_numer))
+        np.divide(pz, p_numer, out=m_branch, where=abs(m_numer) < abs(p_numer))
         return p_branch, m_branch
 
 
-- 
2.43.0


From 6874b4ad403c62ddc12becbb1b57ca47c10d9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:27 +0000
Subject: [PATCH 60/63] fix: powers of integers overflowed in moments of poles

---
 gftool/basis/pole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 43a6013..0d5330a 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -441,7 +441,7 @@ def moments(poles, weights, order):
     """
     poles, weights = np.atleast_1d(*np.broadcast_arrays(poles, weights))
     order = np.asarray(order)[..., newaxis]
-    return _gu_sum(weights[..., newaxis, :] * poles[..., newaxis, :]**(order-1))
+    return _gu_sum(weights[..., newaxis, :] * (1.0*poles[..., newaxis, :])**(order-1))
 
 
 def gf_from_moments(moments, width=1.) -> PoleFct:
-- 
2.43.0


From e9bd32263b7169ccf5809e8d5250e4c627293dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:27 +0000
Subject: [PATCH 61/63] fix: powers of NumPy integer half-bandwidths overflowed

dos_moment of all lattices, and derivatives of the Bethe Green's function.
---
 gftool/lattice/bcc.py        | 2 +-
 gftool/lattice/bethe.py      | 4 +++-
 gftool/lattice/box.py        | 2 +-
 gftool/lattice/fcc.py        | 2 +-
 gftool/lattice/honeycomb.py  | 2 +-
 gftool/lattice/kagome.py     | 2 +-
 gftool/lattice/lieb.py       | 2 +-
 gftool/lattice/onedim.py     | 2 +-
 gftool/lattice/sc.py         | 2 +-
 gftool/lattice/square.py     | 2 +-
 gftool/lattice/triangular.py | 2 +-
 11 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/gftool/lattice/bcc.py b/gftool/lattice/bcc.py
index bd8dc16..ace2c9f 100644
--- a/gftool/lattice/bcc.py
+++ b/gftool/lattice/bcc.py
@@ -208,7 +208,7 @@ def dos_moment(m, half_bandwidth):
     if m % 2:  # odd moments vanish due to symmetry
         return 0
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index a38a69e..e951711 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -92,6 +92,7 @@ def gf_d1_z(z, half_bandwidth):
     --------
     gftool.lattice.bethe.gf_z
     """
+    half_bandwidth = 1.0*half_bandwidth  # powers of integers can overflow
     z_rel_inv = np.array(half_bandwidth / z, dtype=_complex256)
     try:
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
@@ -124,6 +125,7 @@ def gf_d2_z(z, half_bandwidth):
     --------
     gftool.lattice.bethe.gf_z
     """
+    half_bandwidth = 1.0*half_bandwidth  # powers of integers can overflow
     z_rel = np.array(z / half_bandwidth, dtype=_complex256)
     try:
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
@@ -307,7 +309,7 @@ def dos_moment(m, half_bandwidth):
     if m % 2:  # odd moments vanish due to symmetry
         return 0
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/box.py b/gftool/lattice/box.py
index ad5e71f..18e5d9f 100644
--- a/gftool/lattice/box.py
+++ b/gftool/lattice/box.py
@@ -107,7 +107,7 @@ def dos_moment(m, half_bandwidth):
     """
     if m % 2:  # odd moments vanish due to symmetry
         return 0
-    return half_bandwidth**m / (m + 1)
+    return (1.0*half_bandwidth)**m / (m + 1)
 
 
 def gf_ret_t(tt, half_bandwidth, center=0):
diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 9ace300..dd411fa 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -244,7 +244,7 @@ def dos_moment(m, half_bandwidth):
     gftool.lattice.fcc.dos
     """
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/honeycomb.py b/gftool/lattice/honeycomb.py
index 06f7e27..dab87c4 100644
--- a/gftool/lattice/honeycomb.py
+++ b/gftool/lattice/honeycomb.py
@@ -207,7 +207,7 @@ def dos_moment(m, half_bandwidth):
     if m % 2:  # odd moments vanish due to symmetry
         return 0
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/kagome.py b/gftool/lattice/kagome.py
index 9754001..a336c1a 100644
--- a/gftool/lattice/kagome.py
+++ b/gftool/lattice/kagome.py
@@ -238,7 +238,7 @@ def dos_moment(m, half_bandwidth):
     gftool.lattice.kagome.dos
     """
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/lieb.py b/gftool/lattice/lieb.py
index b27c430..93f0015 100644
--- a/gftool/lattice/lieb.py
+++ b/gftool/lattice/lieb.py
@@ -214,7 +214,7 @@ def dos_moment(m, half_bandwidth):
     if m % 2:  # odd moments vanish due to symmetry
         return 0
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/onedim.py b/gftool/lattice/onedim.py
index 5a4db87..9ca6c85 100644
--- a/gftool/lattice/onedim.py
+++ b/gftool/lattice/onedim.py
@@ -197,7 +197,7 @@ def dos_moment(m, half_bandwidth):
     if m % 2:  # odd moments vanish due to symmetry
         return 0
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index f37904f..0227556 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -254,7 +254,7 @@ def dos_moment(m, half_bandwidth):
     if m % 2:  # odd moments vanish due to symmetry
         return 0
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/square.py b/gftool/lattice/square.py
index 8b18f84..1eb212c 100644
--- a/gftool/lattice/square.py
+++ b/gftool/lattice/square.py
@@ -202,7 +202,7 @@ def dos_moment(m, half_bandwidth):
     if m % 2:  # odd moments vanish due to symmetry
         return 0
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index 5b86a19..db40618 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -255,7 +255,7 @@ def dos_moment(m, half_bandwidth):
     gftool.lattice.triangular.dos
     """
     try:
-        return dos_moment_coefficients[m] * half_bandwidth**m
+        return dos_moment_coefficients[m] * (1.0*half_bandwidth)**m
     except KeyError as keyerr:
         msg = 'Calculation of arbitrary moments not implemented.'
         raise NotImplementedError(msg) from keyerr
-- 
2.43.0


From bc2e987844080ff4a6b98769fe93feaf22127f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 62/63] fix: number_poles looped forever for degree > 0

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index ee7f00e..1a053b1 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -251,7 +251,7 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
             n_poles = min(2*n_poles, max_n_poles)
         else:  # already too many poles
             max_n_poles = n_poles - 1
-            n_poles = n_poles - (null_dim - degree)//2
+            n_poles = n_poles - max((null_dim - degree)//2, 1)  # always decreases, also for `degree > 0`
 
 
 def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvander, weight=None):
-- 
2.43.0


From 1545a97fe021ce655e4c65a09df1bec074e844d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 63/63] fix: degenerate real symmetric matrices have no
 singular eigenvectors

---
 gftool/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 23ab2fe..3191f4f 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -381,6 +381,9 @@ def decompose_sym(sym_mat, check=True) -> Decomposition:
     if check and not np.allclose(sym_mat - transpose(sym_mat), 0, atol=tol):
         msg = "Matrix `sym_mat` is not symmetric."
         raise ValueError(msg)
+    if np.isrealobj(sym_mat):  # real symmetric: orthogonal eigenvectors even if eigenvalues are degenerate
+        h, rv = np.linalg.eigh(0.5*sym_mat + 0.5*transpose(sym_mat))
+        return Decomposition(rv=rv, eig=h, rv_inv=transpose(rv).copy())
     h, rv = np.linalg.eig(sym_mat)
     # improve coordination number for complex symmetric matrices, rv_scaled is orthogonal
     rv *= np.sum(rv**2, axis=-2, keepdims=True)**-0.5
-- 
2.43.0

