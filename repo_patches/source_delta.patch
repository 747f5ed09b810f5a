From 86abc077fd99ceecb036bbdbd0b91f344e5770cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:40 +0000
Subject: [PATCH 1/5] fix: scaling coefficients have the documented shape when
 their bandlimit is 1

---
 s2wav/transforms/wavelet.py                  | 3 ++-
 s2wav/transforms/wavelet_c.py                | 3 ++-
 s2wav/transforms/wavelet_precompute.py       | 3 ++-
 s2wav/transforms/wavelet_precompute_torch.py | 4 +++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..d9d1211 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,8 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)) * jnp.ones(shape)
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..53f356c 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,8 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling.lower(), None, True)
+        f_scal = flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)) * jnp.ones(shape)
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..a5f7aed 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,8 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)) * jnp.ones(shape)
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..71f0a2a 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,9 +201,11 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * torch.sqrt(
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = temp[0, 0] * torch.sqrt(
             torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
         )
+        f_scal = f_scal * torch.ones(shape, dtype=torch.float64)
     else:
         f_scal = spherical.inverse_transform_torch(
             temp, precomps[1], Ls, sampling, reality, spin, nside
-- 
2.43.0


From 0d389751aed7b30e0dda3333b1b12690cded7dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:40 +0000
Subject: [PATCH 2/5] fix: precompute flm_to_analysis picks the kernel of its
 own scale when J_max is given

---
 s2wav/transforms/wavelet_precompute.py       | 2 +-
 s2wav/transforms/wavelet_precompute_torch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a5f7aed..c2d8d42 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -304,7 +304,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 71f0a2a..8a3bade 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -285,7 +285,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From 10eb340b7697c62e9e20d33fa97419f57ce3d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:26 +0000
Subject: [PATCH 3/5] fix: every synthesis refuses coefficients of the wrong
 shape instead of using part of them

---
 s2wav/transforms/wavelet.py                  | 6 ++++++
 s2wav/transforms/wavelet_c.py                | 5 +++++
 s2wav/transforms/wavelet_precompute.py       | 3 +++
 s2wav/transforms/wavelet_precompute_torch.py | 3 +++
 4 files changed, 17 insertions(+)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index d9d1211..210c47d 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -59,6 +59,9 @@ def synthesis(
         precomps (List[jnp.ndarray]): Precomputed list of recursion coefficients. At most
             of length :math:`L^2`, which is a minimal memory overhead.
 
+    Raises:
+        AssertionError: Shape of wavelet/scaling coefficients incorrect.
+
     Returns:
         jnp.ndarray: Signal :math:`f` on the sphere with shape :math:`[n_{\theta}, n_{\phi}]`.
 
@@ -71,6 +74,9 @@ def synthesis(
             L, N, J_min, lam, sampling, nside, True, reality
         )
 
+    samples.wavelet_shape_check(
+        f_wav, f_scal, L, N, J_min, lam, sampling, nside, True
+    )
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = jnp.zeros((L, 2 * L - 1), dtype=jnp.complex128)
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 53f356c..af92d91 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -53,6 +53,8 @@ def synthesis(
     Raises:
         ValueError: If healpix sampling is provided to SSHT C backend.
 
+        AssertionError: Shape of wavelet/scaling coefficients incorrect.
+
     Returns:
         jnp.ndarray: Signal :math:`f` on the sphere with shape :math:`[n_{\theta}, n_{\phi}]`.
 
@@ -64,6 +66,9 @@ def synthesis(
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
 
+    samples.wavelet_shape_check(
+        f_wav, f_scal, L, N, J_min, lam, sampling.lower(), None, True
+    )
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index c2d8d42..1ee18f5 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -71,6 +71,9 @@ def synthesis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    samples.wavelet_shape_check(
+        f_wav, f_scal, L, N, J_min, lam, sampling, nside, True
+    )
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = jnp.zeros((L, 2 * L - 1), dtype=jnp.complex128)
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 8a3bade..2619f45 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -68,6 +68,9 @@ def synthesis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    samples.wavelet_shape_check(
+        f_wav, f_scal, L, N, J_min, lam, sampling, nside, True
+    )
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = torch.zeros((L, 2 * L - 1), dtype=torch.complex128)
-- 
2.43.0


From f7989df35bc48e748cf418cd61845df1ac77cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 4/5] fix: coefficient shapes are checked under python -O too

---
 s2wav/samples.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..fdf1165 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -618,14 +618,18 @@ def wavelet_shape_check(
         multiresolution (bool, optional): Whether to store the scales at :math:`j_{\text{max}}`
             resolution or its own resolution. Defaults to False.
     """
-    assert len(f_w) == n_wav_scales(L, N, J_min, lam)
-    assert f_s.shape == f_scal(L, J_min, lam, sampling, nside, multiresolution)
+    # Raised explicitly, as assert statements are disabled by python -O.
+    if len(f_w) != n_wav_scales(L, N, J_min, lam):
+        raise AssertionError("Number of wavelet scales incorrect.")
+    if f_s.shape != f_scal(L, J_min, lam, sampling, nside, multiresolution):
+        raise AssertionError("Shape of scaling coefficients incorrect.")
 
     J = j_max(L, lam)
     for j in range(J_min, J + 1):
-        assert f_w[j - J_min].shape == f_wav_j(
+        if f_w[j - J_min].shape != f_wav_j(
             L, j, N, lam, sampling, nside, multiresolution
-        )
+        ):
+            raise AssertionError(f"Shape of wavelet coefficients incorrect at j={j}.")
 
 
 def binomial_coefficient(n: int, k: int) -> int:
-- 
2.43.0


From 1c52fc8b310140c6ef8e534c3693ebe4491b78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 5/5] fix: highest scale of a non-dyadic tiling may lie above
 the bandlimit

For lam such as 1.5 the highest wavelet scale can start at or above L, where
its filter is empty. LN_j then returned L0j >= Lj, which every transform passed
to s2fft, and analysis and synthesis failed for a valid configuration.
---
 s2wav/samples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index fdf1165..4bee24a 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,8 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    # The highest scale of a non-dyadic tiling can lie entirely above the bandlimit.
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0

