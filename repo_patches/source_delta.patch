From 4ecf535173fd39d835d793f43e7fa29a1eccec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 01/20] fix: perimeter wetting compares the new point with the
 mixed layer of the cast being wetted

bfs_conncomp1_wet_perim found the neutral link p_ on the dry cast m, but
compared it with the mixed layer pressure of the neighbour n, so casts could
be wetted inside their own mixed layer.
---
 neutralocean/bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 728f9e1..8cd3cf9 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -336,7 +336,7 @@ def bfs_conncomp1_wet_perim(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
                         )
 
-                        if np.isfinite(p_) and p_ > p_ml[n]:
+                        if np.isfinite(p_) and p_ > p_ml[m]:
                             # The NTP connection was successful, and its location
                             # on the neighbouring cast is below the mixed layer.
                             p0 += p_
-- 
2.43.0


From 31950cb30fea355f2772535ee4579d3fab1c1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:11 +0000
Subject: [PATCH 02/20] fix: Veronis density no longer calls np.trapz, which
 numpy 2.4+ removed

---
 neutralocean/label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..e960afb 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,7 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+    return np.sum(0.5 * (y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1]))
 
 
 # TODO
-- 
2.43.0


From aa578bbc90b1f17d4dc70ad249b91c7d9cfe4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:11 +0000
Subject: [PATCH 03/20] fix: diff_1d_samesize no longer reads one past the end
 of its input

---
 neutralocean/ppinterp/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..158c970 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,9 +11,9 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    d[-1:] = np.nan
     return d
 
 
-- 
2.43.0


From 43395873ae0b1bfa55dd27a10666b50083dd6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:52 +0000
Subject: [PATCH 04/20] fix: graph.build_grid accepts sparse distance matrices,
 as documented

---
 neutralocean/grid/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..624d7ed 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -261,7 +261,7 @@ def sym_structure(A):
 
 def triu_if_sym(A):
     """Return upper triangle matrix if symmetric"""
-    if issymmetric(A):
+    if (A != A.T).nnz == 0 if issparse(A) else issymmetric(A):
         return triu(A)
     else:
         return A
-- 
2.43.0


From 170ab646939d8e9c344adcdaafd52288e37717a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:37 +0000
Subject: [PATCH 05/20] fix: tripolar.build_grid accepts padded (nj+1, ni+2)
 distances, as documented

---
 neutralocean/grid/tripolar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..842fd8f 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -145,12 +145,12 @@ def _build_edgedata(dims, data):
 
     nj, ni = dims
     v, u = data
-    v = np.broadcast_to(v, dims)
-    u = np.broadcast_to(u, dims)
-    if v.shape == (nj + 1, ni + 2):
+    if np.shape(v) == (nj + 1, ni + 2):
         v = v[:-1, 1:-1]
-    if u.shape == (nj + 1, ni + 2):
+    if np.shape(u) == (nj + 1, ni + 2):
         u = u[:-1, 1:-1]
+    v = np.broadcast_to(v, dims)
+    u = np.broadcast_to(u, dims)
 
     return np.concatenate((v.reshape(-1), u.reshape(-1)))
 
-- 
2.43.0


From 40b68fb99966818ec9e18db65c49bf3d05e1e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:42 +0000
Subject: [PATCH 06/20] fix: neutral_trajectory does not read out of bounds
 when the first cast has fewer than two valid data

---
 neutralocean/traj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index 49c5c1d..a29d690 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -276,6 +276,8 @@ def neutral_trajectory(
         k, K = valid_range_1_two(Sc, Pc)
 
         if c == 0:
+            if K - k <= 1:
+                break  # not enough valid data to interpolate the first cast
             # Evaluate S and T on first cast at p0
             Sppc = ppc_fn(Pc[k:K], Sc[k:K])
             Tppc = ppc_fn(Pc[k:K], Tc[k:K])
-- 
2.43.0


From 01c23a9de48374db80f999e1f3b04873dfb5c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 07/20] fix: missing dist and distperp of a grid default to
 1.0, as documented

---
 neutralocean/ntp.py           | 8 +++++---
 neutralocean/surface/omega.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a6b9869..c8aaa9f 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -108,7 +108,9 @@ def ntp_epsilon_errors_norms(
     # The actual distances will be handled in computing the norms
     e = ntp_epsilon_errors(s, t, p, {"edges": grid["edges"]}, eos_s_t)
 
-    area = grid["dist"] * grid["distperp"]  # Area [m^2] centred on edges
+    dist = grid.get("dist", 1.0)
+    distperp = grid.get("distperp", 1.0)
+    area = dist * distperp  # Area [m^2] centred on edges
 
 
     # L2 norm of vector [a_i], weighted by vector [w_i], is sqrt( sum( w_i * a_i^2 ) / sum( w_i ) )
@@ -124,8 +126,8 @@ def ntp_epsilon_errors_norms(
     #     area / dist^2 = distperp / dist,
     # and the numerator of L1 norm needs to multiply epsilon by
     #     area ./ dist = distperp.
-    e_RMS = np.sqrt(np.nansum(grid["distperp"] / grid["dist"] * e**2) / denom)
-    e_MAV = np.nansum(grid["distperp"] * abs(e)) / denom
+    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)
+    e_MAV = np.nansum(distperp * abs(e)) / denom
 
     return e_RMS, e_MAV
 
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..db730c9 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -241,7 +241,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         pin_c = np.ravel_multi_index(pin_c, surf_shape)
 
     # Prepare grid ratios for matrix problem.
-    distratio = grid["distperp"] / grid["dist"]
+    distratio = grid.get("distperp", 1.0) / grid.get("dist", 1.0)
 
     # Pre-compute mixed layer
     if isinstance(p_ml, dict):
-- 
2.43.0


From adfc1671d7c8fe6fdfe9b8c5c2a8d9c5600fda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 08/20] fix: omega_surf keeps the last iteration in every
 diagnostic

---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index db730c9..4cd6cb4 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -463,7 +463,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From 0a13e6396ec4fcdad08abcf628a47e996feed214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 09/20] fix: omega_surf with ITER_MAX = 0 returns the initial
 surface instead of raising

---
 neutralocean/surface/omega.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 4cd6cb4..0f7e750 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -374,6 +374,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     # --- Begin iterations
     # Note: the surface exists wherever p is non-nan.  The nan structure of s
     # and t is made to match that of p when the vertical solve step is done.
+    iter_ = 0  # ensure this is defined; needed if ITER_MAX == 0
     Δp_RMS = 0.0  # ensure this is defined; needed if TOL_P_CHANGE_RMS == 0
     for iter_ in range(1, ITER_MAX + 1):
         timer = time()
-- 
2.43.0


From 0e716d572db12b61e1b69529df049df3466f521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:14 +0000
Subject: [PATCH 10/20] fix: isopycnal surfaces ignore pin_cast and pin_p when
 ref and isoval are given, as documented

---
 neutralocean/surface/isopycnal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..9ba59ae 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -369,6 +369,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
+    pinned = isoval is None  # otherwise pin_cast and pin_p are not used
     ref, isoval = _choose_ref_isoval(
         ans_type, ref, isoval, pin_cast, pin_p, eos, S, T, P, ppc_fn
     )
@@ -378,7 +379,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     timer = time()
     s, t, p = vertsolve(S, T, P, ref, isoval, TOL_P_SOLVER)
 
-    if pin_p is not None:  # pin_cast must also be valid
+    if pinned:  # pin_cast and pin_p must be valid
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
-- 
2.43.0


From 6a06750fc4ca7899ff4f62f84024dbb21bd26bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:08 +0000
Subject: [PATCH 11/20] fix: xarray inputs need not have a coordinate along the
 vertical dimension

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..ee94a1b 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -213,7 +213,7 @@ def _xr_in(S, vert_dim):
             return xr.full_like(S, 0)
         elif isinstance(vert_dim, int):
             vert_dim = S.dims[vert_dim]  # convert to str
-        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim), 0)
+        return xr.full_like(S.isel({vert_dim: 0}, drop=True), 0)
     else:
         return None
 
-- 
2.43.0


From fc5cb597a79123499b655962ce2f315c68b6eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:28 +0000
Subject: [PATCH 12/20] fix: a dict pin_cast indexes the dimensions of S by
 name, whatever its order

---
 neutralocean/lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index ee94a1b..0abf99c 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -357,7 +357,9 @@ def _process_pin_cast(pin_cast, S):
     # One issue is this always rounds one way, whereas a "nearest" neighbour
     # type behaviour would be preferred, as in xr.DataArray.sel
     if isinstance(pin_cast, dict):
-        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in pin_cast.items())
+        return tuple(
+            int(S.get_index(k).searchsorted(pin_cast[k])) for k in S.dims if k in pin_cast
+        )
     elif isinstance(pin_cast, int):
         return (pin_cast,)
     else:
-- 
2.43.0


From 696f7562d707be5e36ba8a989ef2eae5bb35352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:25 +0000
Subject: [PATCH 13/20] fix: xgcm.build_grid pairs each edge with its own
 distances, and accepts float distances, as documented

---
 neutralocean/grid/xgcm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..702f10a 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -122,9 +122,9 @@ def build_grid(
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-    # where m is the local node and n is its neighbour in the j dimension.
+    # where m is the local node and n is its neighbour in the i dimension.
     # The second N entries are [m,n] where m is the local node and n is its
-    # neighbour in the i dimension.
+    # neighbour in the j dimension.
     a = np.tile(np.arange(N), 2)
     b = np.empty(N * 2, dtype=int)  # prealloc space
     b[:N] = im1.values.reshape(-1)
@@ -133,14 +133,15 @@ def build_grid(
     # Build list of distances between adjacent nodes, in the same order as the
     # pairs of nodes built by edges.
     dist = np.empty(N * 2, dtype=float)
-    dist[:N] = dyC.reshape(-1)
-    dist[N:] = dxC.reshape(-1)
+    dist[:N] = np.broadcast_to(dxC, im1.shape).reshape(-1)
+    dist[N:] = np.broadcast_to(dyC, im1.shape).reshape(-1)
 
     # Build list of distances of the faces between adjacent nodes, in the same
     # order as the pairs of nodes built by edges.
     distperp = np.empty(N * 2, dtype=float)
-    distperp[:N] = dxG.reshape(-1)  # dxG lives at same place as dyC
-    distperp[N:] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    # dyG lives at same place as dxC; dxG lives at same place as dyC
+    distperp[:N] = np.broadcast_to(dyG, im1.shape).reshape(-1)
+    distperp[N:] = np.broadcast_to(dxG, im1.shape).reshape(-1)
 
     # Trim out invalid edges, i.e. those for which one of the two nodes was
     # filled by `apply_as_grid_ufunc` to have a value of -1.
-- 
2.43.0


From feccdfec7af448ee2284f20e445915e926a7f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:25 +0000
Subject: [PATCH 14/20] fix: xgcm grids list neighbours in the order of the
 grid's dimensions for every shift direction

---
 neutralocean/grid/xgcm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 702f10a..037b841 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -291,11 +291,6 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
-        # Must ensure same ordering of dimensions as idx.  Currently, this
-        # one gets its dimensions reordered by the grid ufunc, probably
-        # because it reorders things to act on the last dimension...?
-        jm1 = jm1.transpose(*idx.dims)
-
     else:  # right
         # jm1 = grid.axes["Y"]._neighbor_binary_func(
         #     idx, lambda a, b: b, to="right", boundary="fill", fill_value=-1
@@ -310,4 +305,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
+    # Must ensure same ordering of dimensions as idx.  The grid ufunc moves the
+    # dimension it acts on to be last.
+    im1, jm1 = (x.transpose(*idx.dims) for x in (im1, jm1))
+
     return im1, jm1
-- 
2.43.0


From 69ce8cc7358ded06c6143f2358fb73ddfffc6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:19 +0000
Subject: [PATCH 15/20] fix: val_at does not write into its input, and keeps
 singleton dimensions

---
 neutralocean/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 0abf99c..8bac4de 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -186,10 +186,10 @@ def val_at(T, k):
     """
     if isinstance(k, int) or T.ndim == 1:
         # select the k'th element along the last dimension of T
-        Tk = T[..., k]
+        Tk = np.array(T[..., k])  # a copy, so that T itself is not modified below
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
-        Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
+        Tk = np.take_along_axis(T, k[..., None], -1).squeeze(-1)
     else:
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
-- 
2.43.0


From 6c330045e7256c25c1cd503b86e8b327fed7b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 16/20] fix: stabilize_ST mutates its inputs also when the
 vertical dimension is not the last one

---
 neutralocean/stability.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..18c2bbb 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,8 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    vert_dim = _process_vert_dim(vert_dim, S)
+    S_in, T_in = xr_to_np(S), xr_to_np(T)
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -233,6 +235,11 @@ def stabilize_ST(S, T, P, eos, **kw):
                     f"Perturbed cast {c} by weighted RMS amount {f(res.x, weight)}"
                 )
 
+    # If _process_casts made a copy, write the perturbed casts to the inputs
+    for X_in, X in ((S_in, S), (T_in, T)):
+        if not np.shares_memory(X_in, X):
+            np.moveaxis(X_in, vert_dim, -1)[...] = X
+
 
 def calc_dLRPDdp_fd_1(S, T, P, eos):
     # Calculate d(LRPD)/dp using Finite Difference scheme in 1 cast.
-- 
2.43.0


From a49f151a6cd6e305f41c8cdbcc94064deb4c13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 17/20] fix: omega_surf accepts an integer p_init

np.full((ni,nj), 1000), which the code mentions as a possible p_init, is an
array of integers: marking land as NaN in it raised a ValueError, and the
surface could not be updated in place without rounding.
---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 0f7e750..f16650b 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -331,7 +331,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
             )
         p_init = np.reshape(p_init, -1)  # now reshape to 1D
         pin_p = p_init[pin_c]
-        p = p_init.copy()
+        p = p_init.astype(np.float64)  # a copy, able to hold NaN
 
         # Interpolate S and T onto the surface
         s, t = interp_two(p, P, S, T, 0)
-- 
2.43.0


From 71294c8f562753462a9764b4ce308e6e70fe60fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 18/20] fix: neutrality errors of a surface with integer
 salinity

The errors were stored with the element type of s, so that with integers all
of them were rounded towards zero.
---
 neutralocean/ntp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index c8aaa9f..2192a16 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -134,7 +134,7 @@ def ntp_epsilon_errors_norms(
 
 @nb.njit
 def _ntp_epsilon_error1(s, t, p, a, b, eos_s_t):
-    e = np.empty(len(a), dtype=s.dtype)
+    e = np.empty(len(a), dtype=np.float64)
     for i in range(len(a)):
         a_ = a[i]
         b_ = b[i]
-- 
2.43.0


From 9cc6695a5256bcb10fef9b7397b3dfa9925d8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 19/20] fix: diff_1d_samesize appends NaN to differences of
 integers

An array of integers cannot hold the NaN: the last linear coefficient of
integer data was a huge number instead.
---
 neutralocean/ppinterp/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 158c970..c425fd9 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -10,7 +10,7 @@ def diff_1d_samesize(x):
     A simple function like `np.diff` that numba can work with.
     """
 
-    d = np.empty(x.size, dtype=x.dtype)
+    d = np.empty(x.size, dtype=np.float64)
     for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
     d[-1:] = np.nan
-- 
2.43.0


From 6b21085acf70a67f296c680728c60b1ae300a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 20/20] fix: graph_binary_fcn returns what binary_fcn returns
 for integer node values

The values were stored with the element type of nodevals: with integers, an
average of neighbours was rounded and the documented NaN could not be held.
---
 neutralocean/grid/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index 624d7ed..8c3f26b 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -46,7 +46,7 @@ def graph_binary_fcn(edges, nodevals, binary_fcn):
 
     a, b = edges
 
-    ev = np.empty(len(a), dtype=nodevals.dtype)
+    ev = np.empty(len(a), dtype=np.float64)
     d = nodevals.reshape(-1)
     for i in range(len(a)):
         ev[i] = binary_fcn(d[a[i]], d[b[i]])
-- 
2.43.0

