From 2de01a09ee4aec9a80a8e5aa1ee65f1833416069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:03 +0000
Subject: [PATCH 01/48] fix: accept parameter bounds that are all zero in
 Posterior

---
 forcepho/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 18f637e..10cc0f8 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -62,7 +62,8 @@ class Posterior:
         self.ncall = 0
         self.ndof = 1.0
 
-        if (np.any(kwargs.get('lower')) and np.any(kwargs.get('upper'))) == bool(kwargs.get('transform')):
+        has_bounds = (kwargs.get('lower') is not None) and (kwargs.get('upper') is not None)
+        if has_bounds == (kwargs.get('transform') is not None):
             raise ValueError('Must specify either "transform" or ("lower","upper")')
 
         transform = kwargs.pop('transform', None)
-- 
2.43.0


From 821b9bc3c378a7876a9d6cf6455093111652ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:03 +0000
Subject: [PATCH 02/48] fix: SlowPosterior works without a prior and provides
 nll

---
 forcepho/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/model.py b/forcepho/model.py
index 10cc0f8..e097177 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -429,8 +429,11 @@ class SlowPosterior(Posterior):
         if lnprior is not None:
             self.lnprior = lnprior
 
+        self._lnpriorfn = lnprior
+
         # --- initialize some things ---
         self.ncall = 0
+        self.ndof = 1.0
         self._z = -99
         self._q = -99
 
-- 
2.43.0


From 22ec3f7ce8c37cf60b798b9ec7748ee259b0f11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:16 +0000
Subject: [PATCH 03/48] fix: cache a copy of the parameter vector so in-place
 changes are noticed

---
 forcepho/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index e097177..538c777 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -92,7 +92,7 @@ class Posterior:
         z : ndarray of shape (ndim,)
             A parameter vector.
         """
-        self._z = z
+        self._z = np.array(z)
         self._lnp = 0
         self._lnp_grad = 0
         self.ncall += 1
@@ -346,7 +346,7 @@ class FastPosterior(Posterior):
         # Assumes Jacobian is diagonal
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian
         self._q = q
-        self._z = z
+        self._z = np.array(z)
         # do volume correction when sampling
         if self.sampling:
             self._lnp += self._lndetjac
@@ -466,7 +466,7 @@ class SlowPosterior(Posterior):
         # gradient vector with a Jacobian matrix, but for now the jacobian is diagonal so this works
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
         self._q = q
-        self._z = z
+        self._z = np.array(z)
 
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
-- 
2.43.0


From 40a2c23d4d3564f0bde073b1758ef2f7f732820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:16 +0000
Subject: [PATCH 04/48] fix: a parameter vector of -99s is not mistaken for the
 cached point

---
 forcepho/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 538c777..171653e 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -285,7 +285,7 @@ class FastPosterior(Posterior):
         # --- initialize some things ---
         self.sampling = sampling
         self.ncall = 0
-        self._z = -99
+        self._z = np.nan
         self._q = -99
         self.mhalf = np.array(-0.5, dtype=np.float64)
 
@@ -434,7 +434,7 @@ class SlowPosterior(Posterior):
         # --- initialize some things ---
         self.ncall = 0
         self.ndof = 1.0
-        self._z = -99
+        self._z = np.nan
         self._q = -99
 
     def evaluate(self, z):
-- 
2.43.0


From 75d895d10a2863c4dcb5e4fb43317227997533b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:03 +0000
Subject: [PATCH 05/48] fix: seed weights are zero for sources in outstanding
 regions

---
 forcepho/superscene.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccab493..573af37 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -468,8 +468,11 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for inactive, zero if active
-        w = (~self.sourcecat["is_valid"]).astype(np.float64)
+        # just one for valid, zero if in an outstanding region
+        w = (self.sourcecat["is_valid"] != 0).astype(np.float64)
+        if not np.any(w):
+            # nothing is available; leave it to the checkout to refuse
+            w[:] = 1.0
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
@@ -479,7 +482,7 @@ class SuperScene:
 
     def sigmoid_weight(self):
         # just one for inactive, zero if active
-        w = (~self.sourcecat["is_active"]).astype(np.float32)
+        w = (self.sourcecat["is_active"] == 0).astype(np.float32)
 
         # multiply by something inversely correlated with niter
         # sigmoid ?  This is ~ 0.5 at niter ~ntarget
-- 
2.43.0


From e318a175781572730753f89539c9abcd9141e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:37 +0000
Subject: [PATCH 06/48] fix: refuse a region whose associated sources are
 active elsewhere

---
 forcepho/superscene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 573af37..581037f 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -609,6 +609,9 @@ class LinkedSuperScene(SuperScene):
                 break
             active_inds += to_add
         active = self.sourcecat[active_inds]
+        # associations can extend beyond the boundary radius
+        if np.any(active["is_active"]):
+            return (seed["ra"], seed["dec"]), None, None
 
         # now redetermine the region center and the radius
         cra, cdec = np.mean(active["ra"]), np.mean(active["dec"])
-- 
2.43.0


From ade46225112d6f6b026d1466a3f2865b805dea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:32 +0000
Subject: [PATCH 07/48] fix: flux_bounds brackets a flux of zero

The noise was |flux|/snr = 0/0 for zero flux, so the lower bound became the
flux itself and the upper bound NaN.
---
 forcepho/superscene.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 581037f..5cab8cf 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -954,11 +954,9 @@ def flux_bounds(flux, unc1, snr_max=10, precisions=None):
 
     else:
         # this is wierd
-        snr = np.sqrt(np.abs(flux)) / unc1
-        #snr = np.minimum(snr, snr_max)
-
         fmin = (unc1 / 2.)**2
-        noise = np.abs(flux) / snr
+        # i.e. |flux| / snr with snr = sqrt(|flux|) / unc1
+        noise = unc1 * np.sqrt(np.abs(flux))
         lo = flux - noise
         hi = flux + noise
 
-- 
2.43.0


From b8a322dd65301ed668de8504f25335ecb2295f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:32 +0000
Subject: [PATCH 08/48] fix: adjust_bounds uses the source catalog of the scene
 database

SuperScene has no source_catalog attribute.
---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 5cab8cf..05612eb 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -977,7 +977,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         scat = active
     else:
         bcat = sceneDB.bounds_catalog
-        scat = sceneDB.source_catalog
+        scat = sceneDB.sourcecat
 
     if minflux is None:
         minflux = config.minflux
-- 
2.43.0


From f060bc58408967e400bfa63aec883cd1a8441a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:32 +0000
Subject: [PATCH 09/48] fix: adjust_bounds clips fluxes to the upper bound

The upper limit was the lower bound minus eps, which put every flux below its
lower bound.
---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 05612eb..055a53b 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -999,7 +999,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         for b in bands:
             active[b][:] = np.clip(active[b][:],
                                    bcat[b][:, 0] + eps,
-                                   bcat[b][:, 0] - eps)
+                                   bcat[b][:, 1] - eps)
 
     if not isinstance(sceneDB, np.ndarray):
         sceneDB.check_bounds()
-- 
2.43.0


From 3901cf7f0bcbe04fd436ac5a6268df07afe3b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:32 +0000
Subject: [PATCH 10/48] fix: convert_pa wraps angles into [-pi/2, pi/2]

Angles inside the interval were shifted back and forth, and angles outside it
could be returned out of range.
---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 055a53b..50471d7 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -1028,7 +1028,7 @@ def convert_pa(pa_in, from_deg=False, rotate=False, reverse=False, max_try=4):
     count = 0
     while count < max_try:
         p = pa > np.pi / 2
-        n = pa < np.pi / 2
+        n = pa < -np.pi / 2
         if (p.sum() == 0) & (n.sum() == 0):
             break
         else:
-- 
2.43.0


From c6f3928a3c20637e7a74e1ca3ac66e29c2643b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:32 +0000
Subject: [PATCH 11/48] fix: make_bounds accepts per-source positional
 half-widths

dpos of shape (2, n_source), as documented, raised or mixed up sources.
---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 50471d7..187f8ae 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -851,7 +851,7 @@ def make_bounds(active, filternames, shapenames=Galaxy.SHAPE_COLS, unccat=None,
         dpos = np.ones(2) * n_pix * pixscale
 
     dra = dpos[0] / 3600. / np.cos(np.deg2rad(active["dec"]))
-    ddec = np.array([dpos[1] / 3600.])
+    ddec = np.atleast_1d(dpos[1] / 3600.)
 
     # Make empty bounds catalog
     colnames = filternames + shapenames
-- 
2.43.0


From 78068bab942a305a0a50330129e89030ddb0a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:13 +0000
Subject: [PATCH 12/48] fix: param_indices counts only the active sources
 before the given one

With fixed sources in the scene, self.active_sources[:sid] includes the source
itself (or later ones), so the indices pointed at another source's parameters.
---
 forcepho/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7b7545e..fca05c9 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -204,7 +204,7 @@ class Scene(object):
         inds : ndarray of ints
             Indices of the parameters for this source.
         """
-        npar_per_source = [s.n_params for s in self.active_sources[:sid]]
+        npar_per_source = [s.n_params for s in self.sources[:sid] if not s.fixed]
         # get all the shape parameters
         source = self.sources[sid]
         start = int(np.sum(npar_per_source))
-- 
2.43.0


From fe515aa4c66113cd323c2c4fe1c74f94eeaf740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:13 +0000
Subject: [PATCH 13/48] fix: param_indices without a filter returns the indices
 of all fluxes

As documented; it raised ValueError.
---
 forcepho/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index fca05c9..057a75a 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -210,7 +210,9 @@ class Scene(object):
         start = int(np.sum(npar_per_source))
         # indices of the shape and position parameters
         inds = list(range(start + source.n_bands, start + source.n_params))
-        # put in the flux for this source in this band
+        # put in the flux for this source in this band, or in all bands
+        if filtername is None:
+            return list(range(start, start + source.n_bands)) + inds
         inds.insert(0, start + source.filter_index(filtername))
         return inds
 
-- 
2.43.0


From 27cfb12b382c2863398140922a63581f8f436c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:13 +0000
Subject: [PATCH 14/48] fix: export catalogs in double precision

Single precision ra and dec are only good to ~10 mas.
---
 forcepho/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 057a75a..35eb0bb 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -438,7 +438,7 @@ class Source:
                 ["{}".format(b) for b in self.filternames] +
                 self.SHAPE_COLS)
         cols += extra_cols
-        self._cat_dtype = np.dtype([(c, np.float32) for c in cols])
+        self._cat_dtype = np.dtype([(c, np.float64) for c in cols])
         return self._cat_dtype
 
     def to_catalog_row(self, extra_cols=[]):
-- 
2.43.0


From 624c95f6a29615d6bc2da1bfe50c85a71ddbc114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:34 +0000
Subject: [PATCH 15/48] fix: use both image dimensions for the footprint of an
 exposure

The far corner of the image footprint was (NAXIS1, NAXIS1).
---
 forcepho/patches/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 1e6b5c4..7d36142 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -468,7 +468,7 @@ class MetaStore:
                 imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                 bbox = np.array([[0, 0],
                                  [0, imsize[1]],
-                                 [imsize[0], imsize[0]],
+                                 [imsize[0], imsize[1]],
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
-- 
2.43.0


From 049a67152893e725204895828a9c5fc8f3f6f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:34 +0000
Subject: [PATCH 16/48] fix: StorePatch finds the exposures of its metastore

find_exposures loops over metastore.wcs, which is empty unless the metastore
is asked to build the WCS objects.
---
 forcepho/patches/pixel_patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index d0f3d58..c8bd3cc 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -250,7 +250,7 @@ class StorePatch(PixelPatch):
                          splinedata=splinedata,
                          spline_smoothing=spline_smoothing)
 
-        self.metastore = MetaStore(metastore)
+        self.metastore = MetaStore(metastore, load_all=True)
         self.pixelstore = PixelStore(pixelstore)
 
     def find_exposures(self, region, bandlist):
-- 
2.43.0


From 58c864968e6b0275997b75e325b6b2c224afaa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:34 +0000
Subject: [PATCH 17/48] fix: DirectPatch.find_exposures returns its exposures
 in band order

It used a nonexistent wcs_dict attribute, and neither restricted the exposures
to the requested bands nor sorted them by band as build_patch requires.
---
 forcepho/patches/pixel_patch.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index c8bd3cc..83ebc11 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -531,17 +531,17 @@ class DirectPatch(PixelPatch):
         self.unc = None
 
     def find_exposures(self, region, bandlist, do_check=True):
-        epaths = list(self.wcs_dict.keys())
-        bands, hdrs, wcses = [], [], []
-
-        for epath in epaths:
-            hdr = self.header_dict[epath]
-            wcs = WCS(hdr)
-            band = hdr["FILTER"]
+        epaths, bands, hdrs, wcses = [], [], [], []
 
-            wcses.append(wcs)
-            bands.append(band)
-            hdrs.append(hdr)
+        # in band order
+        for band in bandlist:
+            for epath, hdr in self.header_dict.items():
+                if hdr["FILTER"] != band:
+                    continue
+                epaths.append(epath)
+                wcses.append(WCS(hdr))
+                bands.append(band)
+                hdrs.append(hdr)
 
         return hdrs, wcses, epaths, bands
 
-- 
2.43.0


From 4868b6c3feefd3dff488664bd42692cf3266c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:45 +0000
Subject: [PATCH 18/48] fix: each source uses its own PSF Gaussians in the
 kernels

---
 forcepho/src/compute_gaussians_kernel.cc | 4 ++--
 forcepho/src/compute_gaussians_kernel.cu | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/src/compute_gaussians_kernel.cc b/forcepho/src/compute_gaussians_kernel.cc
index c9005ca..f416973 100644
--- a/forcepho/src/compute_gaussians_kernel.cc
+++ b/forcepho/src/compute_gaussians_kernel.cc
@@ -97,7 +97,7 @@ void ConvolveOneSource(int band, int exposure, int g, int n_psf_per_source,
     // loop over source * psf gaussians
     for (int p = 0; p < n_psf_per_source; p++){
 
-        PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + p;
+        PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + g * n_psf_per_source + p;
         int tid =  g * n_psf_per_source + p;   // Thread number
 
         // now this stuff is source and psf component dependent
@@ -179,7 +179,7 @@ void ConvolveOne(int band, int exposure, int tid, int n_psf_per_source,
     // specific to the source and psf components
     // --------------------------------------
     // unpack the PSF
-    PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + p;
+    PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + g * n_psf_per_source + p;
 
     int s = psfgauss->sersic_radius_bin;
     sersicgauss.covar = patch->rad2[s];
diff --git a/forcepho/src/compute_gaussians_kernel.cu b/forcepho/src/compute_gaussians_kernel.cu
index 647fc97..73cdabf 100644
--- a/forcepho/src/compute_gaussians_kernel.cu
+++ b/forcepho/src/compute_gaussians_kernel.cu
@@ -74,7 +74,7 @@ __device__ void CreateImageGaussians(Patch * patch, Source * sources, int exposu
         int p = tid - g * n_psf_per_source;   // Gaussian number
 
         Source *galaxy = sources+g;
-        PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + p;
+        PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + g * n_psf_per_source + p;
         PixGaussian    sersicgauss;    // This is where we'll queue up the source info
 
         // Source dependent coordinate reference values
-- 
2.43.0


From 95aae5dca108ff49b0f9d65758efe25f621e6484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:51 +0000
Subject: [PATCH 19/48] fix: seed weights are zero exactly for active sources

---
 forcepho/superscene.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 187f8ae..a3f36cc 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -468,10 +468,10 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for valid, zero if in an outstanding region
-        w = (self.sourcecat["is_valid"] != 0).astype(np.float64)
+        # just one for inactive, zero if active
+        w = (self.sourcecat["is_active"] == 0).astype(np.float64)
         if not np.any(w):
-            # nothing is available; leave it to the checkout to refuse
+            # everything is active; leave it to the checkout to refuse
             w[:] = 1.0
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
-- 
2.43.0


From 0fd679bcdd9d6592c37ecc8d49333bf8154a384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:01 +0000
Subject: [PATCH 20/48] fix: padding pixels are not written into filled images

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 813888f..c19d994 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -141,7 +141,9 @@ class Residuals:
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-            images[e][xpix, ypix] = arr
+            # padding pixels have negative coordinates
+            g = (xpix >= 0) & (ypix >= 0)
+            images[e][xpix[g], ypix[g]] = arr[g]
 
         return images, headers
 
-- 
2.43.0


From d227645cc23eb41a6391dca66e03bceda21536b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:01 +0000
Subject: [PATCH 21/48] fix: fill_images starts from new dictionaries unless
 given some

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index c19d994..55161b3 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -121,10 +121,12 @@ class Residuals:
         pix = sky_to_pix(ra, dec, ee, ref_coords=self.reference_coordinates)
         return pix
 
-    def fill_images(self, images={}, headers={}, fill_type="residual",
+    def fill_images(self, images=None, headers=None, fill_type="residual",
                     metastore=None, imshape=(2048, 2048)):
         """Add the stored pixel data to the images in the supplied `images` dictionary.
         """
+        images = {} if images is None else images
+        headers = {} if headers is None else headers
         for e in self.exposures:
             # create the empty array
             if e not in images:
-- 
2.43.0


From b03b243d41d7cde8b343a041ecc6588b57e4524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 22/48] fix: subtract_fixed without active sources references
 coordinates once

---
 forcepho/patches/device_patch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 00e9a5f..6640ae4 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -3,6 +3,8 @@
 """device_patch.py - mix-in classes containing methods for communicating with GPU or CPU device
 """
 
+from copy import deepcopy
+
 import numpy as np
 
 from ..sources import Scene, Galaxy
@@ -155,7 +157,8 @@ class DevicePatchMixin:
         else:
             print("Warning: The meta-data will be for a scene already subtracted from the GPU-side data array!")
             assert swap_local
-            scenes.append(scenes[-1])
+            # coordinates are referenced again when the metadata is packed
+            scenes.append(deepcopy(scenes[-1]))
 
         assert len(scenes) > 0, "No scenes to prepare!"
 
-- 
2.43.0


From 3295d51534ab5f24022c8211ca04b82b7a4b7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 23/48] fix: subtract_fixed accepts empty catalogs of fixed or
 big sources

---
 forcepho/patches/device_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 6640ae4..197a58f 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -144,11 +144,11 @@ class DevicePatchMixin:
         # will not actually be subtracted, but will have meta data transferred
         # to GPU and ready to accept proposals.
         scenes = []
-        if big is not None:
+        if (big is not None) and (len(big) > 0):
             inds = np.arange(maxactive, len(big), maxactive)
             blocks = np.array_split(big, inds)
             scenes.extend([self.set_scene(block, **big_scene_kwargs) for block in blocks])
-        if fixed is not None:
+        if (fixed is not None) and (len(fixed) > 0):
             inds = np.arange(maxactive, len(fixed), maxactive)
             blocks = np.array_split(fixed, inds)
             scenes.extend([self.set_scene(block, **scene_kwargs) for block in blocks])
-- 
2.43.0


From 4b9655d63d8d213fb3433edbb52a5a9398a4ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:45 +0000
Subject: [PATCH 24/48] fix: DevicePatchMixin.render sends the scene and
 returns its model images

---
 forcepho/patches/device_patch.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 197a58f..ee6c6ba 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -248,13 +248,20 @@ class DevicePatchMixin:
         scene = self.set_scene(catalog, splinedata=splinedata)
         self.pack_meta(scene)
 
-        proposal = scene.get_proposal()
         orig, self.return_residual = self.return_residual, True
-        ret = proposer.evaluate_proposal(proposal, patch=self, unpack=True)
-        self.return_residual = True
+        # send the metadata, and the pixel data if not already there
+        if getattr(self, "device_ptrs", None):
+            self.replace_device_meta_ptrs()
+            self.send_patchstruct_to_device()
+        else:
+            self.send_to_device()
+
+        proposal = scene.get_proposal()
+        ret = proposer.evaluate_proposal(proposal, patch=self, unpack=False)
+        self.return_residual = orig
         chi2, chi2_derivs, residuals = ret
-        image = -residuals
-        return image
+        image = self.retrieve_array("data") - residuals
+        return proposer.unpack_residuals(image, self)
 
     def free(self):
         pass
-- 
2.43.0


From 5d1400d6f288038ab7d8321c9efad3b110239f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:49 +0000
Subject: [PATCH 25/48] fix: default_config_file writes and returns the parser
 defaults

---
 forcepho/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index e641006..2e8f70f 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -137,13 +137,13 @@ def preprocess_config_parser():
 
 def default_config_file(filename="", **kwargs):
     parser = main_config_parser(**kwargs)
-    config = parser.parse_args()
+    config = parser.parse_args([])
     import yaml
-    configtext = yaml.dumps(vars(config))
+    configtext = yaml.dump(vars(config))
     if filename:
         with open(filename, "w") as cfile:
-            cfile.write(ctext)
-    return cfile
+            cfile.write(configtext)
+    return configtext
 
 
 def parse_all(parser, argv):
-- 
2.43.0


From d5d6f5238c5c58cba8fe22c1cb529622d3016f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:49 +0000
Subject: [PATCH 26/48] fix: yaml_to_namespace accepts the dictionaries it
 documents

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 2e8f70f..eb4bd56 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -210,7 +210,7 @@ def yaml_to_namespace(config_file):
         with open(config_file) as f:
             config_dict = yaml.load(f, Loader=yaml.Loader)
     elif type(config_file) is dict:
-        config_dict = yaml.load(config_file, Loader=yaml.Loader)
+        config_dict = config_file
 
     config = Namespace(**config_dict)
 
-- 
2.43.0


From 5c3375cd5408569efc141b45768c29a39f2b407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:58 +0000
Subject: [PATCH 27/48] fix: command line arguments given as --key=value or
 abbreviated are not dropped

---
 forcepho/config.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index eb4bd56..fe6905c 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -268,11 +268,19 @@ def rectify_config(config):
 def new_args(parser, argv):
     nconf = Namespace()
     oconf = parser.parse_args(argv)
-    for k, v in vars(oconf).items():
-        #if v == parset.get_default(k):
-        if f"--{k}" not in argv:  # Ugly HACK
-            continue
-        setattr(nconf, k, v)
+    # parse again without defaults, to find what was explicitly given
+    defaults = [(action, action.default) for action in parser._actions]
+    more, parser._defaults = parser._defaults, {}
+    try:
+        for action, _ in defaults:
+            action.default = argparse.SUPPRESS
+        given = vars(parser.parse_args(argv))
+    finally:
+        parser._defaults = more
+        for action, default in defaults:
+            action.default = default
+    for k in given:
+        setattr(nconf, k, getattr(oconf, k))
     return nconf
 
 
-- 
2.43.0


From 711f9dd9a9b0cb0104773179a33449aa05ea5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:58 +0000
Subject: [PATCH 28/48] fix: a store directory with an unset store file does
 not crash rectify_config

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index fe6905c..5cc8704 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -243,7 +243,7 @@ def rectify_config(config):
                 n = getattr(config, attr)
                 new = os.path.join(config.store_directory, n)
                 setattr(config, attr, new)
-            except(AttributeError):
+            except(AttributeError, TypeError):
                 print("could not update {}storefile path".format(store))
 
     for k, v in vars(config).items():
-- 
2.43.0


From fca63e2afbe147939b74794d6e905c4c3c6be870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:56 +0000
Subject: [PATCH 29/48] fix: dispatcher imports read_config from where it is
 defined

---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 2c7a088..f007fd0 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -18,7 +18,7 @@ import numpy as np
 from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
-from .utils import read_config
+from .config import read_config
 #from .child import sampling_task, optimization_task
 
 
-- 
2.43.0


From 1a6ec463f9f88d9b308f048dbfd1959f22c99ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:56 +0000
Subject: [PATCH 30/48] fix: MPIQueue works when the dispatcher is imported as
 a module

---
 forcepho/dispatcher.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index f007fd0..189eac2 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -25,6 +25,8 @@ from .config import read_config
 __all__ = ["MPIQueue",
            "do_child", "do_parent"]
 
+logger = logging.getLogger('dispatcher')
+
 
 class MPIQueue:
     """Simple implementation of an MPI queue.  Work can be submitted to the queue
@@ -79,6 +81,7 @@ class MPIQueue:
         result : object
             The result generated and passed by the child.
         """
+        from mpi4py import MPI
         if blocking == 'all' and not self.irecv_handles:
             return []
 
@@ -115,6 +118,7 @@ class MPIQueue:
         child process at the top of the (idle) queue. If no children are idle,
         an error is raised.
         """
+        from mpi4py import MPI
         if tag == 'any':
             tag = MPI.ANY_TAG
 
@@ -247,6 +251,7 @@ def do_parent(comm, config=None):
 
 
 def do_child(comm, config=None):
+    from mpi4py import MPI
     rank = comm.Get_rank()
     logger = logging.getLogger(f'child-{rank}')
     parent = 0
@@ -319,6 +324,7 @@ def dummy_work(patcher, task, config, logger):
 
 def main(config=None):
     # Demo usage of the queue
+    from mpi4py import MPI
 
     # MPI communicator
     comm = MPI.COMM_WORLD
@@ -342,9 +348,6 @@ class ArgParseFormatter(argparse.RawDescriptionHelpFormatter, argparse.ArgumentD
 
 
 if __name__ == "__main__":
-    # Hide this MPI import in __main__ so one can import this module without MPI
-    from mpi4py import MPI
-
     parser = argparse.ArgumentParser(description='MPI dispatcher interface',
                                      formatter_class=ArgParseFormatter)
     # Any command line arguments can be added here
-- 
2.43.0


From 12ffcc022c303f9ce9d33cd6af050d8a2a7669fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:56 +0000
Subject: [PATCH 31/48] fix: MPIQueue.submit sends with a valid tag by default

---
 forcepho/dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 189eac2..b31c746 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -118,9 +118,9 @@ class MPIQueue:
         child process at the top of the (idle) queue. If no children are idle,
         an error is raised.
         """
-        from mpi4py import MPI
         if tag == 'any':
-            tag = MPI.ANY_TAG
+            # n.b. MPI.ANY_TAG is only valid for receives
+            tag = 0
 
         # Why make this an error rather than queue it up for later?
         # Because we want to generate tasks with the freshest SuperScene info
-- 
2.43.0


From 2c1576b8590fad6de07a18b458d7b24e81e27ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:56 +0000
Subject: [PATCH 32/48] fix: MPIQueue.collect without outstanding tasks returns
 nothing

---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index b31c746..e403d15 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -82,7 +82,7 @@ class MPIQueue:
             The result generated and passed by the child.
         """
         from mpi4py import MPI
-        if blocking == 'all' and not self.irecv_handles:
+        if blocking in ('all', False) and not self.irecv_handles:
             return []
 
         if blocking and not self.irecv_handles:
-- 
2.43.0


From 792b7fcc41b05d55e84f2abb1f8f81a49af95f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:56 +0000
Subject: [PATCH 33/48] fix: MPIQueue.collect looks at the status of the
 completed request

---
 forcepho/dispatcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index e403d15..aa455e1 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -98,11 +98,12 @@ class MPIQueue:
         else:
             indices, results = MPI.Request.testsome(self.irecv_handles, statuses)
 
-        for i in sorted(indices, reverse=True):
+        # statuses are in the order of the completed requests
+        for n, i in sorted(enumerate(indices), key=lambda x: x[1], reverse=True):
             # TODO: this happens at Flatiron sometimes. Bad MPI? Bad mpi4py? mpi4py bug?
             # Problem with irecv allocation? Incomplete communication?
             # The results look sane though...
-            if statuses[i].source == -1:
+            if statuses[n].source == -1:
                 logger.warning(f'Got source rank -1 on irecv from rank {self.busy[i]}!  Why??')
             self.idle += [self.busy.pop(i)]
             del self.irecv_handles[i]
-- 
2.43.0


From 7eb5f8824271806a02aea479500568e9a0967949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:33 +0000
Subject: [PATCH 34/48] fix: slow renderer converts PSF centers from arcsec to
 pixels

---
 forcepho/slow/gaussmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 6b926be..8c4cccc 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -125,7 +125,7 @@ def convert_to_gaussians(source, stamp, compute_deriv=False):
     # get PSF component means and covariances in the pixel space
     if psf.units == 'arcsec':
         pcovar = fast_matmul_matmul_2x2(D, psf.covariances, D.T)
-        pmeans = np.matmul(D, psf.means)
+        pmeans = np.matmul(psf.means, D.T)
         # FIXME need to adjust amplitudes to still sum to one?
         pamps = psf.amplitudes
     elif psf.units == 'pixels':
-- 
2.43.0


From b260f9544f7c66a09dd8930d9270040347d10bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:33 +0000
Subject: [PATCH 35/48] fix: slow gradients are finite for zero fluxes and
 amplitudes

---
 forcepho/slow/gaussmodel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 8c4cccc..e71cb07 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -290,7 +290,8 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             F = fast_inv_2x2(Sigma)
             detF = fast_det_2x2(F)
             am, al = samps[i], pamps[j]
-            K = flux * G * am * al * detF**(0.5) / (2 * np.pi)
+            norm = G * al * detF**(0.5) / (2 * np.pi)
+            K = flux * am * norm
 
             # Now get derivatives
             # Of F
@@ -305,9 +306,9 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             # of Amplitude
             dA_dq = K / (2 * detF) * ddetF_dq  # 1
             dA_dpa = K / (2 * detF) * ddetF_dpa  # 1
-            dA_dflux = K / flux  # 1
-            dA_dsersic = K / am * da_dn[i]  # 1
-            dA_drh = K / am * da_dr[i]  # 1
+            dA_dflux = am * norm  # 1
+            dA_dsersic = flux * norm * da_dn[i]  # 1
+            dA_drh = flux * norm * da_dr[i]  # 1
 
             # --- Add derivatives to gaussians ---
             # - As a list of just nonzero -
@@ -437,7 +438,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
 
     # --- Calculate derivatives ---
     if compute_deriv:
-        dC_dA = C / g.amp
+        dC_dA = Gp * H * root_det
         dC_dx = C*vx
         dC_dy = C*vy
         dC_dfx = -0.5*C*dx*dx
@@ -445,7 +446,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
         dC_dfxy = -1.0*C*dx*dy
 
     if compute_deriv and second_order:
-        c_h = C / H
+        c_h = g.amp * Gp * root_det
         dC_dx -= c_h * (g.fxx*vx + g.fxy*vy) / 12.
         dC_dy -= c_h * (g.fyy*vy + g.fxy*vx) / 12.
         dC_dfx -= c_h * (1. - 2.*dx*vx) / 24.
-- 
2.43.0


From f36dd66dd95aa6c3b1d29d73776ce825cbac5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:33 +0000
Subject: [PATCH 36/48] fix: get_psf default has the requested FWHM

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index 367bd6e..ca05e9a 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -110,7 +110,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
 
     else:
         psf = PointSpreadFunction()
-        psf.covariances *= fwhm / 2.355
+        psf.covariances *= (fwhm / 2.355)**2
 
     return psf
 
-- 
2.43.0


From 72c952a12741aa6b57fe488fa88588f2277c57b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:33 +0000
Subject: [PATCH 37/48] fix: WorkPlan includes fixed sources in the residual

---
 forcepho/slow/likelihood.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index c1c7327..37295b1 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -235,6 +235,13 @@ class WorkPlan(object):
                 # In reality we will want to multiply by chi and sum over
                 # pixels *HERE* to avoid storage
                 self.gradients[i, :, :] += np.matmul(g.derivs, dI_dphi)
+        # Fixed sources contribute to the residual, but have no gradients
+        for i, gig in enumerate(self.fixed):
+            for j, g in enumerate(gig.gaussians):
+                I, _ = compute_gaussian(g, self.stamp.xpix.reshape(-1),
+                                        self.stamp.ypix.reshape(-1),
+                                        **self.compute_keywords)
+                self.residual[self.nactive + i, ...] -= I
 
     def lnlike(self, active=None, fixed=None):
         """Returns a scalar chi^2 value and a chi^2 gradient array of
-- 
2.43.0


From 23e2e7d5a589927d79c10f2c1061cbd410474bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 38/48] fix: postsample_catalog makes one row per source when
 patches are given

The catalog was made with one row per listed patch and then indexed by source
index, so an explicit patch list raised an IndexError or lost sources.
---
 forcepho/postprocess.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 55161b3..375a931 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -267,11 +267,9 @@ def postsample_catalog(root, catname=None, patches=None):
         parameters of that source each with shape (n_sample,)
     """
     # get summary info
+    config, plog, slog, final = run_metadata(root)
     if patches is None:
-        config, plog, slog, final = run_metadata(root)
         patches = plog
-    else:
-        final = patches
 
     # Get catalog data type
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
-- 
2.43.0


From e01d30f39ab718ad472ee080a5610dc6de29cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 39/48] fix: flux_unc_linear keeps the default where a patch
 has no precisions

The documented default was computed and then lost to an AttributeError.
---
 forcepho/postprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 375a931..45cd341 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -346,6 +346,7 @@ def flux_unc_linear(root, snr_max=1000):
 
         if not hasattr(s, "precisions"):
             print(f"flux_unc_linear: No precisons for {patchfile}")
+            continue
 
         for i, b in enumerate(s.bands):
             flux = s.final[b]
-- 
2.43.0


From 36b3f4a8d363026402699323dc051cfa4dd6cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 40/48] fix: find_multipatch looks patches up by their ID

The samples were listed in order of check-in and indexed by patch ID, so the
chains of another patch were used whenever patches finished out of order.
---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 45cd341..cbb6651 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -373,7 +373,7 @@ def find_multipatch(root):
         A list of the posterior sample chains for each source.
     """
     config, plog, slog, final = run_metadata(root)
-    samples = [Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog]
+    samples = {int(p): Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog}
     chains, sources, patches = [], [], []
     for sid, pids in slog.items():
         if len(pids) == 1:
-- 
2.43.0


From d5c1141e49694618be94cf4de6f2f03ea25e6668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 41/48] fix: append_catalogs reads files without extension
 names

The tables follow the empty primary HDU, which was read as the first table;
and the first table's EXTNAME was copied to the primary HDU of the output, so
that the output could not be appended again.
---
 forcepho/utils/catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 63b13d0..77533f5 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -48,8 +48,9 @@ def append_catalogs(infilenames, out):
                 try:
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
-                    catlists[i].append(hdul[i].data.copy())
-            hdr = hdul[1].header
+                    catlists[i].append(hdul[i+1].data.copy())
+            hdr = hdul[1].header.copy()
+            hdr.remove("EXTNAME", ignore_missing=True)
 
     cats = [np.concatenate(catlist)
             for catlist in catlists]
-- 
2.43.0


From c0d0ed634f53ed7a5136784e732340e3677a649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:08 +0000
Subject: [PATCH 42/48] fix: run_opt reports the ln-probability of the optimum

The optimizers minimize nll = -lnp / ndof, so -0.5 * fun was half the
ln-probability.
---
 forcepho/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f4e7481..0476590 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -444,7 +444,7 @@ def run_opt(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun * model.ndof
     result.wall_time = tsample
 
     result.fun = scires.fun
@@ -489,7 +489,7 @@ def run_opt_bounded(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun * model.ndof
     result.wall_time = tsample
 
     result.fun = scires.fun
-- 
2.43.0


From 57f62996c2389838c1fd41240e16594170b94e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:18 +0000
Subject: [PATCH 43/48] fix: run_dynesty names the sampling method with
 dynesty's own keyword

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index 0476590..454a464 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -550,7 +550,7 @@ def run_dynesty(model, q, lower=0, upper=1.0, nlive=50):
         return theta
 
     sampler = dynesty.DynamicNestedSampler(model.lnprob, prior_transform, ndim, nlive=nlive,
-                                           bound="multi", method="rwalk", bootstrap=0)
+                                           bound="multi", sample="rwalk", bootstrap=0)
     t0 = time.time()
     sampler.run_nested(nlive_init=int(nlive/2), nlive_batch=int(nlive),
                        wt_kwargs={'pfrac': 1.0}, stop_kwargs={"post_thresh": 0.2})
-- 
2.43.0


From 802f3c20e52f769d8580a2a8837029783077c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:30 +0000
Subject: [PATCH 44/48] fix: SlowPosterior.residuals accepts a parameter vector

---
 forcepho/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 171653e..0af9ad0 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -471,7 +471,7 @@ class SlowPosterior(Posterior):
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
         """
-        if Theta:
+        if Theta is not None:
             self.scene.set_all_source_params(Theta)
         self._residuals = [plan.stamp.pixel_values - make_image(self.scene, plan.stamp)[0]
                            for plan in self.plans]
-- 
2.43.0


From ee2034c46e7541cd4533374097782b5aeaadf5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:25 +0000
Subject: [PATCH 45/48] fix: kron_radius within rmax uses unnormalized
 incomplete gamma functions

---
 forcepho/utils/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/profile.py b/forcepho/utils/profile.py
index bef7bea..98910c0 100644
--- a/forcepho/utils/profile.py
+++ b/forcepho/utils/profile.py
@@ -25,9 +25,11 @@ def kron_radius(rhalf, sersic, rmax=None):
     k = gammaincinv(2 * sersic, 0.5)
     if rmax:
         x = k*(rmax / rhalf)**(1./sersic)
+        # note gammainc(a, x) is normalized by gamma(a)
         c = gammainc(3 * sersic, x) / gammainc(2 * sersic, x)
     else:
-        c = gamma(3 * sersic) / gamma(2 * sersic)
+        c = 1.0
+    c = c * gamma(3 * sersic) / gamma(2 * sersic)
     r_kron = rhalf / k**sersic * c
     return r_kron
 
-- 
2.43.0


From 114424b3316dfb9d3aec681b8aaee7e885be212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:25 +0000
Subject: [PATCH 46/48] fix: write_sourcereg makes the regions and writes them
 in the image directory

---
 forcepho/postprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index cbb6651..0f29529 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -14,7 +14,7 @@ from astropy.io import fits
 import h5py
 
 from .fitting import Result
-from .utils import sky_to_pix, populate_image, isophotal_radius
+from .utils import sky_to_pix, populate_image, isophotal_radius, cat_to_regions
 from .patches.storage import MetaStore
 from .superscene import flux_bounds
 
@@ -420,8 +420,8 @@ def write_sourcereg(root, slist="sources.reg", showid=False,
         roi[np.isnan(roi)] = cat["rhalf"][np.isnan(roi)]
     else:
         roi = cat["rhalf"]
-    regions = cat_to_reg(cat, roi=roi, ellipse=True)
-    regions.write(slist, format="ds9", overwrite=True)
+    regions = cat_to_regions(cat, roi=roi, ellipse=True, showid=showid)
+    regions.write(rfile, format="ds9", overwrite=True)
 
     return regions
 
-- 
2.43.0


From c8232736091b5a26eef0780ab19183d632ebf5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 47/48] fix: PSF centers are offset along the image axis they
 were measured on

params_to_gauss reversed the fitted (row, column) centers before applying
start and center, which psf_mixture gives in image-axis order, so that
the offsets of the wrong axis were used for images that are not square.
---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index ca05e9a..cf02173 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -161,7 +161,7 @@ def params_to_gauss(answer, oversample=8, start=0, center=504):
     # is this right?
     #TODO: work out zero index vs 0.5 index issues
     # need to flip x and y here
-    mu = (params[:, 1:3][:, ::-1] + start - center) / oversample
+    mu = (params[:, 1:3] + start - center)[:, ::-1] / oversample
     sy = params[:, 3] / oversample
     sx = params[:, 4] / oversample
     vxy = params[:, 5] * sx * sy
-- 
2.43.0


From 2ceb230b8edd596666dbcbd9a9656b3e2c6ec9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 48/48] fix: source regions are elongated along the source, not
 across it

---
 forcepho/utils/ds9.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/utils/ds9.py b/forcepho/utils/ds9.py
index 1eb01bd..69ec766 100644
--- a/forcepho/utils/ds9.py
+++ b/forcepho/utils/ds9.py
@@ -37,8 +37,9 @@ def cat_to_regions(cat, roi=None, ellipse=True, showid=True):
             pa = 0.0
         a = roi[i] / sqrtq
         b = sqrtq * roi[i]
-        reg = EllipseSkyRegion(center=center_sky, height=b * u.arcsec,
-                               width=a * u.arcsec, angle=pa * u.deg)
+        # the angle is E of N, so the long axis is the one towards N
+        reg = EllipseSkyRegion(center=center_sky, height=a * u.arcsec,
+                               width=b * u.arcsec, angle=pa * u.deg)
         regs.append(reg)
 
     reglist = Regions(regs)
-- 
2.43.0

