From c204740e749b4abe3a6ca109eda2e83b000a5817 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:26:06 +0000
Subject: [PATCH 01/33] fix: compute ln|dq/dz| as a sum of logs so it cannot
 underflow to -inf

---
 forcepho/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 18f637e..ea2c4af 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -583,8 +583,8 @@ class Transform(object):
     def lndetjac(self, z):
         """ln(|dq/dz|)
         """
-        return np.log(np.abs(np.prod(self.jacobian(z))))
-        # return np.sum(np.log(self.jacobian(z)))
+        # sum the logs; the product underflows for many or narrow parameters
+        return np.sum(np.log(np.abs(self.jacobian(z))))
 
     def lndetjac_grad(self, z):
         return np.zeros(len(z))
-- 
2.43.0


From fe932ff58bc07d3f689da1f7d2a793003992e89a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:26:06 +0000
Subject: [PATCH 02/33] fix: posterior cache key must not alias the caller's
 position array or match a real position before the first evaluation

---
 forcepho/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index ea2c4af..2b5f496 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -284,7 +284,7 @@ class FastPosterior(Posterior):
         # --- initialize some things ---
         self.sampling = sampling
         self.ncall = 0
-        self._z = -99
+        self._z = np.nan  # never equal to any position
         self._q = -99
         self.mhalf = np.array(-0.5, dtype=np.float64)
 
@@ -345,7 +345,8 @@ class FastPosterior(Posterior):
         # Assumes Jacobian is diagonal
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian
         self._q = q
-        self._z = z
+        # copy, so the cache key does not change if the caller reuses the array
+        self._z = np.array(z)
         # do volume correction when sampling
         if self.sampling:
             self._lnp += self._lndetjac
@@ -356,7 +357,7 @@ class FastPosterior(Posterior):
             print("chi2: {}".format(chi2))
 
         if self.logging:
-            self.pos_history.append(z)
+            self.pos_history.append(np.array(z))
             self.lnp_history.append(ll)
             self.grad_history.append(ll_grad)
 
@@ -430,7 +431,7 @@ class SlowPosterior(Posterior):
 
         # --- initialize some things ---
         self.ncall = 0
-        self._z = -99
+        self._z = np.nan  # never equal to any position
         self._q = -99
 
     def evaluate(self, z):
@@ -462,7 +463,8 @@ class SlowPosterior(Posterior):
         # gradient vector with a Jacobian matrix, but for now the jacobian is diagonal so this works
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
         self._q = q
-        self._z = z
+        # copy, so the cache key does not change if the caller reuses the array
+        self._z = np.array(z)
 
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
-- 
2.43.0


From 3c01d2a911dc3f741842ef439895d898b0d86e35 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:26:06 +0000
Subject: [PATCH 03/33] fix: accept bounds arrays whose lower (or upper) limits
 are all zero

---
 forcepho/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 2b5f496..7b3d428 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -62,7 +62,8 @@ class Posterior:
         self.ncall = 0
         self.ndof = 1.0
 
-        if (np.any(kwargs.get('lower')) and np.any(kwargs.get('upper'))) == bool(kwargs.get('transform')):
+        has_bounds = (kwargs.get('lower') is not None) and (kwargs.get('upper') is not None)
+        if has_bounds == (kwargs.get('transform') is not None):
             raise ValueError('Must specify either "transform" or ("lower","upper")')
 
         transform = kwargs.pop('transform', None)
-- 
2.43.0


From 043d74c7ec6abb457603992ec52a7d133456439b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:26:06 +0000
Subject: [PATCH 04/33] fix: SlowPosterior without a prior raised
 AttributeError on every evaluation

---
 forcepho/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/model.py b/forcepho/model.py
index 7b3d428..72075d4 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -427,11 +427,13 @@ class SlowPosterior(Posterior):
             self.plans = [WorkPlan(stamp) for stamp in stamps]
         else:
             self.plans = plans
+        self._lnpriorfn = None
         if lnprior is not None:
             self.lnprior = lnprior
 
         # --- initialize some things ---
         self.ncall = 0
+        self.ndof = 1.0
         self._z = np.nan  # never equal to any position
         self._q = -99
 
-- 
2.43.0


From 0d16ac74842810cb20a339bf475edf4c0f190ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 05/33] fix: adjust_bounds clipped fluxes to below their lower
 bound and read a missing attribute

---
 forcepho/superscene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccab493..54540ba 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -973,7 +973,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         scat = active
     else:
         bcat = sceneDB.bounds_catalog
-        scat = sceneDB.source_catalog
+        scat = sceneDB.sourcecat
 
     if minflux is None:
         minflux = config.minflux
@@ -995,7 +995,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         for b in bands:
             active[b][:] = np.clip(active[b][:],
                                    bcat[b][:, 0] + eps,
-                                   bcat[b][:, 0] - eps)
+                                   bcat[b][:, 1] - eps)
 
     if not isinstance(sceneDB, np.ndarray):
         sceneDB.check_bounds()
-- 
2.43.0


From 2c6f172ca5738f28776a3dc4fdc793b58e258309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 06/33] fix: convert_pa never settled in [-pi/2, pi/2]
 (negative limit had the wrong sign)

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 54540ba..2052df2 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -1024,7 +1024,7 @@ def convert_pa(pa_in, from_deg=False, rotate=False, reverse=False, max_try=4):
     count = 0
     while count < max_try:
         p = pa > np.pi / 2
-        n = pa < np.pi / 2
+        n = pa < -np.pi / 2
         if (p.sum() == 0) & (n.sum() == 0):
             break
         else:
-- 
2.43.0


From ee550fca46de7c1203f893b315edf0a28c21b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 07/33] fix: flux_bounds gave nan (then empty) bounds for
 sources of zero flux

---
 forcepho/superscene.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 2052df2..06545f1 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -948,11 +948,10 @@ def flux_bounds(flux, unc1, snr_max=10, precisions=None):
 
     else:
         # this is wierd
-        snr = np.sqrt(np.abs(flux)) / unc1
-        #snr = np.minimum(snr, snr_max)
+        # half-width is |flux| / snr, with snr = sqrt(|flux|) / unc1
+        noise = unc1 * np.sqrt(np.abs(flux))
 
         fmin = (unc1 / 2.)**2
-        noise = np.abs(flux) / snr
         lo = flux - noise
         hi = flux + noise
 
-- 
2.43.0


From 6b5f357292cfb122b737a2640294c012db6916f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 08/33] fix: make_bounds accepts the documented per-source
 positional half-widths

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 06545f1..c735eee 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -845,7 +845,7 @@ def make_bounds(active, filternames, shapenames=Galaxy.SHAPE_COLS, unccat=None,
         dpos = np.ones(2) * n_pix * pixscale
 
     dra = dpos[0] / 3600. / np.cos(np.deg2rad(active["dec"]))
-    ddec = np.array([dpos[1] / 3600.])
+    ddec = np.zeros(len(active)) + dpos[1] / 3600.
 
     # Make empty bounds catalog
     colnames = filternames + shapenames
-- 
2.43.0


From 9497dae5c1da1b25a9d15ec4e03187d680607e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 09/33] fix: seed weights must be zero for active sources
 (bitwise not of an integer column is never zero)

---
 forcepho/superscene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index c735eee..bd876ef 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -469,7 +469,7 @@ class SuperScene:
 
     def exp_weight(self):
         # just one for inactive, zero if active
-        w = (~self.sourcecat["is_valid"]).astype(np.float64)
+        w = (self.sourcecat["is_active"] == 0).astype(np.float64)
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
@@ -479,7 +479,7 @@ class SuperScene:
 
     def sigmoid_weight(self):
         # just one for inactive, zero if active
-        w = (~self.sourcecat["is_active"]).astype(np.float32)
+        w = (self.sourcecat["is_active"] == 0).astype(np.float64)
 
         # multiply by something inversely correlated with niter
         # sigmoid ?  This is ~ 0.5 at niter ~ntarget
-- 
2.43.0


From 292f943518bfc4b921edbe4e2d14a37776bd373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 10/33] fix: a seed too large for the maximum patch radius is
 an invalid region, not a crash

---
 forcepho/superscene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index bd876ef..ba47186 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -418,6 +418,9 @@ class SuperScene:
         N_inside = (metric < self.maxradius).sum()
         # restrict to <= maxactive.
         N_active = min(self.maxactive, N_inside)
+        if N_active == 0:
+            # no source fits within the maximum patch size
+            return None, None, None
 
         # set up to maxsources active, add them to active scene
         #active = candidates[order][:N_active]
-- 
2.43.0


From 644a76d81ae5be00d5ab2a19343ca43b9bb6417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 11/33] fix: linked checkout could make a source active in two
 regions at once

---
 forcepho/superscene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ba47186..10d263b 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -609,6 +609,9 @@ class LinkedSuperScene(SuperScene):
                 break
             active_inds += to_add
         active = self.sourcecat[active_inds]
+        # friends can lie beyond the boundary radius and already be checked out
+        if np.any(active["is_active"]):
+            return (seed["ra"], seed["dec"]), None, None
 
         # now redetermine the region center and the radius
         cra, cdec = np.mean(active["ra"]), np.mean(active["dec"])
-- 
2.43.0


From 99dbb770ca52dd6bb65d4e8be5601ccb0187ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 12/33] fix: footprint of non-square exposures used the x size
 for y

---
 forcepho/patches/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 1e6b5c4..7d36142 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -468,7 +468,7 @@ class MetaStore:
                 imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                 bbox = np.array([[0, 0],
                                  [0, imsize[1]],
-                                 [imsize[0], imsize[0]],
+                                 [imsize[0], imsize[1]],
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
-- 
2.43.0


From 12ff3228af73033affd52ff34d239c467ac37b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 13/33] fix: StorePatch never found an exposure because no WCS
 was built

---
 forcepho/patches/pixel_patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index d0f3d58..611845c 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -250,7 +250,8 @@ class StorePatch(PixelPatch):
                          splinedata=splinedata,
                          spline_smoothing=spline_smoothing)
 
-        self.metastore = MetaStore(metastore)
+        # find_exposures needs the WCS of every exposure
+        self.metastore = MetaStore(metastore, load_all=True)
         self.pixelstore = PixelStore(pixelstore)
 
     def find_exposures(self, region, bandlist):
-- 
2.43.0


From 0f746059fa4ff0fcdf13ea331c79d3f2971ce979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 14/33] fix: DirectPatch.find_exposures used a missing
 attribute and ignored the band list

---
 forcepho/patches/pixel_patch.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index 611845c..13c2763 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -532,17 +532,17 @@ class DirectPatch(PixelPatch):
         self.unc = None
 
     def find_exposures(self, region, bandlist, do_check=True):
-        epaths = list(self.wcs_dict.keys())
-        bands, hdrs, wcses = [], [], []
-
-        for epath in epaths:
-            hdr = self.header_dict[epath]
-            wcs = WCS(hdr)
-            band = hdr["FILTER"]
+        epaths, bands, hdrs, wcses = [], [], [], []
 
-            wcses.append(wcs)
-            bands.append(band)
-            hdrs.append(hdr)
+        # exposures must be returned in band order
+        for band in bandlist:
+            for epath, hdr in self.header_dict.items():
+                if hdr["FILTER"] != band:
+                    continue
+                epaths.append(epath)
+                wcses.append(WCS(hdr))
+                bands.append(band)
+                hdrs.append(hdr)
 
         return hdrs, wcses, epaths, bands
 
-- 
2.43.0


From 6644c7ada8d30e67dcc2b891d44f9c8ad2e55ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 15/33] fix: CPUProposer ignored the patch it was constructed
 with

---
 forcepho/proposal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/proposal.py b/forcepho/proposal.py
index 4bd3bd5..b7b7f68 100644
--- a/forcepho/proposal.py
+++ b/forcepho/proposal.py
@@ -199,6 +199,9 @@ class CPUProposer(ProposerBase):
             The residual image (data - model) for each exposure.  No padding.
             Only returned if patch.return_residual.
         """
+        if patch is None:
+            patch = self.patch
+
         self.device_proposal = self.send_to_device(proposal)
 
         n_bands, n_sources = patch.n_bands, patch.n_sources
-- 
2.43.0


From 9b9d99fc725ee3ea19056ab1747c911f9dd6db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 16/33] fix: render used stale device pointers, negated a list
 and ignored the data

---
 forcepho/patches/device_patch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 00e9a5f..dfe9f65 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -247,11 +247,13 @@ class DevicePatchMixin:
 
         proposal = scene.get_proposal()
         orig, self.return_residual = self.return_residual, True
+        _ = self.send_to_device()
         ret = proposer.evaluate_proposal(proposal, patch=self, unpack=True)
-        self.return_residual = True
+        self.return_residual = orig
         chi2, chi2_derivs, residuals = ret
-        image = -residuals
-        return image
+        # model is data minus residual
+        images = [d - r for d, r in zip(self.split_pix("data"), residuals)]
+        return images
 
     def free(self):
         pass
-- 
2.43.0


From 3deee8f41104ac7ba61d94e728160a04e9cc799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:34 +0000
Subject: [PATCH 17/33] fix: param_indices was wrong in scenes with fixed
 sources and raised without a filter name

---
 forcepho/sources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7b7545e..aa47edb 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -204,13 +204,15 @@ class Scene(object):
         inds : ndarray of ints
             Indices of the parameters for this source.
         """
-        npar_per_source = [s.n_params for s in self.active_sources[:sid]]
+        npar_per_source = [s.n_params for s in self.sources[:sid] if not s.fixed]
         # get all the shape parameters
         source = self.sources[sid]
         start = int(np.sum(npar_per_source))
         # indices of the shape and position parameters
         inds = list(range(start + source.n_bands, start + source.n_params))
-        # put in the flux for this source in this band
+        # put in the flux(es) for this source, in this band if given
+        if filtername is None:
+            return list(range(start, start + source.n_bands)) + inds
         inds.insert(0, start + source.filter_index(filtername))
         return inds
 
-- 
2.43.0


From 8429f9aa15d53917501c6d226e54192362b3e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:34 +0000
Subject: [PATCH 18/33] fix: scenes of stars or simple galaxies could not be
 built from a catalog

---
 forcepho/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index aa47edb..edc9566 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -251,7 +251,7 @@ class Source:
     sersic = 0.   # sersic index
     rhalf = 0.    # half light radius
 
-    def __init__(self, filters=['band'], radii=None):
+    def __init__(self, filters=['band'], radii=None, filternames=None):
         """
         Parameters
         ----------
@@ -264,6 +264,8 @@ class Source:
             The length of the supplied `filters` list will determine the length
             of the `flux` vector, accessible via the `n_bands` attribute.
         """
+        if filternames is not None:
+            filters = filternames
         assert type(filters) == list
         self.filternames = filters
         self.flux = np.zeros(len(self.filternames))
-- 
2.43.0


From 470e21add89841d622f48276dd64b02f30d29755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:34 +0000
Subject: [PATCH 19/33] fix: catalogs made from a scene rounded the coordinates
 to single precision

---
 forcepho/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index edc9566..b755ea9 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -440,7 +440,8 @@ class Source:
                 ["{}".format(b) for b in self.filternames] +
                 self.SHAPE_COLS)
         cols += extra_cols
-        self._cat_dtype = np.dtype([(c, np.float32) for c in cols])
+        # double precision, single loses ~0.05 arcsec in right ascension
+        self._cat_dtype = np.dtype([(c, np.float64) for c in cols])
         return self._cat_dtype
 
     def to_catalog_row(self, extra_cols=[]):
-- 
2.43.0


From 16e407e2a77e8637aa6f4e71e4924caf554d3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 20/33] fix: slow model gradients were nan for zero fluxes or
 zero mixture amplitudes

---
 forcepho/slow/gaussmodel.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 6b926be..4094fda 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -305,9 +305,11 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             # of Amplitude
             dA_dq = K / (2 * detF) * ddetF_dq  # 1
             dA_dpa = K / (2 * detF) * ddetF_dpa  # 1
-            dA_dflux = K / flux  # 1
-            dA_dsersic = K / am * da_dn[i]  # 1
-            dA_drh = K / am * da_dr[i]  # 1
+            # no division by the flux or amplitude, which can be zero
+            unit = G * al * detF**(0.5) / (2 * np.pi)
+            dA_dflux = unit * am  # 1
+            dA_dsersic = unit * flux * da_dn[i]  # 1
+            dA_drh = unit * flux * da_dr[i]  # 1
 
             # --- Add derivatives to gaussians ---
             # - As a list of just nonzero -
@@ -437,7 +439,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
 
     # --- Calculate derivatives ---
     if compute_deriv:
-        dC_dA = C / g.amp
+        dC_dA = Gp * H * root_det
         dC_dx = C*vx
         dC_dy = C*vy
         dC_dfx = -0.5*C*dx*dx
@@ -445,7 +447,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
         dC_dfxy = -1.0*C*dx*dy
 
     if compute_deriv and second_order:
-        c_h = C / H
+        c_h = g.amp * Gp * root_det
         dC_dx -= c_h * (g.fxx*vx + g.fxy*vy) / 12.
         dC_dy -= c_h * (g.fyy*vy + g.fxy*vx) / 12.
         dC_dfx -= c_h * (1. - 2.*dx*vx) / 24.
-- 
2.43.0


From d033816149a6673201146207e6d34601c4c2d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 21/33] fix: PSF means given in arcsec were not transformed
 component by component

---
 forcepho/slow/gaussmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 4094fda..0356a7e 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -125,7 +125,7 @@ def convert_to_gaussians(source, stamp, compute_deriv=False):
     # get PSF component means and covariances in the pixel space
     if psf.units == 'arcsec':
         pcovar = fast_matmul_matmul_2x2(D, psf.covariances, D.T)
-        pmeans = np.matmul(D, psf.means)
+        pmeans = np.matmul(psf.means, D.T)
         # FIXME need to adjust amplitudes to still sum to one?
         pamps = psf.amplitudes
     elif psf.units == 'pixels':
-- 
2.43.0


From d7d84d3f2d1a7b1709f73348c58e36c176a763e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 22/33] fix: the default gaussian PSF did not have the
 requested FWHM

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index 367bd6e..ca05e9a 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -110,7 +110,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
 
     else:
         psf = PointSpreadFunction()
-        psf.covariances *= fwhm / 2.355
+        psf.covariances *= (fwhm / 2.355)**2
 
     return psf
 
-- 
2.43.0


From 1b4f09c08762097d2b0378df103a758ee71d6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 23/33] fix: WorkPlan ignored the fixed sources

---
 forcepho/slow/likelihood.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index c1c7327..fd2b4c3 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -235,6 +235,12 @@ class WorkPlan(object):
                 # In reality we will want to multiply by chi and sum over
                 # pixels *HERE* to avoid storage
                 self.gradients[i, :, :] += np.matmul(g.derivs, dI_dphi)
+        # Fixed sources contribute to the residual but not to the gradients
+        kwargs = dict(self.compute_keywords, compute_deriv=False)
+        for i, gig in enumerate(self.fixed):
+            for g in gig.gaussians:
+                self.residual[self.nactive + i, ...] -= compute_gaussian(
+                    g, self.stamp.xpix.reshape(-1), self.stamp.ypix.reshape(-1), **kwargs)
 
     def lnlike(self, active=None, fixed=None):
         """Returns a scalar chi^2 value and a chi^2 gradient array of
-- 
2.43.0


From e95b785f23d43a7af2c1a57e1494af5c6b547d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 24/33] fix: FastWorkPlan changed the options of every other
 work plan

---
 forcepho/slow/likelihood.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index fd2b4c3..1d98d7b 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -225,7 +225,7 @@ class WorkPlan(object):
                 # Get counts and gradients for each Gaussian in GaussianGalaxy
                 I, dI_dphi = compute_gaussian(g, self.stamp.xpix.reshape(-1),
                                               self.stamp.ypix.reshape(-1),
-                                              **self.compute_keywords)
+                                              **dict(self.compute_keywords, compute_deriv=True))
                 # Store the residual.  In reality we will want to sum over
                 # sources here (and divide by error) to compute chi directly
                 # and avoid huge storage.
@@ -293,20 +293,18 @@ class FastWorkPlan(WorkPlan):
         for i, gig in enumerate(self.active + self.fixed):
             for j, g in enumerate(gig.gaussians):
                 # get the image counts for each Gaussian in a GaussianGalaxy
-                self.compute_keywords['compute_deriv'] = False
                 self.residual -= compute_gaussian(g, self.stamp.xpix.flat,
                                                   self.stamp.ypix.flat,
-                                                  **self.compute_keywords)
+                                                  **dict(self.compute_keywords, compute_deriv=False))
         self.chi = self.residual * self.ierr
         self.chivar = self.chi * self.ierr
         # Loop only over active to get the chisq gradients
         for i, gig in enumerate(self.active):
             for j, g in enumerate(gig.gaussians):
-                self.compute_keywords['compute_deriv'] = True
                 # get the image gradients for each Gaussian in a GaussianGalaxy
                 I, dI_dphi = compute_gaussian(g, self.stamp.xpix.flat,
                                               self.stamp.ypix.flat,
-                                              **self.compute_keywords)
+                                              **dict(self.compute_keywords, compute_deriv=True))
                 # Accumulate the *chisq* derivatives w.r.t. theta from each Gaussian
                 # This matrix multiply can be optimized (g.derivs is sparse)
                 self.gradients[i, :] += np.matmul(g.derivs, np.matmul(dI_dphi, self.chivar))
-- 
2.43.0


From 9ee180db3c394e01e92d1d2ce3c6b3132dc02c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 25/33] fix: gradients of fixed sources were added to those of
 other sources

---
 forcepho/slow/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index 1d98d7b..4f08dca 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -153,7 +153,7 @@ def plan_sources(plan, scene, stamp_index=None):
             # OFF IMAGE
             continue
         gig = convert_to_gaussians(source, stamp)
-        if coverage == 1:
+        if (coverage == 1) or source.fixed:
             # FIXED
             fixed.append(gig)
             continue
-- 
2.43.0


From 0d5b61c6b8994f6d24cf9e5154d93db0535c1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:29 +0000
Subject: [PATCH 26/33] fix: run_opt reported half of the scaled objective as
 the log-probability

---
 forcepho/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f4e7481..0476590 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -444,7 +444,7 @@ def run_opt(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun * model.ndof
     result.wall_time = tsample
 
     result.fun = scires.fun
@@ -489,7 +489,7 @@ def run_opt_bounded(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun * model.ndof
     result.wall_time = tsample
 
     result.fun = scires.fun
-- 
2.43.0


From 03f2445cde6474307092544bc3a88f9192e28a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:29 +0000
Subject: [PATCH 27/33] fix: command line options given as --key=value or
 abbreviated were ignored

---
 forcepho/config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index e641006..0ca62a0 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -266,13 +266,15 @@ def rectify_config(config):
 
 
 def new_args(parser, argv):
+    # parse into a namespace where nothing has its default value yet, so that
+    # only the arguments given in `argv` (in any spelling) get replaced
+    unset = object()
+    oconf = Namespace(**{k: unset for k in vars(parser.parse_args([]))})
+    oconf = parser.parse_args(argv, namespace=oconf)
     nconf = Namespace()
-    oconf = parser.parse_args(argv)
     for k, v in vars(oconf).items():
-        #if v == parset.get_default(k):
-        if f"--{k}" not in argv:  # Ugly HACK
-            continue
-        setattr(nconf, k, v)
+        if v is not unset:
+            setattr(nconf, k, v)
     return nconf
 
 
-- 
2.43.0


From 23d6e62fb3011fea0b652d375cceeef52c158c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:29 +0000
Subject: [PATCH 28/33] fix: configuration given as a dictionary was handed to
 the yaml parser

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 0ca62a0..74ff69f 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -210,7 +210,7 @@ def yaml_to_namespace(config_file):
         with open(config_file) as f:
             config_dict = yaml.load(f, Loader=yaml.Loader)
     elif type(config_file) is dict:
-        config_dict = yaml.load(config_file, Loader=yaml.Loader)
+        config_dict = config_file
 
     config = Namespace(**config_dict)
 
-- 
2.43.0


From 3bb6148097c7c01cfcf98edd31c8d685d1bcc5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:29 +0000
Subject: [PATCH 29/33] fix: fill_images wrote the padding into the last pixel
 of the image

---
 forcepho/postprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 813888f..3732f71 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -141,7 +141,8 @@ class Residuals:
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-            images[e][xpix, ypix] = arr
+            g = (xpix >= 0) & (ypix >= 0)  # skip the padding
+            images[e][xpix[g], ypix[g]] = arr[g]
 
         return images, headers
 
-- 
2.43.0


From 57b44753dd138f6caa71773dd861f679a5918185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:29 +0000
Subject: [PATCH 30/33] fix: dispatcher imported read_config from the wrong
 module

---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 2c7a088..f007fd0 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -18,7 +18,7 @@ import numpy as np
 from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
-from .utils import read_config
+from .config import read_config
 #from .child import sampling_task, optimization_task
 
 
-- 
2.43.0


From 5ba636cd7261d2fb2500efc23ef89762e4d4fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:03 +0000
Subject: [PATCH 31/33] fix: find_multipatch indexed the patches by their
 position in the log

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 3732f71..ea94091 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -371,7 +371,7 @@ def find_multipatch(root):
         A list of the posterior sample chains for each source.
     """
     config, plog, slog, final = run_metadata(root)
-    samples = [Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog]
+    samples = {int(p): Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog}
     chains, sources, patches = [], [], []
     for sid, pids in slog.items():
         if len(pids) == 1:
-- 
2.43.0


From 6be7929a8cb33d6100cc3bb0d301fdcf2229f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:32 +0000
Subject: [PATCH 32/33] fix: append_catalogs named the primary HDU after the
 first table

---
 forcepho/utils/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 63b13d0..158acf0 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -49,7 +49,9 @@ def append_catalogs(infilenames, out):
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
                     catlists[i].append(hdul[i].data.copy())
-            hdr = hdul[1].header
+            # not the structural keywords or the name of this extension
+            hdr = hdul[1].header.copy(strip=True)
+            hdr.remove("EXTNAME", ignore_missing=True)
 
     cats = [np.concatenate(catlist)
             for catlist in catlists]
-- 
2.43.0


From 5df200eb42bccbca6a9ebb798e68537311c246e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:32 +0000
Subject: [PATCH 33/33] fix: append_catalogs took unnamed tables one extension
 too early

---
 forcepho/utils/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 158acf0..4ca2e44 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -48,7 +48,7 @@ def append_catalogs(infilenames, out):
                 try:
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
-                    catlists[i].append(hdul[i].data.copy())
+                    catlists[i].append(hdul[i + 1].data.copy())
             # not the structural keywords or the name of this extension
             hdr = hdul[1].header.copy(strip=True)
             hdr.remove("EXTNAME", ignore_missing=True)
-- 
2.43.0

