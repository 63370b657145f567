From ef20e4b7c5cf2d2e7d8863fb6658195204a89a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 01/41] fix: evaluate FDF and RMSF at -2*phi, not at the
 reversed grid

The NUFFT was evaluated at +2*phi on the reversed Faraday-depth grid, which is
exp(-2i phi lambda^2) only when the grid is symmetric about zero.
---
 RMutils/util_RM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..65b9e5c 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -202,7 +202,7 @@ def do_rmsynth_planes(
         finufft.nufft1d3(
             x=a,
             c=np.ascontiguousarray(pCube.T),
-            s=(phiArr_radm2[::-1] * 2).astype(a.dtype),
+            s=(-2 * phiArr_radm2).astype(a.dtype),
             eps=eps,
         )
         * KArr[..., None]
@@ -403,7 +403,7 @@ def get_rmsf_planes(
             finufft.nufft1d3(
                 x=a,
                 c=np.ascontiguousarray(weightCube.T),
-                s=(phi2Arr[::-1] * 2).astype(a.dtype),
+                s=(-2 * phi2Arr).astype(a.dtype),
                 eps=eps,
             )
             * KArr[..., None]
-- 
2.43.0


From cbfc9ae20daf26d75fbb4131a9aa165d81ab89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 02/41] fix: keep the windowed-CLEAN mask inside the spectrum
 at the low Faraday-depth edge

A negative slice start wrapped around, so the window around a component close
to the first Faraday depth came out empty.
---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 65b9e5c..9a536af 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -732,7 +732,7 @@ class RMcleaner:
         dPhi = self.phiArr_radm2[1] - self.phiArr_radm2[0]
         fwhmRMSFArr_pix = fwhmRMSFArr / dPhi
         for i in np.where(mask)[0]:
-            start = int(i - fwhmRMSFArr_pix / 2)
+            start = max(int(i - fwhmRMSFArr_pix / 2), 0)
             end = int(i + fwhmRMSFArr_pix / 2)
             mask[start:end] = True
         residFDF_mask = np.ma.array(residFDF, mask=~mask)
-- 
2.43.0


From 25476e57784a6600b99f726aa82d712098492c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 03/41] fix: report RM-CLEAN iteration counts when running with
 a process pool

---
 RMutils/util_RM.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 9a536af..597ab91 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -624,6 +624,8 @@ def do_rmclean_hogbom(
         ccArr[:, yi, xi] = output[i][2]
         cleanFDF[:, yi, xi] = output[i][0]
         residFDF[:, yi, xi] = output[i][1]
+        # Workers in other processes cannot update iterCountArr in place
+        iterCountArr[yi, xi] = output[i].iterCount
 
     # Restore the residual to the CLEANed FDF (moved outside of loop:
     # will now work for pixels/spectra without clean components)
@@ -648,6 +650,8 @@ class CleanLoopResults(NamedTuple):
     """The residual Faraday dispersion function cube"""
     ccArr: np.ndarray
     """The clean components cube"""
+    iterCount: int
+    """The number of iterations performed"""
 
 
 class RMcleaner:
@@ -775,7 +779,9 @@ class RMcleaner:
         residFDF = np.squeeze(residFDF)
         ccArr = np.squeeze(ccArr)
 
-        return CleanLoopResults(cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr)
+        return CleanLoopResults(
+            cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr, iterCount=iterCount
+        )
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From bb3f1042faf96fb43b3ad651f20c06b7f05b2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 04/41] fix: propagate Stokes I log-model errors with the full
 Jacobian when changing reference frequency

The f-coefficient variance used cov[0,5] where the b variance belongs, and the
variance of g lacked the ln(10)^2 factor on the terms not involving g.
---
 RMutils/util_misc.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..f2527d8 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -658,7 +658,7 @@ def renormalize_StokesI_model(
                 + 30 * lnx**6 * cov[0, 2]
                 + 20 * lnx**5 * cov[0, 3]
                 + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
+                + 16 * lnx**6 * cov[1, 1]
                 + 24 * lnx**5 * cov[1, 2]
                 + 16 * lnx**4 * cov[1, 3]
                 + 8 * lnx**3 * cov[1, 4]
@@ -671,25 +671,28 @@ def renormalize_StokesI_model(
             ),
             np.abs(g2)
             * np.sqrt(
-                lnx**10 * cov[0, 0]
-                + 2 * lnx**9 * cov[0, 1]
-                + 2 * lnx**8 * cov[0, 2]
-                + 2 * lnx**7 * cov[0, 3]
-                + 2 * lnx**6 * cov[0, 4]
+                np.log(10) ** 2
+                * (
+                    lnx**10 * cov[0, 0]
+                    + 2 * lnx**9 * cov[0, 1]
+                    + 2 * lnx**8 * cov[0, 2]
+                    + 2 * lnx**7 * cov[0, 3]
+                    + 2 * lnx**6 * cov[0, 4]
+                    + lnx**8 * cov[1, 1]
+                    + 2 * lnx**7 * cov[1, 2]
+                    + 2 * lnx**6 * cov[1, 3]
+                    + 2 * lnx**5 * cov[1, 4]
+                    + lnx**6 * cov[2, 2]
+                    + 2 * lnx**5 * cov[2, 3]
+                    + 2 * lnx**4 * cov[2, 4]
+                    + lnx**4 * cov[3, 3]
+                    + 2 * lnx**3 * cov[3, 4]
+                    + lnx**2 * cov[4, 4]
+                )
                 + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
-                + lnx**8 * cov[1, 1]
-                + 2 * lnx**7 * cov[1, 2]
-                + 2 * lnx**6 * cov[1, 3]
-                + 2 * lnx**5 * cov[1, 4]
                 + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
-                + lnx**6 * cov[2, 2]
-                + 2 * lnx**5 * cov[2, 3]
-                + 2 * lnx**4 * cov[2, 4]
                 + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
-                + lnx**4 * cov[3, 3]
-                + 2 * lnx**3 * cov[3, 4]
                 + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
-                + lnx**2 * cov[4, 4]
                 + 2 * lnx / g * np.log(10) * cov[4, 5]
                 + 1 / g**2 * cov[5, 5]
             ),
-- 
2.43.0


From 71198ad68097cee7f0e03043ed2477eba94d27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 05/41] fix: treat a channel as used in rmsynth1d only when
 both q and u are finite

The RMSF mask, theoretical noise, channel statistics and measured
uncertainties now all refer to the channels that enter the FDF sum.
---
 RMtools_1D/do_RMsynth_1D.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..df96e9a 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -298,6 +298,9 @@ def run_rmsynth(
     if verbose:
         log("Weight type is '%s'." % weightType)
 
+    # Channels missing either q or u take no part in the RM synthesis
+    usedChans = np.isfinite(qArr) & np.isfinite(uArr)
+
     startTime = time.time()
 
     # Perform RM-synthesis on the spectrum
@@ -317,7 +320,7 @@ def run_rmsynth(
         lambdaSqArr_m2=lambdaSqArr_m2,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=~usedChans,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF or super_resolution,
@@ -366,8 +369,11 @@ def run_rmsynth(
 
     # Calculate the theoretical noise in the FDF !!Old formula only works for wariance weights!
     weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    usedChans = np.logical_and(weightArr != 0, usedChans)
+    usedWeightArr = np.where(usedChans, weightArr, 0.0)
     dFDFth = np.abs(Ifreq0) * np.sqrt(
-        np.nansum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
+        np.nansum(usedWeightArr**2 * np.nan_to_num(dquArr) ** 2)
+        / (np.sum(usedWeightArr)) ** 2
     )
 
     # Measure the parameters of the dirty FDF
@@ -377,7 +383,7 @@ def run_rmsynth(
         phiArr=phiArr_radm2,
         fwhmRMSF=fwhmRMSF,
         dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[usedChans],
         lam0Sq=lam0Sq_m2,
     )
     mDict["Ifreq0"] = toscalar(Ifreq0)
@@ -404,7 +410,7 @@ def run_rmsynth(
         log("Caution: Stokes I model has low signal-to-noise.")
 
     # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    good_channels = np.where(usedChans)[0]
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-- 
2.43.0


From 8704a48bdb54cc3da0bd186a21c96e9fc78e94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 06/41] fix: mask the rmsynth3d RMSF with exactly the samples
 left out of the FDF

---
 RMtools_3D/do_RMsynth_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..969768e 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -213,7 +213,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 09f6e4e228e35aacf46ba2402bc95ab344f36557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 07/41] fix: honour nBits in rmsynth3d

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 969768e..fd2b37c 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -200,7 +200,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            nBits=32,
+            nBits=nBits,
             lam0Sq_m2=0 if super_resolution else None,
         )
     else:
@@ -218,7 +218,7 @@ def run_rmsynth(
             double=True,
             fitRMSF=fitRMSF or super_resolution,
             fitRMSFreal=super_resolution,
-            nBits=32,
+            nBits=nBits,
             verbose=verbose,
             log=log,
         )
-- 
2.43.0


From 64ddd397266d3ec0fdfe7cff823fc58461fd5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 08/41] fix: interpolate the Stokes I cube to the reference
 frequency in rmsynth3d

The plane pair was averaged with equal weights, and for cubes in order of
descending frequency the pair did not bracket the reference frequency.
---
 RMtools_3D/do_RMsynth_3D.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fd2b37c..21b3dc1 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -240,12 +240,18 @@ def run_rmsynth(
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
         idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
-        else:
+        if freqArr_Hz[idx] == freq0_Hz:
             Ifreq0Arr = dataI[idx, :, :]
+        else:
+            # Interpolate to freq0_Hz between the two planes on either side of it,
+            # whichever way the frequencies run.
+            ascending = freqArr_Hz[-1] > freqArr_Hz[0]
+            idx2 = idx + 1 if (freqArr_Hz[idx] < freq0_Hz) == ascending else idx - 1
+            Ifreq0Arr = interp_images(
+                dataI[idx, :, :],
+                dataI[idx2, :, :],
+                f=(freq0_Hz - freqArr_Hz[idx]) / (freqArr_Hz[idx2] - freqArr_Hz[idx]),
+            )
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
         FDFcube *= Ifreq0Arr
-- 
2.43.0


From d3932cd8101e1f02f1fa232ffe9fc387127b5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 09/41] fix: count only the fitted channels in the Stokes I
 fit's degrees of freedom

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f2527d8..054f12f 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -516,7 +516,7 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         )
         aic = 2 * (polyOrd + 1) + mp.fnorm
 
-    dof = len(freqArr) - polyOrd - 1
+    dof = int(np.sum(goodchan)) - polyOrd - 1
     return FitResult(
         params=mp.params,
         fitStatus=int(np.abs(mp.status)),
-- 
2.43.0


From dcc98c42b6c5840afb070e587c75277b74987ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 10/41] fix: interpolate the Stokes I cube to the reference
 frequency in rmtools_peakfitcube

Same two faults as in rmsynth3d (equal weights, wrong pair of planes for
descending frequencies), and an infinite reference frequency when LAMSQ0 is 0.
---
 RMtools_3D/RMpeakfit_3D.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d218f06..162c0a4 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -72,19 +72,26 @@ def pixelwise_peak_fitting(
         map_dict[parameter] = np.zeros(map_size)
 
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
-    freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    # Without a reference wavelength (super-resolution), follow rmsynth3d
+    freq0_Hz = (
+        speed_of_light.value / np.sqrt(lam0Sq)
+        if lam0Sq > 0
+        else np.nanmean(freqArr_Hz)
+    )
     if stokesIcube is not None:
         idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx, :, :], stokesIcube[idx + 1, :, :], f=0.5
-            )
-        elif freqArr_Hz[idx] > freq0_Hz:
+        if freqArr_Hz[idx] == freq0_Hz:
+            Ifreq0Arr = stokesIcube[idx, :, :]
+        else:
+            # Interpolate to freq0_Hz between the two planes on either side of it,
+            # whichever way the frequencies run.
+            ascending = freqArr_Hz[-1] > freqArr_Hz[0]
+            idx2 = idx + 1 if (freqArr_Hz[idx] < freq0_Hz) == ascending else idx - 1
             Ifreq0Arr = interp_images(
-                stokesIcube[idx - 1, :, :], stokesIcube[idx, :, :], f=0.5
+                stokesIcube[idx, :, :],
+                stokesIcube[idx2, :, :],
+                f=(freq0_Hz - freqArr_Hz[idx]) / (freqArr_Hz[idx2] - freqArr_Hz[idx]),
             )
-        else:
-            Ifreq0Arr = stokesIcube[idx, :, :]
     else:
         Ifreq0Arr = np.ones(map_size)
         stokesIcube = np.ones((freqArr_Hz.size, map_size[0], map_size[1]))
-- 
2.43.0


From 30814ff68408850b6a8727e9c8510b980aa5f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 11/41] fix: use the same speed of light in rmtools_rescale3D
 as in the rest of the package

---
 RMtools_3D/rescale_I_model_3D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..8a86407 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -51,6 +51,7 @@ from functools import partial
 
 import astropy.io.fits as pf
 import numpy as np
+from astropy.constants import c as speed_of_light
 
 from RMutils.util_misc import FitResult, renormalize_StokesI_model
 
@@ -154,7 +155,7 @@ def command_line():
     if args.lambda2_0 is not None:
         FDF_header = pf.getheader(args.lambda2_0)
         lam0Sq_m2 = FDF_header["LAMSQ0"]
-        freq0 = 2.997924538e8 / np.sqrt(lam0Sq_m2)
+        freq0 = speed_of_light.value / np.sqrt(lam0Sq_m2)
         new_freq_map = np.ones_like(old_reffreq_map) * freq0
     elif args.new_reffreq is not None:
         new_freq_map = np.ones_like(old_reffreq_map) * args.new_reffreq
-- 
2.43.0


From 675bee32e82d48761b4d4ad16516525bf65dab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 12/41] fix: square the Faraday dispersion in simulated
 Burn-law spectra

The depolarisation factor is exp(-2 sigma_RM^2 lambda^4).
---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 054f12f..64c5a68 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1202,7 +1202,7 @@ def create_pqu_spectra_burn(
     pArr = fracPolArr * np.ones((nComps, nChans), dtype="f8")
     quArr = pArr * (
         np.exp(2j * (np.radians(psi0Arr_deg) + RMArr_radm2 * lamSqArr_m2))
-        * np.exp(-2.0 * sigmaRMArr_radm2 * np.power(lamArr_m, 4.0))
+        * np.exp(-2.0 * np.power(sigmaRMArr_radm2, 2.0) * np.power(lamArr_m, 4.0))
     )
 
     # Sum along the component axis to create the final spectra
-- 
2.43.0


From 085e6defbe01ff3279fa8cc4eef93c72f72fc1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 13/41] fix: include the 2k term in the corrected Akaike
 criterion of QU-fitting

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..f6cfb6f 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -456,7 +456,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From 94aa9460b1580c4bd2a93abbaf0b7b8783e300a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 14/41] fix: count only the measured points in the goodness of
 fit of QU-fitting

Flagged channels (NaN) do not enter chi-squared, so they must not enter the
degrees of freedom and the sample size of AICc and BIC either; a channel with
only Q or only U flagged still contributes the other one, as it does in the
likelihood.
---
 RMtools_1D/do_QUfit_1D_mnest.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index f6cfb6f..7364e29 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -451,7 +451,9 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    nData = float(
+        np.sum(np.isfinite(qArr / dqArr)) + np.sum(np.isfinite(uArr / duArr))
+    )
     dof = nData - nFree - 1
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
@@ -640,9 +642,8 @@ def chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model):
     # Evaluate the model and calculate chisq
     pDict = {k: v for k, v in zip(parNames, p)}
     quMod = model(pDict, lamSqArr_m2)
-    chisq = np.nansum(
-        np.power((qArr - quMod.real) / dqArr, 2)
-        + np.power((uArr - quMod.imag) / duArr, 2)
+    chisq = np.nansum(np.power((qArr - quMod.real) / dqArr, 2)) + np.nansum(
+        np.power((uArr - quMod.imag) / duArr, 2)
     )
 
     return chisq
-- 
2.43.0


From bc9fc225a496e3cd77289232645350c53ebccb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 15/41] fix: create_pqu_spectra_diff accepts lists of component
 parameters, as documented

psi0Arr_deg was never converted to an array (only its value in radians, the one
that is used), so reshaping it raised an AttributeError for lists.
---
 RMutils/util_misc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 64c5a68..0617031 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1266,7 +1266,6 @@ def create_pqu_spectra_diff(freqArr_Hz, fracPolArr, psi0Arr_deg, RMArr_radm2):
 
     # Convert the inputs to column vectors
     fracPolArr = fracPolArr.reshape((nComps, 1))
-    psi0Arr_deg = psi0Arr_deg.reshape((nComps, 1))
     RMArr_radm2 = RMArr_radm2.reshape((nComps, 1))
 
     # Calculate the p, q and u Spectra for all components
-- 
2.43.0


From 630f115c71601b3cff2cb40315ad3063c0f53af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 16/41] fix: peakfit3d's theoretical noise is positive where
 the Stokes I model is negative

As in rmsynth1d, the channel noise is scaled by the absolute value of Stokes I:
pixels with a negative model got a negative noise, hence negative signal-to-noise
ratios and uncertainties.
---
 RMtools_3D/RMpeakfit_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 162c0a4..0cb4454 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -107,7 +107,7 @@ def pixelwise_peak_fitting(
         else:
             raise Exception("Invalid weight type; must be 'uniform' or 'variance'")
 
-        dFDF = Ifreq0Arr * np.sqrt(
+        dFDF = np.abs(Ifreq0Arr) * np.sqrt(
             np.sum(weightArr**2 * np.nan_to_num(noiseArr) ** 2)
             / (np.sum(weightArr)) ** 2
         )
-- 
2.43.0


From bdb442701b3ca53316afa4ecb359a132748aae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 17/41] fix: fits_make_lin_axis returns exactly one value per
 channel of the axis

The number of channels was recomputed as int(range/CDELT + 1), which loses the
last channel to rounding for many spacings (e.g. 25 channels of 0.7 rad/m^2 gave
24 stretched values), and gave a negative number for a decreasing axis.
---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 597ab91..63a4c24 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -798,7 +798,7 @@ def fits_make_lin_axis(head, axis=0, dtype="f4"):
     stop = (
         head["CRVAL" + i] + (head["NAXIS" + i] - head["CRPIX" + i]) * head["CDELT" + i]
     )
-    nChan = int(abs(start - stop) / head["CDELT" + i] + 1)
+    nChan = int(head["NAXIS" + i])
 
     return np.linspace(start, stop, nChan).astype(dtype)
 
-- 
2.43.0


From 4f0a932bc3a767cc37dca012300e19bd0f77fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 18/41] fix: rmclean3d and peakfit3d find their files in
 directories such as my_images

The real, imaginary and FWHM counterparts of a cube were found by replacing _tot,
_im and _real anywhere in the path, so any directory or prefix containing one of
these (my_images, q_total, ...) led to files that do not exist.
---
 RMtools_3D/RMpeakfit_3D.py  |  5 +++--
 RMtools_3D/do_RMclean_3D.py | 20 +++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 0cb4454..f642682 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -16,6 +16,7 @@ import numpy as np
 from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
+from RMtools_3D.do_RMclean_3D import component_filename
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
 from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
@@ -269,7 +270,7 @@ def read_files(FDF_filename, freq_filename):
     """
 
     HDUreal = pf.open(
-        FDF_filename.replace("_tot", "_real").replace("_im", "_real"),
+        component_filename(FDF_filename, "_real"),
         "readonly",
         memmap=True,
     )
@@ -277,7 +278,7 @@ def read_files(FDF_filename, freq_filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        FDF_filename.replace("_tot", "_im").replace("_real", "_im"),
+        component_filename(FDF_filename, "_im"),
         "readonly",
         memmap=True,
     )
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 8e7a9a8..5f2ac87 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -35,6 +35,7 @@
 # =============================================================================#
 
 import os
+import re
 import sys
 import time
 
@@ -109,9 +110,7 @@ def run_rmclean(
 
     RMSFArr, headRMSF, FD_axis = read_FDF_cubes(fitsRMSF)
     HDULst = pf.open(
-        fitsRMSF.replace("_real", "_FWHM")
-        .replace("_im", "_FWHM")
-        .replace("_tot", "_FWHM"),
+        component_filename(fitsRMSF, "_FWHM"),
         "readonly",
         memmap=True,
     )
@@ -385,6 +384,15 @@ def find_axes(header):
     return Ndim, FD_axis
 
 
+def component_filename(filename, component):
+    """Name of the file with another component (_real, _im, _tot, _FWHM) of a
+    cube. Only the component label of the file itself is replaced, not similar
+    text in its directory or prefix (e.g. my_images/FDF_tot_dirty.fits)."""
+    directory, name = os.path.split(filename)
+    name = re.sub(r"_(real|im|tot)(?!.*_(real|im|tot))", component, name)
+    return os.path.join(directory, name)
+
+
 def read_FDF_cubes(filename):
     """Read in a FDF/RMSF cube. Input filename can be any of real, imag, or tot components.
     Figures out which axis is Faraday depth and
@@ -392,16 +400,14 @@ def read_FDF_cubes(filename):
     Returns: (complex_cube, header,FD_axis)
     """
     HDUreal = pf.open(
-        filename.replace("_tot", "_real").replace("_im", "_real"),
+        component_filename(filename, "_real"),
         "readonly",
         memmap=True,
     )
     head = HDUreal[0].header.copy()
     FDFreal = HDUreal[0].data
 
-    HDUimag = pf.open(
-        filename.replace("_tot", "_im").replace("_real", "_im"), "readonly", memmap=True
-    )
+    HDUimag = pf.open(component_filename(filename, "_im"), "readonly", memmap=True)
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
 
-- 
2.43.0


From d91f5d1b5f921ee2fed8d647810b5be07e84ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 19/41] fix: write outputs for cubes whose header does not have
 CTYPE keywords

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 RMutils/util_misc.py        | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 21b3dc1..0ad8434 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -623,7 +623,7 @@ def writefits(
 
         stokes_axis = None
         for axis in range(1, header["NAXIS"] + 1):
-            if "STOKES" in header[f"CTYPE{axis}"]:
+            if "STOKES" in header.get(f"CTYPE{axis}", ""):
                 stokes_axis = axis
         if stokes_axis is not None:
             header[f"CTYPE{stokes_axis}"] = (
@@ -677,7 +677,7 @@ def _setStokes(header, stokes):
     outheader = header.copy()
     stokes_axis = None
     for axis in range(1, header["NAXIS"] + 1):
-        if "STOKES" in header[f"CTYPE{axis}"]:
+        if "STOKES" in header.get(f"CTYPE{axis}", ""):
             stokes_axis = axis
 
     if stokes_axis is not None:
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 0617031..df70a23 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -115,7 +115,8 @@ def update_position_wcsaxes(header):
 
     # Find the first occurrence of any WCS-related keyword
     insert_pos = min(
-        header_keys.index(key) for key in wcs_keywords if key in header_keys
+        (header_keys.index(key) for key in wcs_keywords if key in header_keys),
+        default=len(header_keys),
     )
 
     # Insert WCSAXES at the correct position
-- 
2.43.0


From b7404778ba1c977728d55474a184ea7e39cef426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 20/41] fix: keep degenerate sky axes in their place in
 rmclean3d

---
 RMtools_3D/do_RMclean_3D.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 5f2ac87..dd1f723 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -144,22 +144,14 @@ def run_rmclean(
     if verbose:
         log("Saving the clean FDF and ancillary FITS files")
 
-    # Move FD axis back to original position, and restore dimensionality:
-    old_Ndim, FD_axis = find_axes(head)
-    new_Ndim = cleanFDF.ndim
-    # The difference is the number of dimensions that need to be added:
-    if old_Ndim - new_Ndim != 0:  # add missing (degenerate) dimensions back in
-        cleanFDF = np.expand_dims(cleanFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-        ccArr = np.expand_dims(ccArr, axis=tuple(range(old_Ndim - new_Ndim)))
-        residFDF = np.expand_dims(residFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-    # New dimensions are added to the beginning of the axis ordering
-    # (revserse of FITS ordering)
-
-    # Move the FDF axis to it's original spot. Hopefully this means that all
-    # axes are in their original place after all of that.
-    cleanFDF = np.moveaxis(cleanFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    ccArr = np.moveaxis(ccArr, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    residFDF = np.moveaxis(residFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
+    # Restore the degenerate axes (wherever they are), and move the FD axis back
+    # to its original spot, so that the axes agree with the header again.
+    Ndim, FD_axis = find_axes(head)
+    output_axes = [head["NAXIS" + str(i)] for i in range(Ndim, 0, -1) if i != FD_axis]
+    output_axes.insert(0, phiArr_radm2.size)
+    cleanFDF = np.moveaxis(np.reshape(cleanFDF, output_axes), 0, Ndim - FD_axis)
+    ccArr = np.moveaxis(np.reshape(ccArr, output_axes), 0, Ndim - FD_axis)
+    residFDF = np.moveaxis(np.reshape(residFDF, output_axes), 0, Ndim - FD_axis)
 
     return cleanFDF, ccArr, iterCountArr, residFDF, head
 
@@ -321,11 +313,12 @@ def writefits(
     header["BUNIT"] = "Iterations"
     if "STOKES" in header:
         del header["STOKES"]
+    Ndim, FD_axis = find_axes(headtemp)
+    map_axes = [
+        1 if i == FD_axis else headtemp["NAXIS" + str(i)] for i in range(Ndim, 0, -1)
+    ]
     hdu0 = pf.PrimaryHDU(
-        np.expand_dims(
-            iterCountArr.astype(dtFloat),
-            axis=tuple(range(headtemp["NAXIS"] - iterCountArr.ndim)),
-        ),
+        np.reshape(iterCountArr.astype(dtFloat), map_axes),
         header,
     )
     hduLst = pf.HDUList([hdu0])
-- 
2.43.0


From 4b7978d6f763ecd2b9b9a1ad83103c35198cb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 21/41] fix: give the peak maps of rmsynth3d the axes of their
 header when frequency is not the last axis

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 0ad8434..a2fdf9d 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -636,7 +636,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(maxPI.astype(dtFloat), axis=0),
+            np.expand_dims(maxPI.astype(dtFloat), axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
@@ -649,7 +649,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(peakRM, axis=0),
+            np.expand_dims(peakRM, axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
-- 
2.43.0


From bfc7626c7cae2df7db4ebf37f41d523e68c3fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 22/41] fix: a blanked pixel in the Stokes I cube no longer
 blanks its neighbours at the reference frequency

---
 RMutils/util_misc.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index df70a23..03ffb72 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -77,7 +77,6 @@ from typing import NamedTuple, Optional, Tuple
 
 import numpy as np
 import numpy.ma as ma
-import scipy.ndimage as ndi
 from astropy.constants import c as speed_of_light
 from deprecation import deprecated
 from scipy.stats import norm
@@ -879,21 +878,8 @@ def create_frac_spectra(
 def interp_images(arr1, arr2, f=0.5):
     """Create an interpolated image between two other images."""
 
-    nY, nX = arr1.shape
-
-    # Concatenate arrays into a single array of shape (2, nY, nX)
-    arr = np.r_["0,3", arr1, arr2]
-
-    # Define the grid coordinates where you want to interpolate
-    X, Y = np.meshgrid(np.arange(nX), np.arange(nY))
-
-    # Create coordinates for interpolated frame
-    coords = np.ones(arr1.shape) * f, Y, X
-
-    # Interpolate using the map_coordinates function
-    interpArr = ndi.map_coordinates(arr, coords, order=1)
-
-    return interpArr
+    # Pixel by pixel, so that a blanked pixel does not affect its neighbours
+    return (1.0 - f) * arr1 + f * arr2
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 41c1145cced02296b9079fe090a96b6e5b43e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 23/41] fix: rmclean1d and rmclean3d honour nBits in the
 deconvolution

---
 RMtools_1D/do_RMclean_1D.py | 1 +
 RMtools_3D/do_RMclean_3D.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 612afbe..2ece80a 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -137,6 +137,7 @@ def run_rmclean(
         cutoff=cutoff,
         maxIter=maxIter,
         gain=gain,
+        nBits=nBits,
         verbose=verbose,
         doPlots=showPlots,
         window=window,
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index dd1f723..6444c6e 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -130,6 +130,7 @@ def run_rmclean(
         cutoff=cutoff,
         maxIter=maxIter,
         gain=gain,
+        nBits=nBits,
         verbose=verbose,
         doPlots=False,
         pool=pool,
-- 
2.43.0


From a4eb7a1e58fc611d413473b1f3ca398164d5a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 24/41] fix: rmclean1d leaves channels without weight out of
 its angle uncertainties, like rmsynth1d

---
 RMtools_1D/do_RMclean_1D.py | 2 +-
 RMtools_1D/do_RMsynth_1D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 2ece80a..1ee7a28 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -171,7 +171,7 @@ def run_rmclean(
         phiArr=phiArr_radm2,
         fwhmRMSF=mDict["fwhmRMSF"],
         dFDF=mDict["dFDFth"],
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],
         lam0Sq=mDict["lam0Sq_m2"],
     )
     mDict_cl["cleanCutoff"] = cutoff
diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index df96e9a..71dd7aa 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -464,7 +464,7 @@ def run_rmsynth(
     aDict["phi2Arr_radm2"] = phi2Arr_radm2.astype(dtFloat)
     aDict["RMSFArr"] = RMSFArr.astype(dtComplex)
     aDict["freqArr_Hz"] = freqArr_Hz.astype(dtFloat)
-    aDict["weightArr"] = weightArr.astype(dtFloat)
+    aDict["weightArr"] = usedWeightArr.astype(dtFloat)
     aDict["dirtyFDF"] = dirtyFDF.astype(dtComplex)
 
     if verbose:
-- 
2.43.0


From 60eac97f74540bb5174ac2d6fc036bdd500ca055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 25/41] fix: rmtools_fitIcube works for cubes whose header has
 no BUNIT

---
 RMtools_3D/do_fitIcube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 1a0e951..f0b952c 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -563,7 +563,8 @@ def make_model_I(
             results = pool.map(func, args_list)
 
     headcoeff = remove_header_third_fourth_axis(header=header.copy())
-    del headcoeff["BUNIT"]
+    if "BUNIT" in headcoeff:
+        del headcoeff["BUNIT"]
 
     endTime = time.time()
     cputime = endTime - startTime
-- 
2.43.0


From 8a31e3fdbacdfbd0f562fe8363087294a07617c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 26/41] fix: do not mark the Stokes I coefficient maps with the
 data range of the mask

---
 RMtools_3D/do_fitIcube.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index f0b952c..87f35e9 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -339,7 +339,7 @@ def savefits_mask(data, header, outDir, prefixOut, dtFloat):
     dtFloat: type to use for output file
     """
 
-    headMask = remove_header_third_fourth_axis(header=header)
+    headMask = remove_header_third_fourth_axis(header=header.copy())
     headMask["DATAMAX"] = 1
     headMask["DATAMIN"] = 0
     if "BUNIT" in headMask:
-- 
2.43.0


From 855540367930f37c1400040f63a31a8cd664e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 27/41] fix: rmtools_fitIcube works for cubes with a single row
 or column

---
 RMtools_3D/do_fitIcube.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 87f35e9..56f8db3 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -515,10 +515,9 @@ def make_model_I(
 
     coeffs = np.array([mskArr] * 6, dtype=dtFloat)
     coeffs_error = np.array([mskArr] * 6, dtype=dtFloat)
-    reffreq = np.squeeze(np.array([mskArr], dtype=dtFloat))
+    reffreq = np.array(mskArr, dtype=dtFloat)
 
     covars = np.array([[mskArr] * 6] * 6, dtype=dtFloat)
-    datacube = np.squeeze(datacube)
 
     # Select only the spectra with emission
     srcData = np.rot90(datacube[:, mskSrc > 0])
-- 
2.43.0


From 09f2b8a41228d3c47d7cf792be74678e776d3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 28/41] fix: describe the frequency axis of the Stokes I model
 cube when the input has a Stokes axis before it

---
 RMtools_3D/do_fitIcube.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 56f8db3..ca19a9b 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -45,7 +45,7 @@ import astropy.io.fits as pf
 import numpy as np
 from tqdm.contrib.concurrent import process_map
 
-from RMtools_3D.do_RMsynth_3D import readFitsCube
+from RMtools_3D.do_RMsynth_3D import find_freq_axis, readFitsCube
 from RMtools_3D.make_freq_file import get_freq_array
 from RMutils.util_FITS import strip_fits_dims
 from RMutils.util_misc import (
@@ -390,6 +390,16 @@ def savefits_model_I(data, header, outDir, prefixOut):
     headModelCube["NAXIS2"] = header["NAXIS2"]
     headModelCube["NAXIS3"] = header["NAXIS3"]
 
+    # The model has its frequencies on the third axis, even if the input has a
+    # degenerate axis there.
+    freq_axis = find_freq_axis(header)
+    if nDim == 3 and freq_axis > 3:
+        for key in ["CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"]:
+            if key + str(freq_axis) in header:
+                headModelCube[key + "3"] = header[key + str(freq_axis)]
+            elif key + "3" in headModelCube:
+                del headModelCube[key + "3"]
+
     nVoxels = header["NAXIS1"] * header["NAXIS2"] * header["NAXIS3"]
     if nDim == 4:
         headModelCube["NAXIS4"] = header["NAXIS4"]
-- 
2.43.0


From 05abdb13ef1985820894f33cf7b03636c1e28495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 29/41] fix: createchunks and assemblechunks work when
 everything fits in a single chunk

---
 RMtools_3D/assemble_chunks.py | 2 +-
 RMtools_3D/create_chunks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..c419f0b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -137,7 +137,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
+    i = num_chunks - 1
     file = chunkfiles[i]
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..2c3e16e 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -106,7 +106,7 @@ def main():
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
+    i = num_chunks - 1
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From 434fb16418cdf0a52f542825713bc85f9b2b457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 30/41] fix: check that all chunks are present before touching
 the output file

---
 RMtools_3D/assemble_chunks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index c419f0b..844e628 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -92,6 +92,9 @@ def main():
             "Right now this code only supports FITS files with 2-4 dimensions!"
         )
 
+    if len(chunkfiles) != num_chunks:
+        raise Exception("Number of chunk files found does not match expectations!")
+
     new_header = old_header.copy()
     del new_header["OLDXDIM"]
     del new_header["OLDYDIM"]
@@ -113,9 +116,6 @@ def main():
         )
         fobj.write(b"\0")
 
-    if len(chunkfiles) != num_chunks:
-        raise Exception("Number of chunk files found does not match expectations!")
-
     base_idx_arr = np.array(range(Nperchunk))
 
     large = pf.open(output_filename, mode="update", memmap=args.memmap)
-- 
2.43.0


From 4ae0295749a3d8101c2c2391cbd5cdcf0fb5be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 31/41] fix: include the last row and column when cutting out
 of a 2D image

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..46b9d66 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -166,7 +166,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From 202b4ab06fd0040af2db97dedcd2177776ad01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 32/41] fix: accept -1 for the upper limits in extractregion,
 and limit the third axis like the others

---
 RMtools_3D/extract_region.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 46b9d66..9238165 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,10 +98,10 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
+    if box[1] != -1 and box[0] > box[1]:
         raise Exception("Box dimensions incorrect! x_max < x_min!")
 
-    if box[2] > box[3]:
+    if box[3] != -1 and box[2] > box[3]:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
     hdu = pf.open(args.infile, memmap=True)
@@ -142,6 +142,12 @@ def main():
     elif cube_axis > 2:
         zlim = [1, header["NAXIS" + str(cube_axis)]]
 
+    if args.zlim != None:
+        if zlim[0] < 1:
+            zlim[0] = 1
+        if (zlim[1] == -1) or (zlim[1] > header["NAXIS" + str(cube_axis)]):
+            zlim[1] = header["NAXIS" + str(cube_axis)]
+
     if box[0] < 1:
         box[0] = 1
     if (box[1] == -1) or (box[1] > header["NAXIS1"]):
-- 
2.43.0


From 3e52e696d023cf7c8a31183de3d4ea6f2b0ae2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 33/41] fix: rmtools_bwdepol takes Ifreq0 from the Stokes I
 model that was fitted

---
 RMtools_1D/rmtools_bwdepol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..d4534a2 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -47,9 +47,9 @@ from matplotlib.ticker import MaxNLocator
 from RMtools_1D.do_RMsynth_1D import saveOutput
 from RMutils.util_misc import (
     MAD,
+    calculate_StokesI_model,
     create_frac_spectra,
     nanmedian,
-    poly5,
     progress,
     toscalar,
 )
@@ -1086,7 +1086,7 @@ def run_adjoint_rmsynth(
         if verbose:
             log("Plotting the input data and spectral index fit.")
         freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz / 1e9)
         specFig = plt.figure(figsize=(12.0, 8))
         plot_Ipqu_spectra_fig(
             freqArr_Hz=freqArr_Hz,
@@ -1215,7 +1215,7 @@ def run_adjoint_rmsynth(
     # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
     # Multiply the dirty FDF by Ifreq0 to recover the PI
     freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz / 1e9)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!
-- 
2.43.0


From d6e0e2171bb8df5a155c0c30200fc79b610385e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 34/41] fix: rmtools_bwdepol accepts its input formats with a
 column of channel widths

---
 RMtools_1D/rmtools_bwdepol.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index d4534a2..c7ddda6 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -307,7 +307,7 @@ def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
          [freq_Hz, q, u,  dq, du]
 
     """
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
 
     p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
@@ -935,7 +935,7 @@ def do_adjoint_rmsynth_planes(
         progress(40, 0)
 
     # calculate channel widths if necessary
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
     for i in range(nPhi):
         if verbose:
@@ -1041,7 +1041,8 @@ def run_adjoint_rmsynth(
                 "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
                 end=" ",
             )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
     elif data.shape[0] == 5:
         if verbose:
             log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
@@ -1260,7 +1261,7 @@ def run_adjoint_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
+    if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
         mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-- 
2.43.0


From 3429a2c673b840b7c503a2c1cb80b3053a18f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 35/41] fix: rmtools_bwdepol -v reports the theoretical noise
 instead of failing

---
 RMtools_1D/rmtools_bwdepol.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index c7ddda6..17afbfe 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1248,7 +1248,6 @@ def run_adjoint_rmsynth(
     mDict["freq0_Hz"] = toscalar(freq0_Hz)
     mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
     mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
     mDict["units"] = units
 
     if fit_result.fitStatus >= 128:
@@ -1333,7 +1332,7 @@ def run_adjoint_rmsynth(
             % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
         )
         log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (dFDFth, units))
         log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
         log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
         log(
-- 
2.43.0


From d2efd5c4efc1efb30b80c18eb4892a2a0e8bda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 36/41] fix: rmtools_bwdepol computes the RMSF on the Faraday
 depths it is returned with

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 17afbfe..e872ce0 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -629,7 +629,7 @@ def bwdepol_get_rmsf_planes(
         freqArr_Hz,
         RMSF_data[1],
         RMSF_data[2],
-        phiArr_radm2,
+        phi2Arr,
         widths_Hz=widths_Hz,
         weightArr=weightArr,
         lam0Sq_m2=lam0Sq_m2,
@@ -1349,7 +1349,7 @@ def run_adjoint_rmsynth(
         bwdepol_plot_rmsf_fdf_fig(
             phiArr=phiArr_radm2,
             FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
+            phi2Arr=phi2Arr_radm2,
             RMSFArr=RMSFArr,
             peak_rm=peak_rm,
             fwhmRMSF=fwhmRMSF,
-- 
2.43.0


From 64f3f99e72805cdae28774666c96f0ecfc1c91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 37/41] fix: rmsynth1dFITS refused pixels with Stokes Q zero
 and Stokes U not zero

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 8dae6af..df009e2 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -243,7 +243,7 @@ def main():
         else:
             args.units = "Jy/beam"
 
-    if (Q_array != 0).sum() == 0 and (Q_array != 0).sum() == 0:
+    if (Q_array != 0).sum() == 0 and (U_array != 0).sum() == 0:
         raise Exception("All QU values zero! Maybe invalid pixel?")
 
     if args.StokesI_fits is not None:
-- 
2.43.0


From 4158247602da3791da45a5b76feaa4acb24fb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 38/41] fix: rmsynth1dFITS saved its plots as 'prefixOut_...'
 in the working directory

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index df009e2..32f0582 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -265,6 +265,7 @@ def main():
         debug=args.debug,
         verbose=verbose,
         units=args.units,
+        prefixOut=prefixOut,
         saveFigures=args.saveOutput,
         super_resolution=args.super_resolution,
     )
-- 
2.43.0


From 398bc8f82b40c332f45ec5a8fcbca0ef8734f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 39/41] fix: clean_model opened the lists of file names
 argparse gives it

The positional arguments have nargs=1, so each is a list of one name;
np.loadtxt took it as the lines of a file and the tool failed on every input.
---
 RMtools_1D/clean_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 14ab545..dfa0d2a 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -139,11 +139,11 @@ def main():
     args = parser.parse_args()
 
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
-        args.freqfile, args.rmSynthfile, args.CCfile
+        args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
     QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
 
-    save_model(args.outfile, freqArr, Imodel, QUarr)
+    save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From f98b3afd3aa4f050d861a1b688292ebbaf697cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 40/41] fix: clean_model multiplied the clean components by
 Stokes I twice

rmsynth1d scales the FDF by Stokes I at the reference frequency, so the
components are in flux units already: the model was too bright by that factor.
---
 RMtools_1D/clean_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index dfa0d2a..4aeca7e 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -40,6 +40,7 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
 
     # TODO: Pass in fit function, which is currently not output by rmsynth1d
+    freq0_Hz = speed_of_light.value / np.sqrt(lambdaSq_0)
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
         fitStatus=0,
@@ -48,7 +49,7 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
         AIC=0,
         polyOrd=0,
         nIter=0,
-        reference_frequency_Hz=speed_of_light.value / np.sqrt(lambdaSq_0),
+        reference_frequency_Hz=freq0_Hz,
         dof=0,
         pcov=None,
         perror=None,
@@ -56,7 +57,10 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
-    QUarr = StokesI_model * quarr
+    # The clean components are in flux units at the reference wavelength
+    # (rmsynth1d multiplies the FDF by Stokes I there), so only the change of
+    # Stokes I from its value there applies.
+    QUarr = StokesI_model / calculate_StokesI_model(fit_result, freq0_Hz) * quarr
 
     return QUarr, StokesI_model
 
-- 
2.43.0


From 6f084572a59b2512a00d0ee173ae8b1e18e31cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 41/41] fix: clean_model gave NaN for super-resolution spectra

Their reference wavelength is 0, so the reference frequency of the Stokes I
model cannot be derived from it: use the one rmsynth1d saved.
---
 RMtools_1D/clean_model.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 4aeca7e..5cc93e8 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -17,7 +17,7 @@ from RMtools_1D.do_RMsynth_1D import readFile as read_freqFile
 from RMutils.util_misc import FitResult, calculate_StokesI_model
 
 
-def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
+def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None, freq0_Hz=None):
     """Compute the predicted Stokes Q and U values for each channel from a
     set of clean components (CCs), with optional accounting for Stokes I model.
     Inputs: freqArr: array of channel frequencies, in Hz
@@ -27,6 +27,8 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
                         which all the polarization angles are referenced.
             Iparms: list of Stokes I polynomial values. If None, all Stokes I
                     values will be set to 1.
+            freq0_Hz: reference frequency of the Stokes I polynomial. If None, it
+                    is the frequency of lambdaSq_0.
     Returns:
         model: array of complex values, one per channel, of Stokes Q and U
                 predictions based on the clean component model.
@@ -40,7 +42,8 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
 
     # TODO: Pass in fit function, which is currently not output by rmsynth1d
-    freq0_Hz = speed_of_light.value / np.sqrt(lambdaSq_0)
+    if freq0_Hz is None:
+        freq0_Hz = speed_of_light.value / np.sqrt(lambdaSq_0)
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
         fitStatus=0,
@@ -83,6 +86,9 @@ def read_files(freqfile, rmSynthfile, CCfile):
             CCarr: array of (complex) clean components
             Iparms: list of Stokes I model parameters.
             lambdaSq_0: scalar value of lambda^2_0, in m^2.
+            freqArr: array of channel frequencies.
+            freq0_Hz: reference frequency of the Stokes I model (not that of
+                lambda^2_0 for super-resolution, where lambda^2_0 is 0).
     """
 
     phiArr, CCreal, CCimag = np.loadtxt(CCfile, unpack=True, dtype="float")
@@ -92,11 +98,12 @@ def read_files(freqfile, rmSynthfile, CCfile):
     synth_mDict = json.load(open(rmSynthfile, "r"))
     Iparms = [float(x) for x in synth_mDict["polyCoeffs"].split(",")]
     lambdaSq_0 = synth_mDict["lam0Sq_m2"]
+    freq0_Hz = synth_mDict["freq0_Hz"]
 
     data = read_freqFile(freqfile, 64, verbose=False, debug=False)
     freqArr = data[0]
 
-    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr
+    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz
 
 
 def main():
@@ -142,10 +149,12 @@ def main():
     )
     args = parser.parse_args()
 
-    phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
+    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz = read_files(
         args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
-    QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
+    QUarr, Imodel = calculate_QU_model(
+        freqArr, phiArr, CCArr, lambdaSq_0, Iparms, freq0_Hz
+    )
 
     save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
-- 
2.43.0

