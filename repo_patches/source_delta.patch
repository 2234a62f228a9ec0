From ec8ff31998cf7723c522a574c0d0bc7154b8da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 01/36] fix: use builtin int/float and np.nan instead of
 aliases removed from NumPy

---
 misfit/fit/fit_core.py         |  6 ++---
 misfit/fit/fit_io.py           |  2 +-
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 misfit/model/aper_model.py     |  2 +-
 misfit/model/kin_functions.py  |  2 +-
 misfit/plot/plot_bestfit.py    |  2 +-
 misfit/plot/plot_image_slit.py |  8 +++---
 misfit/plot/plot_trace.py      |  4 +--
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..fbc399f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -195,7 +195,7 @@ def run_mcmc(fitEmis2D, fitEmis2D_fit=None):
         and then delete attributes
     """
     print("fitting with emcee version: {}".format(emcee.__version__))
-    if np.int(emcee.__version__[0]) >= 3:
+    if int(emcee.__version__[0]) >= 3:
         fitEmis2D = _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
     else:
         fitEmis2D = _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
@@ -216,7 +216,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
@@ -515,7 +515,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..1669209 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -891,7 +891,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -902,8 +902,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -931,9 +931,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -950,7 +950,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -974,7 +974,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -984,8 +984,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1010,9 +1010,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1071,7 +1071,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1081,8 +1081,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1105,9 +1105,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1147,12 +1147,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1175,9 +1175,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1195,7 +1195,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1225,7 +1225,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..09574f2 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -750,7 +750,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..9c2cd50 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -290,7 +290,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index c264bfd..e5ded5f 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -56,7 +56,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     
     """
     sh_spec_trim = np.shape(fitEmis2D.galaxy.spec2D.flux)
-    sp_rat = sh_spec_trim[1]/np.float(sh_spec_trim[0])  # width/height
+    sp_rat = sh_spec_trim[1]/float(sh_spec_trim[0])  # width/height
 
 
     fig = plt.figure()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d1c7803..0fd1f63 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -163,7 +163,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarc_orig = yarr_orig*instrument_img.pixscale
 
         # Output pix/arc array:
-        n_round = np.int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
+        n_round = int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
 
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
@@ -250,8 +250,8 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     #######################################
     # Scale based on noise levels:
-    xlim_round = np.array([np.int(np.round(xlim[0])), np.int(np.round(xlim[1]))])
-    ylim_round = np.array([np.int(np.round(ylim[0])), np.int(np.round(ylim[1]))])
+    xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
+    ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
@@ -259,7 +259,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     range_spec = np.abs(range_spec)
     range_spec.sort()
     # Only consider the lowest 50\% *abs* points:
-    range_spec = range_spec[0:np.int(np.ceil(len(range_spec)/2.))]
+    range_spec = range_spec[0:int(np.ceil(len(range_spec)/2.))]
     median_err = np.median(range_spec)
 
     ext = 3.
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 1fe2433..6838f2c 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -45,7 +45,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     nWalkers = sampler_dict['nWalkers']
 
-    alpha = max(0.01, 1./np.float(nWalkers))
+    alpha = max(0.01, 1./float(nWalkers))
 
 
     # Define random color inds for tracking some walkers:
@@ -56,7 +56,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
-        trace_colors.append(cmap(1./np.float(nTraceWalkers)*i))
+        trace_colors.append(cmap(1./float(nTraceWalkers)*i))
 
     norm_inds = np.setdiff1d(range(nWalkers), trace_inds)
 
-- 
2.43.0


From b429031ce610c8f193d3805f683166e9e93ec754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 02/36] fix: build PSF stamps from offsets about the kernel
 centre

The 2D and 1D rotation aperture models passed absolute slit coordinates (y
starting at -m0) to generate_conv_stamp, so the kernel peaked off-centre, and the
2D stamp could have an even number of pixels, which displaces the light by half a
subpixel.
---
 misfit/model/aper_model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 09574f2..2cf779d 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -264,8 +264,8 @@ class AperModel1DRot(AperModel1DBase):
         # x_arr, y_arr are in *ARCSECONDS*
         xc = np.average(self.x_arr)
         yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM] - xc
+        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM] - yc
 
         # x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
@@ -598,10 +598,12 @@ class AperModel2D(object):
         ## Convolve the spectra cube with the PSF:
         ## Trim x_arr, y_arr so you're only making a convolution kernal for +- FWHM
         #       x_arr, y_arr are in *ARCSECONDS*
-        xc = np.average(self.x_arr)
-        yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # Offsets from the kernel centre, on an odd number of pixels so that the
+        #   convolution doesn't displace the light:
+        nstamp_x = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_x))
+        nstamp_y = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_y))
+        x_arr_trim = np.arange(-nstamp_x, nstamp_x+1)*self.delt_x
+        y_arr_trim = np.arange(-nstamp_y, nstamp_y+1)*self.delt_y
 
         #x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         #y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From a9219f301d40cfb54b351fa5b7d4acda507d84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 03/36] fix: space the 2D model rows by the subpixel scale

The end points of y_arr were one pixel too close together, so the spacing of the
model rows differed from delt_y (the pixel scale over nSubpixels).
---
 misfit/model/aper_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 2cf779d..d38ebf0 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -708,8 +708,8 @@ class AperModel2D(object):
         self.z_arr = np.linspace(-(self.n_pix_z/2.-0.5)*self.delt_z,
                             (self.n_pix_z/2.-0.5)*self.delt_z, num=self.nZ)
 
-        self.y_arr = np.linspace(-(self.padY-0.5)*self.delt_y,
-                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY-0.5)*self.delt_y,
+        self.y_arr = np.linspace(-(self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
+                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
                 num=self.nY)
 
         self.z = self.theta[-1]
-- 
2.43.0


From d6f5a2f166a63f2660555ea16b27521e14f5d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:54 +0000
Subject: [PATCH 04/36] fix: rebuild the 2D model grid when m0_shift or z
 change

update_model() kept the grid of the first make_model() call, so a free m0_shift
or z had no effect on later models.
---
 misfit/model/aper_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index d38ebf0..10b6a43 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -630,6 +630,13 @@ class AperModel2D(object):
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        # m0_shift and z set the grid: rebuild it if either has changed
+        if (self.theta[-1] != self.z) or \
+                (self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit):
+            self.delta_position_velspace = None
+            self.inst_disp_wave = None
+            self.setup_calcs()
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
-- 
2.43.0


From a1388e6e9d22accedb3be975549f555135189104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 05/36] fix: give each model and fit its own default profiles,
 options and theta

The defaults were evaluated once at import, so instances created without them
shared (and overwrote) one profile, options and theta array.
---
 misfit/fit/fit2D.py           | 23 +++++++++++++++++------
 misfit/mock/generate_basic.py |  8 ++++++--
 misfit/model/kin_model.py     | 22 ++++++++++++++++------
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..a9beb80 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -40,7 +40,6 @@ except:
 # from misfit.model import AperModel2D
 from misfit.model import KinModel2D, KinModel2DOptions
 from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, ThetaPriorFlat
-from misfit import Galaxy
 
 import astropy.constants as constants
 c_cgs = constants.c.cgs.value
@@ -142,17 +141,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions = None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results = None,
                     usetex=True,
                     **kwargs):
 
+        # Fresh defaults for each instance:
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..192dd6e 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,8 +42,8 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
     # Enforce min slit-length
@@ -77,6 +77,10 @@ def generate_mock_basis(z=None,
     galaxy.namebase = str(ID)
 
 
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(galaxy)
     intensityProfile.update_values(galaxy=galaxy)
 
     ###############
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..e9c5c0a 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -10,7 +10,6 @@ import copy
 from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, \
                                 Theta2DSettingsFiducial
 from misfit.model import AperModel2D
-from misfit import Galaxy
 
 #from numba import jit
 ##from numba import njit
@@ -60,15 +59,26 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
         # Galaxy()
+        # Fresh defaults for each instance:
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
         # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
+        #   theta is updated in place, so take a copy
+        self.theta = copy.deepcopy(thetaSettings.theta)
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0


From 160e284b50b5aec4fe78a441fe0ba70ae9e46b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 06/36] fix: make the 3D cube of a model with PSF padding, and
 on later calls

make_3D_int_model() rebinned the already trimmed cube to its padded size (an error
for any PSF wider than a pixel), failed on its second call, and widened the slit of
the caller's instrument; update_3D_int_model() returned the cube before PSF
convolution and rebinning.
---
 misfit/model/kin_model.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index e9c5c0a..bd2f829 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -236,8 +236,8 @@ class KinModel2D(object):
                 n_pix_y_whole = galaxy.spec2D.flux.shape[0]
             else:
                 n_pix_y_whole = galaxy.spec2D.shape[0]
+            instrument = instrument.copy()
             instrument.slit_width = n_pix_y_whole*instrument.pixscale
-            n_pix_x_whole = n_pix_y_whole
 
             self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
                                 theta=self.theta,
@@ -250,6 +250,7 @@ class KinModel2D(object):
                                 do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
                                 absvalsigma=self.kinModelOptions.absvalsigma,
                                 adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
                                 sigma_floor=self.kinModelOptions.sigma_floor,
                                 debug=self.debug)#,
         else:
@@ -257,28 +258,33 @@ class KinModel2D(object):
             #                     kinProfile=self.kinProfile)
             self.aperModel.update_model(theta=self.theta)
 
+        self._downsample_cube()
+
+    def _downsample_cube(self):
         ###################
         # Do downsampling:
         # # Save the 2D model to base part of class
 
         # Shape: nSpec, nY, nX
-        nWave = len(galaxy.spec2D.wave.copy())
-        # if self.debug:
-        #     print("spec cube conv shape={}".format(self.aperModel.spectra_cube_conv.shape))
-        #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
-        #             self.aperModel.padY, n_pix_x_whole, self.aperModel.padX))
+        nWave = self.aperModel.nWave
+        n_pix_y_whole = self.aperModel.n_pix_y_whole
+        n_pix_x_whole = self.aperModel.n_pix_x//self.aperModel.nSubpixels
+        # The cube has already had its padding trimmed
         self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_y_whole+2*self.aperModel.padY, n_pix_x_whole+2*self.aperModel.padX)
+                    nWave, n_pix_y_whole, n_pix_x_whole)
 
         if self.debug:
-            # Downsample others too
-            self.I_wide = kfuncs.rebin(self.aperModel.I_wide.copy(),
+            # Trim, downsample others too
+            trim = (slice(None),
+                    slice(self.aperModel.padY, self.aperModel.padY+self.aperModel.n_pix_y),
+                    slice(self.aperModel.padX, self.aperModel.padX+self.aperModel.n_pix_x))
+            self.I_wide = kfuncs.rebin(self.aperModel.I_wide[trim],
                         n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
             #
-            self.V_wide = kfuncs.rebin(self.aperModel.V_wide.copy(),
+            self.V_wide = kfuncs.rebin(self.aperModel.V_wide[trim],
                         n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
             #
-            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide.copy(),
+            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide[trim],
                         n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
 
     def update_3D_int_model(self, theta_fitting=None):
@@ -296,8 +302,7 @@ class KinModel2D(object):
         #                         kinProfile=self.aperModel.kinProfile)
         self.aperModel.update_model(theta=self.theta)
 
-        # # Save the 2D model to base part of class
-        self.model_cube = self.aperModel.spectra_cube.copy()
+        self._downsample_cube()
 
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
-- 
2.43.0


From 707c900ef83a596a2556b5ca472c28e913ba5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 07/36] fix: convolve each 2D model with its own PSF stamp

The stamp is kept on the instrument, so building another model on a different
grid with the same instrument changed the later updates of the first.
---
 misfit/model/aper_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 10b6a43..0e6310b 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -620,6 +620,7 @@ class AperModel2D(object):
         kern3D[0, :, :] = conv_stamp
 
         self.instrument.PSF.set_conv_stamp(kern3D)
+        self._conv_stamp = kern3D
 
     def make_model(self):
 
@@ -844,6 +845,8 @@ class AperModel2D(object):
 
     def convolve_spectral_cube_PSF(self):
         ## Convolve the spectra cube with the PSF:
+        # The instrument may be shared with other models: use the stamp for this grid
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
         self.spectra_cube_conv = kfuncs.PSF_convolve(self.spectra_cube, self.instrument.PSF)
 
 
-- 
2.43.0


From fcb67aad2f17f3b50ffe2fcd78d524913687b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 08/36] fix: unpack the one-parameter KDE peaks

Assigning fmin()'s length-1 array to an element is an error in current NumPy.
---
 misfit/general/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..c3e0089 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -210,7 +210,7 @@ def find_peak_gaussian_KDE(flatchain, initval):
         peakvals = np.zeros(nparams)
         for i in range(nparams):
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
     else:
         neg_kernel = gaussian_KDE_kernel_func(flatchain)
-- 
2.43.0


From 8360dbcd0d2a7e56c6d6b96bb8b6fd0d2b6da92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 09/36] fix: apply the nod distance to Moffat PSF stamps too

---
 misfit/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 52ba1d3..bff23ec 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -69,7 +69,7 @@ class PSFMoffat(PSFBase):
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta)
+        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta, yspace_dither_arc=self.yspace_dither_arc)
 
 
 class Instrument(object):
-- 
2.43.0


From c74999ff365ee584b366fe6b7dcdbc6e382c5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 10/36] fix: let the 1D fit with errors finish

---
 misfit/fit/fit1D.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..ca56062 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -506,8 +506,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
-- 
2.43.0


From 6b593c4d81a7829e769b0b1ee9cad40f8290a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 11/36] fix: take the resolution from the instrument for the
 corrected dispersion errors

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ca56062..3b52b3d 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -612,7 +612,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From 82575f7f77f5fad1cd0bde86f4693b5daee8aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 12/36] fix: scale the 1D line by its total flux, whatever its
 sampling

---
 misfit/model/emission_lines_model.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 5b8292a..c92ef00 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -275,9 +275,5 @@ def gaussian_line(x, mu, vel_sig, flux):
     # Convert vel_sig into sig in wavelength:
     sig = vel_sig / c_kms * mu
 
-    # make gaussian
-    gaus = norm.pdf(x, mu, sig)
-    # scale to amplitude
-    scale = flux/(sig*np.sqrt(2.*np.pi))
-    gaus = gaus/gaus.max()*scale
-    return gaus
+    # Gaussian with total flux `flux`
+    return flux*norm.pdf(x, mu, sig)
-- 
2.43.0


From 9edfee8586aff220d7d3e5bcde280f83a2137c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 13/36] fix: convert the 1D trim range to observed wavelengths
 for any redshift type

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 1669209..c6bfb90 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From d45c434a2a28fe88a900de5c117f93190c5fbabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 14/36] fix: allow 1D fits of line sets with different numbers
 of lines

---
 misfit/fit/fit1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 3b52b3d..a6f5f8e 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -181,7 +181,8 @@ class FitEmissionLines1D(object):
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 waves_arr.append(wave_arr)
 
-            self.restwave_arr = np.array(waves_arr)
+            # Line sets can have different lengths
+            self.restwave_arr = waves_arr
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From 2ea23f1101f70a1744eacdfdd5fd5cab706f6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 15/36] fix: mask the right edge of a 1D spectrum that is near
 its start

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c6bfb90..ef93d1f 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -694,7 +694,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[edge_r-num_edge-1:edge_r+1] = 0
+            spec_mask[max(edge_r-num_edge-1,0):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From a2d0c2feb5e3115f11a30e452915be8ea2594b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 16/36] fix: mask only the pixels with missing errors, not
 their whole rows

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index ef93d1f..5be72d2 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -711,7 +711,7 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
     if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
-        wh_missing = np.where(spec_err == 0.)[0]
+        wh_missing = np.where(spec_err == 0.)
         spec_mask[wh_missing] = 0.
     # ##########################################################
 
-- 
2.43.0


From 3a6719eb0c63ec66249ed75a346de5d650f56cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 17/36] fix: leave the 1D mask alone when masking skylines for
 the continuum fit

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 5be72d2..7fd6b1d 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -388,7 +388,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
                             median_err=spec2D.median_flux_error,
                             cutoff=spec2D.band_cutoff, full=True)
 
-        spec_mask_tmp = galaxy.spec1D.spec_mask[:]
+        spec_mask_tmp = galaxy.spec1D.spec_mask.copy()
         spec_mask_tmp[wh_sky] = 0.
 
 
-- 
2.43.0


From 676414f7e038efc203daea20f1007210c8bf26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 18/36] fix: take the peak S/N at the fitted row after trimming
 edges

---
 misfit/general/galaxy_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 7fd6b1d..df70945 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -1072,14 +1072,15 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                                     args=(xx, sp_arr, err_arr))
 
                 m0 = int(np.round(result.params['mu'].value)) + trimval
-                if (m0 > (len(snr_arr) -1)):
+                # snr_arr has lost its first trimval rows
+                if (m0-trimval > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
-                elif (m0 < 0):
+                elif (m0-trimval < 0):
                     m0_closest = 0
                 else:
-                    m0_closest = m0
+                    m0_closest = m0-trimval
                 m0_shift_fit = result.params['mu'].value + trimval - m0
-                m0_peak_snr = snr_arr[m0_closest-trimval]
+                m0_peak_snr = snr_arr[m0_closest]
                 if dither:
                     m1 = int(np.round(result.params['mu_l'].value)) + trimval
                     m2 = int(np.round(result.params['mu_r'].value)) + trimval
-- 
2.43.0


From 166bd0adf9afc99e00149d14fb2cefa845d54451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 19/36] fix: make zero-dispersion cubes in velocity space too

---
 misfit/model/kin_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 9c2cd50..a61279b 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -108,8 +108,8 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 
                 I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
             else:
-                I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                                nZ, nY, nX, delt_z, delt_wave, lam0)
+                I_Vxy_oneline = I_simple_collapse(I_wide, lam0*(1.+V_wide/c_kms), wave_arr, nWave,
+                                nZ, nY, nX, delt_z, delt_wave)
 
             I_Vxy += I_Vxy_oneline*flux_ratio_arr[i]
     elif spec_type == 'velocity':
@@ -125,7 +125,7 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
             I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
         else:
             I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                            nZ, nY, nX, delt_z, delt_wave, lam0)
+                            nZ, nY, nX, delt_z, delt_wave)
 
         I_Vxy += I_Vxy_oneline
 
@@ -134,9 +134,10 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 #@jit(nopython=True)
 #@jit
 @njit
-def I_simple_collapse(I_wide, V_wide, wave_arr,
+def I_simple_collapse(I_wide, spec_wide, wave_arr,
                     nWave, nZ, nY, nX,
-                    delt_z, delt_wave, lam0):
+                    delt_z, delt_wave):
+    # spec_wide: wavelength (or velocity) of the line at each (x,y,z), same units as wave_arr
     # If no sigma: just V at each (x,y,z). No matrices.
     #   just gather all I,V over z at each (x,y): bin into vel_wave_arr
 
@@ -153,7 +154,7 @@ def I_simple_collapse(I_wide, V_wide, wave_arr,
             # At every (x,y): for each z, find closest v bin, and add that to the intensity.
             for m in range(int(nZ)):
 
-                lam = lam0*(1.+V_wide[m,j,k]/c_kms)
+                lam = spec_wide[m,j,k]
                 I = I_wide[m,j,k]
                 lam_diff = np.abs(lam - wave_arr)
 
-- 
2.43.0


From 6b93d9954285c6a5490a8f857b812ca839964923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:22 +0000
Subject: [PATCH 20/36] fix: keep the subpixel rows when the output isn't
 rebinned

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 0e6310b..4da97d8 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -897,7 +897,7 @@ class AperModel2D(object):
 
     def downsample_to_real_wave(self):
         self.model_out = kfuncs.rebin(self.model_out,
-                            self.nWave_real, self.n_pix_y_whole)
+                            self.nWave_real, self.model_out.shape[1])
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
-- 
2.43.0


From 5f01deef6bc293364dbcfa4b63e242594e219703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:22 +0000
Subject: [PATCH 21/36] fix: keep the flux density when the wavelengths are
 upsampled

---
 misfit/model/aper_model.py | 2 ++
 misfit/model/kin_model.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 4da97d8..e3fc4b6 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -898,6 +898,8 @@ class AperModel2D(object):
     def downsample_to_real_wave(self):
         self.model_out = kfuncs.rebin(self.model_out,
                             self.nWave_real, self.model_out.shape[1])
+        # The cube is a flux density: average, don't sum, the finer wavelength channels
+        self.model_out *= self.nWave_real/float(self.nWave)
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index bd2f829..ba1ec70 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -272,6 +272,8 @@ class KinModel2D(object):
         # The cube has already had its padding trimmed
         self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
                     nWave, n_pix_y_whole, n_pix_x_whole)
+        # Average the finer wavelength channels, if these were upsampled
+        self.model_cube *= nWave/float(self.aperModel.spectra_cube_conv.shape[0])
 
         if self.debug:
             # Trim, downsample others too
-- 
2.43.0


From 9743ce5b38ef9a73f0a5c2999d557e1300a6c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 22/36] fix: leave the velocity chains alone when a fixed
 dispersion is positive-valued

---
 misfit/fit/fit_core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index fbc399f..0513ab2 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -945,10 +945,12 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            # (no column in the chains if the dispersion is fixed)
+            if ind is not None:
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From 10ef8522a2cdc322487c1707a6fdd38928b40cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 23/36] fix: use the 1 sigma limits for the 1 sigma errors of
 every linked set

---
 misfit/fit/fit_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 0513ab2..1afe11c 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1073,6 +1073,7 @@ def get_param_posterior_bestfits(fitEmis2D):
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
         mcmc_lims_zip = list(zip(*mcmc_limits))
+        mcmc_lims_zip_2sig = list(zip(*mcmc_limits_2sig))
 
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
             mcmc_peak, mcmc_uncertainties_1sig = \
@@ -1082,10 +1083,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
             mcmc_peak, mcmc_uncertainties_2sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
+                    mcmc_uncertainties_2sig, mcmc_lims_zip_2sig,
                     theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
-- 
2.43.0


From 2335290e82f874b8a1661c22cad4f5397b198000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 24/36] fix: don't add the derived velocities to the chain
 again on re-analysis

---
 misfit/fit/fit_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1afe11c..dede51a 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -954,6 +954,10 @@ def add_v_re_22(fitEmis2D):
         else:
             raise ValueError
 
+    # Only the free parameters: drop the added columns if the chain was analyzed before
+    fitEmis2D.sampler_dict['flatchain'] = \
+            fitEmis2D.sampler_dict['flatchain'][:, :fitEmis2D.kinModel.n_free_param]
+
     i_free = 0
     len_chain = fitEmis2D.sampler_dict['flatchain'].shape[0]
     for i in range(len(fitEmis2D.kinModel.theta)):
-- 
2.43.0


From e8c10ad4a4720fe14fb5459ac8bcc8305f869e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 25/36] fix: trim the continuum of a trimmed copy of a 2D
 spectrum too

---
 misfit/general/galaxy_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index df70945..9a021a9 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -158,6 +158,13 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.spec_mask = spec2D.spec_mask[:,wh]
                 spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
 
+                try:
+                    spec2D_trim.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
+                    spec2D_trim.cont_model = spec2D.cont_model[:,wh]
+                except:
+                    spec2D_trim.flux_incl_cont = None
+                    spec2D_trim.cont_model = None
+
                 spec2D_trim.calculate_restwave(galaxy)
             else:
                 spec2D_trim.wave = None
-- 
2.43.0


From c05832794926b6265f5b2c2d8125be7d9205619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 26/36] fix: mask as many channels next to the right edge of a
 spectrum as next to the left one

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 9a021a9..4ba5b8b 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -701,7 +701,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[max(edge_r-num_edge-1,0):edge_r+1] = 0
+            spec_mask[max(edge_r-num_edge+1,0):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From fde767aded97f2ff95e5bd02bff4edc3ad85e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 27/36] fix: find the peak of the posterior of a single
 parameter (undefined function)

---
 misfit/general/general_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index c3e0089..19f4560 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -213,8 +213,8 @@ def find_peak_gaussian_KDE(flatchain, initval):
             peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
     else:
-        neg_kernel = gaussian_KDE_kernel_func(flatchain)
-        peakval = fmin(neg_kernel, initval, disp=False)
+        kern = gaussian_kde(np.ravel(flatchain))
+        peakval = fmin(lambda x: -kern(x), initval, disp=False)
 
         return peakval
 
-- 
2.43.0


From 2ee31dd6722466902eef30a68e8c549aeae44ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:15 +0000
Subject: [PATCH 28/36] fix: start the second fit of the vertical position from
 the guess when no position is given

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 4ba5b8b..c228e24 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -947,7 +947,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
 
 
         # Set the current ypos -- will vary this to examine lower S/N or failure cases.
-        ypos_current = ypos
+        ypos_current = ypos_guess
 
 
         if ypos is not None:
-- 
2.43.0


From ad40b8bd134c37de6a0e4a313d2cfbb28c46d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 29/36] fix: use the slope d of the dispersion profile in the
 aperture of 1D dispersion models

---
 misfit/model/kin_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index a61279b..06fd16b 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -598,7 +598,7 @@ def sigma_aper_dispersion(aperModel1DDisp = None, re_arcsec=None, re_mass_arcsec
     # re_arcsec should already be circularized -- use q=1.
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full, re_arcsec=re_arcsec,
                         n=aperModel1DDisp.galaxy.n, q=1., delt_PA=0.,r_core=aperModel1DDisp.r_core)
@@ -681,7 +681,7 @@ def sigma_aper_dispersion_misalign(aperModel1DDisp = None,
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,
                     re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
@@ -996,13 +996,13 @@ def sigma_aper_dispersion_misalign_ORIG(aperModel1DDisp = None, re_arcsec=None,
 
 #@jit
 @njit
-def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None):
+def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None, d=-0.089):
 
     r = r_int_ellip(x, y, q, delt_PA)
 
     # r is relative to r_circularized for that given ellipse -- use re_circ.
     # INPUT RE_CIRC!
-    sigma_val = sigma_profile(r, re_mass_arcsec, r_core=r_core)
+    sigma_val = sigma_profile(r, re_mass_arcsec, d=d, r_core=r_core)
 
     return sigma_val**2
 
-- 
2.43.0


From b14b9ba6775d925c7bbd48b46b3421bb3c6ed643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 30/36] fix: keep the PSF stamp of every 1D aperture model
 apart (the instrument may be shared)

---
 misfit/model/aper_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e3fc4b6..f5a2a50 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -166,9 +166,10 @@ class AperModel1DDisp(AperModel1DDispBase):
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self._conv_stamp = conv_stamp
 
     def calc_aper_correction(self):
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
         self.sigma_ap = kfuncs.sigma_aper_dispersion(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -205,9 +206,10 @@ class AperModel1DDispMisalign(AperModel1DDispBase):
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self._conv_stamp = conv_stamp
 
     def calc_aper_correction(self):
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
         self.sigma_ap = kfuncs.sigma_aper_dispersion_misalign(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -272,10 +274,11 @@ class AperModel1DRot(AperModel1DBase):
 
 
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self._conv_stamp = conv_stamp
 
 
     def calc_aper_correction(self, recalc=False):
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
         self.update_kinProfile()
 
 
-- 
2.43.0


From 080987783dd9d22f2f5ae524aee9ea74c7ab2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 31/36] fix: position shift of 1D rotation apertures (2D stamp
 in a 3D convolution, attribute never set)

---
 misfit/model/aper_model.py    | 2 +-
 misfit/model/kin_functions.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index f5a2a50..c631c59 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -424,7 +424,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 06fd16b..69c1ac3 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -366,6 +366,8 @@ def PSF_convolve(spectra_cube, PSF):
 
     if PSF.PSF_FWHM > 0.:
         kern3D = PSF._conv_stamp
+        if kern3D.ndim == 2:
+            kern3D = kern3D[np.newaxis,:,:]
 
         spectra_cube_see_conv = fftconvolve(spectra_cube, kern3D, mode='same')
         # Conserve total flux:
-- 
2.43.0


From b632e153342d62679bcdc10fb06e443bc474d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 32/36] fix: IFU cubes with subpixels when rounding makes slit
 width and aperture differ

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index c631c59..336e1d6 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -687,7 +687,7 @@ class AperModel2D(object):
         self.n_pix_x = int(np.ceil(self.instrument.slit_width/self.delt_y))
         # Check for case where slit width = slit length:
         #    make sure rounding errors don't end up with diff nPix.
-        if self.y_aper == self.instrument.slit_width:
+        if np.abs(self.y_aper - self.instrument.slit_width) < 1.e-6*self.delt_y:
             if self.n_pix_x != self.n_pix_y:
                 self.n_pix_x = self.n_pix_y
         self.delt_x = self.instrument.slit_width/self.n_pix_x
-- 
2.43.0


From e27eb77343d125b97aa22b4f599a662db1ba3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 33/36] fix: hand lines given to FitEmissionLines2D to the
 spectrum

---
 misfit/fit/fit2D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index a9beb80..7f37d0e 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -236,6 +236,11 @@ class FitEmissionLines2D(object):
             else:
                 self.linenames_arr = self.galaxy.spec2D.linenames_arr
 
+        # Lines specified for the fit, but not for the spectrum:
+        for attr in ['linenames_arr', 'restwave_arr', 'flux_ratio_arr']:
+            if getattr(self.galaxy.spec2D, attr, None) is None:
+                setattr(self.galaxy.spec2D, attr, getattr(self, attr))
+
         if (self.linenames_arr is not None) & (self.restwave_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & \
                     (self.galaxy.spec2D.restwave_arr is None):
-- 
2.43.0


From 9bf16db48d6aa41a9862585af67aa3827149c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 34/36] fix: keep given rest wavelengths or flux ratios of
 EmissionLines1DModel when the other is looked up

---
 misfit/model/emission_lines_model.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index c92ef00..59a5abd 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -238,11 +238,15 @@ class EmissionLines1DModel(EmissionLines):
             wave_arr = []
             line_ratio_arr = []
             for linename in self.linenames_arr:
-                wave_arr.append(io.read_restwave(wave_file, linename=linename))
-                line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
-
-            self.restwave_arr = np.array(wave_arr)
-            self.flux_ratio_arr = np.array(line_ratio_arr)
+                if self.restwave_arr is None:
+                    wave_arr.append(io.read_restwave(wave_file, linename=linename))
+                if self.flux_ratio_arr is None:
+                    line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
+
+            if self.restwave_arr is None:
+                self.restwave_arr = np.array(wave_arr)
+            if self.flux_ratio_arr is None:
+                self.flux_ratio_arr = np.array(line_ratio_arr)
 
 
 
-- 
2.43.0


From 87d0d22e6cb442049c4ae32419bcfac280296feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 35/36] fix: fit the lines given to FitEmissionLines1D, not
 those of the library

---
 misfit/fit/fit1D.py                  |  1 +
 misfit/model/emission_lines_model.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index a6f5f8e..f4b6877 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -300,6 +300,7 @@ class FitEmissionLines1D(object):
         # raise ValueError
 
         emisModel = EmissionLinesSpectrum1DModel(names_arr=self.names_arr,
+                        linenames_arr=self.linenames_arr, restwave_arr=self.restwave_arr,
                         cont_order=self.cont_order, shape1D=self.shape1D)
 
         # Do the fitting:
diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 59a5abd..cc908c2 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -68,6 +68,10 @@ class EmissionLinesSpectrum1DModel(object):
     def __init__(self, **kwargs):
         self.names_arr = None
 
+        # Lines of every lineset, if specified explicitly:
+        self.linenames_arr = None
+        self.restwave_arr = None
+
         self.vel_disp = None    # dispersion of the lines (std dev) -- [km/s]
         self.z = None           # redshift
         self.flux_arr = None    # flux of brightest line
@@ -117,7 +121,12 @@ class EmissionLinesSpectrum1DModel(object):
         profile = np.zeros(len(obswave_arr))
 
         for i in range(len(self.names_arr)):
-            lineModel = EmissionLines1DModel(name=self.names_arr[i])
+            lineset = {'name': self.names_arr[i]}
+            if self.linenames_arr is not None:
+                lineset['linenames_arr'] = self.linenames_arr[i]
+            if self.restwave_arr is not None:
+                lineset['restwave_arr'] = self.restwave_arr[i]
+            lineModel = EmissionLines1DModel(**lineset)
             lineModel.make1DProfile(obswave_arr, z, vel_disp, self.flux_arr[i])
             profile += lineModel.profile
 
-- 
2.43.0


From e1668c7a215595fb6a0220e975e892b0bf844c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:40 +0000
Subject: [PATCH 36/36] fix: keep fitted parameters and continuum-subtracted
 fluxes that start as whole numbers

---
 misfit/fit/fit1D.py            | 2 +-
 misfit/general/galaxy_utils.py | 2 ++
 misfit/model/kin_model.py      | 4 +++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index f4b6877..8efb28b 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -448,7 +448,7 @@ class FitEmissionLines1D(object):
                     spec_perturb = self.galaxy.spec1D_trim.flux.copy()
                     # Now perturb randomly, using normal distribution
                     rand_vals = np.random.randn(len(spec_perturb))
-                    spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals
+                    spec_perturb = spec_perturb + self.galaxy.spec1D_trim.flux_err*rand_vals
 
                     params_best = lmfit.Parameters()
                     params_best.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c228e24..f839666 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -348,6 +348,8 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
     # Prepare for continuum subtraction on spec2D:
     x_fit_plot = spec2D.wave.copy()
 
+    # The rows are replaced below: an integer array would truncate the values
+    spec2D.flux = np.array(spec2D.flux, dtype=float)
     spec2D.flux_incl_cont = spec2D.flux.copy()
     spec2D.cont_model = np.zeros(spec2D.flux.shape)
 
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index ba1ec70..ceaa36d 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -77,8 +77,10 @@ class KinModel2D(object):
             kinModelOptions = KinModel2DOptions()
 
         # Unpack thetaSettings:
-        #   theta is updated in place, so take a copy
+        #   theta is updated in place, so take a copy (of floats: whole numbers would truncate the values)
         self.theta = copy.deepcopy(thetaSettings.theta)
+        if np.asarray(self.theta).dtype.kind in 'biu':
+            self.theta = np.array(self.theta, dtype=float)
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0

