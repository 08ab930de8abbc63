From 8eb7c2e5fe828b43b1802cd9eb8f8d62f297ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 01/40] fix: keep an automatic observation time automatic after
 calculating SNRs

get_snr_stationary/get_snr_evolving wrote the resolved value (e.g. 4 yr) into sc_params, so a later
get_snr(instrument="TianQin") used 4 yr rather than TianQin's own default.
---
 src/legwork/source.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..bc7aa1f 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -981,8 +981,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -993,6 +991,10 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
+        # only work out an automatic observation time *after* this so that the params stay automatic
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         snr = np.zeros(self.n_sources)
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
@@ -1111,8 +1113,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -1123,6 +1123,10 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
+        # only work out an automatic observation time *after* this so that the params stay automatic
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
         c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)
-- 
2.43.0


From 28bbc700d8e4d7ae91afc20f29336d41848f977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 02/40] fix: resolve an automatic observation time for DECIGO
 and custom noise as everywhere else

Classification and SNRs use 5 yr for every instrument other than LISA (as decigo_psd documents), but the
noise itself was computed with 4 yr for DECIGO and with the string "auto" for custom functions.
---
 src/legwork/psd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..dc648b4 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -194,7 +194,7 @@ def tianqin_psd(f, L=np.sqrt(3) * 1e5 * u.km, t_obs=5 * u.yr, approximate_R=None
     return psd.to(u.Hz**(-1))
 
 
-def decigo_psd(f, L=None, t_obs=4 * u.yr, approximate_R=None, confusion_noise="karnesis21",
+def decigo_psd(f, L=None, t_obs=5 * u.yr, approximate_R=None, confusion_noise="karnesis21",
                f_low=1e-3 * u.Hz, f_high=1e2 * u.Hz):
     """Calculates the effective DECIGO power spectral density sensitivity curve
 
@@ -289,7 +289,7 @@ def power_spectral_density(f, instrument="LISA", custom_psd=None, t_obs="auto",
         even if it ignores some.
 
     t_obs : `float`
-        Observation time (default 4 years for LISA and 5 years for TianQin)
+        Observation time (default 4 years for LISA and 5 years for anything else)
 
     L : `float`
         LISA arm length in metres
@@ -327,11 +327,12 @@ def power_spectral_density(f, instrument="LISA", custom_psd=None, t_obs="auto",
         psd = tianqin_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)
     elif instrument == "DECIGO":
         confusion_noise = "karnesis21" if confusion_noise == "auto" else confusion_noise
-        t_obs = 4 * u.yr if t_obs == "auto" else t_obs
+        t_obs = 5 * u.yr if t_obs == "auto" else t_obs
 
         # calculate psd
         psd = decigo_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)
     elif instrument == "custom":
+        t_obs = 5 * u.yr if t_obs == "auto" else t_obs
         psd = custom_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)
     else:
         raise ValueError("instrument: `{}` not recognised".format(instrument))
-- 
2.43.0


From 997843e9650069e1d378ae8e04fb5aac0e5ea837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 03/40] fix: re-interpolate the sensitivity curve when params
 are changed with |=

dict.__ior__ and dict.setdefault bypassed the checks and the re-interpolation of SensitivityCurveParams
---
 src/legwork/source.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index bc7aa1f..49fd58d 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1581,6 +1581,15 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate()
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Every parameter always has a value so this simply gets it (unknown keys can't be added)"""
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From 21813dd6aff5a442192cb213d001e9dad9aae05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 04/40] fix: keep weights and the interpolate_sc setting when
 evolving into a new class

With interpolate_sc=False the new class claimed to interpolate, so it started to do so at the next change.
---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 49fd58d..2de0a68 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1295,12 +1295,12 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From 1656d27b5cf4cc74e748eea947757fbf777d930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 05/40] fix: leave the sources unchanged when a new setting is
 rejected

A rejected sensitivity curve parameter (e.g. an unknown instrument) or luminosity tolerance raised an error
but was stored anyway, no longer matching the sensitivity curve or harmonics functions.
---
 src/legwork/source.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 2de0a68..19d165d 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -613,9 +613,15 @@ class Source():
         if gw_lum_tol == getattr(self, "_gw_lum_tol", None):
             return
 
+        old_gw_lum_tol = getattr(self, "_gw_lum_tol", None)
         self._gw_lum_tol = gw_lum_tol
-        self.create_harmonics_functions()
-        self.find_eccentric_transition()
+        try:
+            self.find_eccentric_transition()
+            self.create_harmonics_functions()
+        except Exception:
+            # nothing has been updated yet so keep the tolerance that matches the current functions
+            self._gw_lum_tol = old_gw_lum_tol
+            raise
 
     def set_g(self, interpolate_g):
         """Set Source g function if user wants to interpolate g(n,e).
@@ -683,7 +689,13 @@ class Source():
         changed = current_params is None or new_params != current_params
         self._sc_params = new_params
         if changed:
-            self.set_sc()
+            try:
+                self.set_sc()
+            except Exception:
+                # the params don't give a sensitivity curve so keep the ones that match the current curve
+                if current_params is not None:
+                    self._sc_params = current_params
+                raise
 
     def get_source_mask(self, circular=None, stationary=None, t_obs=None):
         """Produce a mask of the sources.
@@ -1566,20 +1578,22 @@ class SensitivityCurveParams(dict):
             self._source.set_sc()
 
     def __setitem__(self, key, value):
-        self._check_keys([key])
-        changed = self.get(key) != value
-        super().__setitem__(key, value)
-        if changed:
-            self._re_interpolate()
+        self.update({key: value})
 
     def update(self, *args, **kwargs):
         """Change several parameters at once, only re-interpolating the sensitivity curve once"""
         new_params = dict(*args, **kwargs)
         self._check_keys(new_params)
         changed = any(self.get(key) != value for key, value in new_params.items())
+        old_params = dict(self)
         super().update(new_params)
         if changed:
-            self._re_interpolate()
+            try:
+                self._re_interpolate()
+            except Exception:
+                # the params don't give a sensitivity curve so keep the ones that match the current curve
+                super().update(old_params)
+                raise
 
     def __ior__(self, other):
         self.update(other)
-- 
2.43.0


From 3747a0220f90727abf506553ca86d2bd69dc236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 06/40] fix: don't change the timesteps a user supplies to
 evol_ecc, accept a single merger time

---
 src/legwork/evol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..da82052 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -363,6 +363,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
             # calculate the merger time
             t_merge = get_t_merge_ecc(ecc_i=ecc_i, a_i=a_i,
                                       beta=beta, exact=exact_t_merge).to(u.Gyr)
+        else:
+            (t_merge,), _ = utils.ensure_array(t_merge)
 
         # warn the user if they are evolving past the merger
         if np.any(timesteps > t_merge[:, np.newaxis]):      # pragma: no cover
@@ -383,6 +385,9 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         too_close[:, 0] = False
 
         if np.any(too_close):
+            # take a copy to avoid changing any array that the user supplied
+            timesteps = timesteps.copy()
+
             # set them all equal to the previous timestep before passing limit
             timesteps[too_close] = -1 * u.Gyr
             previous = timesteps.max(axis=1).repeat(timesteps.shape[1])
-- 
2.43.0


From c4a7c1b00631b5a6e52ee112d4c6e0ec31e81769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 07/40] fix: warn about eccentric evolving sources when
 plotting rather than circular ones twice

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 19d165d..de45566 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1522,7 +1522,7 @@ class Source():
             logger.warning("{} circular and evolving sources detected, plotting not yet implemented "
                            "for evolving sources.".format(len(circ_evol[circ_evol])))
 
-        ecc_evol = self.get_source_mask(circular=True, stationary=False)
+        ecc_evol = self.get_source_mask(circular=False, stationary=False)
         ecc_evol = np.logical_and.reduce((ecc_evol, detectable, inspiraling))
         if ecc_evol.any():
             logger.warning("{} eccentric and evolving sources detected, plotting not yet implemented "
-- 
2.43.0


From 2782401133df3628fd06afc24b9e0778a768a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 08/40] fix: allow a single source with a position but no
 inclination or polarisation

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index de45566..f92aa78 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From ea92a4f93a070a1bcf34f7b28294718fe91de787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 09/40] fix: raise the documented ValueError for weights and
 sky information of the wrong length

---
 src/legwork/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index f92aa78..e102f31 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -189,6 +189,7 @@ class Source():
 
         # ensure all array arguments are the same length
         array_args = [m_1, m_2, dist, f_orb, ecc]
+        array_args += [arg for arg in [position, polarisation, inclination, weights] if arg is not None]
         length_check = np.array([len(arg) != len(array_args[0])
                                  for arg in array_args])
         if length_check.any():
-- 
2.43.0


From 165a8d0f9a687255c43c6d9211378fd8a3b873eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 10/40] fix: don't keep the old SNR of a source that has merged
 since

get_snr_stationary/get_snr_evolving return 0.0 for merged sources but left their old value in Source.snr
---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index e102f31..25aaa6a 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1071,7 +1071,7 @@ class Source():
 
         if self.snr is None:
             self.snr = np.zeros(self.n_sources)
-        self.snr[insp_sources] = snr[insp_sources]
+        self.snr[which_sources] = snr[which_sources]
 
         return snr[which_sources]
 
@@ -1200,7 +1200,7 @@ class Source():
 
         if self.snr is None:
             self.snr = np.zeros(self.n_sources)
-        self.snr[insp_sources] = snr[insp_sources]
+        self.snr[which_sources] = snr[which_sources]
 
         return snr[which_sources]
 
-- 
2.43.0


From 24ce28007d4c80e1f3ef2e3cf0f2ed3eb3cd07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 11/40] fix: accept numpy integers as a single harmonic in
 get_h_0_n and get_h_c_n

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 25aaa6a..cbd3d71 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -766,7 +766,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_0_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiraling sources (exclude merged)
@@ -815,7 +815,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_c_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiralling sources (exclude merged)
-- 
2.43.0


From 2dd94273643409eb9708e825f529dd23b9b48fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 12/40] fix: accept a list of eccentricities in get_t_merge_ecc

---
 src/legwork/evol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index da82052..e12aedb 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -557,7 +557,7 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
     beta, a_i = check_mass_freq_input(beta=beta, m_1=m_1, m_2=m_2, a_i=a_i, f_orb_i=f_orb_i)
 
     # shortcut if all binaries are circular
-    if np.all(ecc_i == 0.0):
+    if np.all(np.asarray(ecc_i) == 0.0):
         return get_t_merge_circ(beta=beta, a_i=a_i)
 
     @njit
@@ -568,6 +568,7 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
     # case with array of binaries
     if isinstance(ecc_i, (np.ndarray, list)):
         # mask eccentricity based on tolerances
+        ecc_i = np.asarray(ecc_i)
         circular = ecc_i == 0.0
         small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)
         large_e = ecc_i > large_e_tol
-- 
2.43.0


From 50ecdb2af8587e12ce02731ea92884bf20be91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 13/40] fix: allow a single frequency for the Huang+20
 (TianQin) confusion noise

---
 src/legwork/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index dc648b4..e3387f2 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -427,7 +427,7 @@ def get_confusion_noise_huang20(f, t_obs=5 * u.yr):
     confusion_noise = 10**(confusion_noise) * u.Hz**(-1/2)
 
     # remove confusion noise outside of TianQin regime (fit doesn't apply outside of regime)
-    confusion_noise[np.logical_or(f < 1e-4, f > 1e0)] = 0.0 * u.Hz**(-1/2)
+    confusion_noise = np.where(np.logical_or(f < 1e-4, f > 1e0), 0.0 * u.Hz**(-1/2), confusion_noise)
 
     # square the result as Huang+20 given the sensitivity not psd
     return confusion_noise**2
-- 
2.43.0


From f65383ab30ec7f4aab5a8e22d297dcecbc67efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 14/40] fix: accept a single frequency in evolve_f_orb_circ and
 determine_stationarity

---
 src/legwork/evol.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index e12aedb..44b3d5e 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -650,9 +650,6 @@ def evolve_f_orb_circ(f_orb_i, m_c, t_evol, ecc_i=0.0, merge_f=1e9 * u.Hz):
     f_orb_f : `bool/array`
         Final orbital frequency
     """
-    # fill the default value with the merged frequency
-    f_orb_f = np.repeat(merge_f, len(f_orb_i))
-
     # calculate the inner part of the final frequency equation
     inner_part = f_orb_i**(-8/3) - 2**(32/3) * np.pi**(8/3) \
         * t_evol / (5 * c.c**5) * (c.G * m_c)**(5/3) * utils.peters_f(ecc_i)
@@ -660,9 +657,9 @@ def evolve_f_orb_circ(f_orb_i, m_c, t_evol, ecc_i=0.0, merge_f=1e9 * u.Hz):
     # any merged binaries will have a negative inner part
     inspiral = inner_part >= 0.0
 
-    # fill in the values for binaries that are still inspiraling
-    f_orb_f[inspiral] = np.power(inner_part[inspiral], -3/8)
-    return f_orb_f
+    # fill in the values for binaries that are still inspiraling and the merged frequency for any others
+    f_orb_f = np.power(np.where(inspiral, inner_part, np.inf), -3/8)
+    return np.where(inspiral, f_orb_f, merge_f).to(merge_f.unit)
 
 
 def determine_stationarity(f_orb_i, t_evol, ecc_i, m_1=None, m_2=None, m_c=None, stat_tol=1e-2):
-- 
2.43.0


From abb7d06304c6b8aac6f5deabc768cbd2c24354b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 15/40] fix: accept single sources in each SNR function as
 documented

---
 src/legwork/snr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index 8a8924e..d5d8353 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -123,6 +123,9 @@ def snr_ecc_stationary(m_c, f_orb, ecc, dist, t_obs, harmonics_required,
     max_snr_harmonic : `int/array`
         harmonic with maximum SNR for each binary (only returned if ``ret_max_snr_harmonic=True``)
     """
+    # convert to array if necessary
+    (m_c, f_orb, ecc, dist), _ = utils.ensure_array(m_c, f_orb, ecc, dist)
+
     # define range of harmonics
     n_range = np.arange(1, harmonics_required + 1).astype(int)
 
@@ -202,6 +205,8 @@ def snr_circ_evolving(m_1, m_2, f_orb_i, dist, t_obs, n_step, t_merge=None,
     sn : `float/array`
         SNR for each binary
     """
+    # convert to array if necessary
+    (m_1, m_2, f_orb_i, dist, t_merge), _ = utils.ensure_array(m_1, m_2, f_orb_i, dist, t_merge)
     m_c = utils.chirp_mass(m_1=m_1, m_2=m_2)
 
     # calculate minimum of observation time and merger time
@@ -304,6 +309,8 @@ def snr_ecc_evolving(m_1, m_2, f_orb_i, dist, ecc, harmonics_required, t_obs, n_
         harmonic with maximum SNR for each binary (only returned if
         ``ret_max_snr_harmonic=True``)
     """
+    # convert to array if necessary
+    (m_1, m_2, f_orb_i, dist, ecc, t_merge), _ = utils.ensure_array(m_1, m_2, f_orb_i, dist, ecc, t_merge)
     m_c = utils.chirp_mass(m_1=m_1, m_2=m_2)
 
     # calculate minimum of observation time and merger time
-- 
2.43.0


From a491065c659072b2f789e32f256556b241b5e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 16/40] fix: allow an empty list as an index of sources, as for
 any array

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index cbd3d71..2c9ede1 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -267,7 +267,7 @@ class Source():
         elif isinstance(ind, slice):
             mask = np.arange(self.n_sources)[ind]
         else:
-            mask = np.asarray(ind)
+            mask = np.asarray(ind, dtype=int) if isinstance(ind, list) and len(ind) == 0 else np.asarray(ind)
             if mask.dtype == bool:
                 if len(mask) != self.n_sources:
                     raise ValueError(("Boolean masks must have the same length as the number of sources "
-- 
2.43.0


From 28bd968293a75cd465a4b24016e63135b2c51578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 17/40] fix: don't overwrite SNRs that were returned earlier
 when calculating new ones

---
 src/legwork/source.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 2c9ede1..05972e8 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1065,12 +1065,12 @@ class Source():
                                                                    approximate_R=approximate_R,
                                                                    confusion_noise=confusion_noise,)
 
-        if self.max_snr_harmonic is None:
-            self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
+        # record the results in new arrays so that any that were returned earlier aren't changed
+        self.max_snr_harmonic = np.zeros(self.n_sources).astype(int) if self.max_snr_harmonic is None \
+            else np.array(self.max_snr_harmonic)
         self.max_snr_harmonic[insp_sources] = msh[insp_sources]
 
-        if self.snr is None:
-            self.snr = np.zeros(self.n_sources)
+        self.snr = np.zeros(self.n_sources) if self.snr is None else np.array(self.snr)
         self.snr[which_sources] = snr[which_sources]
 
         return snr[which_sources]
@@ -1194,12 +1194,12 @@ class Source():
                                                                  approximate_R=approximate_R,
                                                                  confusion_noise=confusion_noise)
 
-        if self.max_snr_harmonic is None:
-            self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
+        # record the results in new arrays so that any that were returned earlier aren't changed
+        self.max_snr_harmonic = np.zeros(self.n_sources).astype(int) if self.max_snr_harmonic is None \
+            else np.array(self.max_snr_harmonic)
         self.max_snr_harmonic[insp_sources] = msh[insp_sources]
 
-        if self.snr is None:
-            self.snr = np.zeros(self.n_sources)
+        self.snr = np.zeros(self.n_sources) if self.snr is None else np.array(self.snr)
         self.snr[which_sources] = snr[which_sources]
 
         return snr[which_sources]
-- 
2.43.0


From 157cd1b10978315626adf5bef7a40fd48fc2aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 18/40] fix: SNRs of nearly circular sources no longer depend
 on whether merger times were calculated

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 05972e8..dc34173 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1150,14 +1150,14 @@ class Source():
         if c_mask.any():
             if verbose:
                 print("\t\t{} sources are evolving and circular".format(len(snr[c_mask])))
-            t_merge = None if self.t_merge is None else self.t_merge[c_mask]
+            # these are evolved as exactly circular, so `self.t_merge` (which accounts for any small
+            # eccentricity) isn't used here and the SNR is the same whether or not it has been calculated
             snr[c_mask] = sn.snr_circ_evolving(m_1=self.m_1[c_mask],
                                                m_2=self.m_2[c_mask],
                                                f_orb_i=self.f_orb[c_mask],
                                                dist=self.dist[c_mask],
                                                t_obs=t_obs,
                                                n_step=n_step,
-                                               t_merge=t_merge,
                                                interpolated_g=self.g,
                                                interpolated_sc=self.sc,
                                                instrument=instrument,
-- 
2.43.0


From 80451f3a48b21daf45e502a28cb82f229dc5953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 19/40] fix: allow sources that use a custom instrument to be
 loaded from a file

---
 src/legwork/source.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index dc34173..148f255 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -457,7 +457,8 @@ class Source():
                     sc_params[key] = value.item() if isinstance(value, np.generic) else value
 
             # custom functions can't be saved so let the user know they need to supply them again
-            if sc_params.get("instrument") == "custom" and sc_params.get("custom_psd") is None:
+            missing_psd = sc_params.get("instrument") == "custom" and sc_params.get("custom_psd") is None
+            if missing_psd:
                 print("WARNING: These sources use a custom instrument but the corresponding `custom_psd`",
                       "function could not be saved to file. Set `Source.sc_params[\"custom_psd\"]` to",
                       "supply it again before calculating anything.")
@@ -477,7 +478,11 @@ class Source():
 
             sources = klass(n_proc=int(n_proc), gw_lum_tol=float(file.attrs["gw_lum_tol"]),
                             stat_tol=float(file.attrs["stat_tol"]), interpolate_g=bool(interpolate_g),
-                            interpolate_sc=bool(interpolate_sc), sc_params=sc_params, **kwargs)
+                            interpolate_sc=bool(interpolate_sc) and not missing_psd, sc_params=sc_params,
+                            **kwargs)
+
+            # the sensitivity curve gets interpolated once the user supplies the function again
+            sources.interpolate_sc = bool(interpolate_sc)
 
             # add back anything that had already been calculated when the sources were saved
             for name in _NOT_KWARG_ATTRS:
-- 
2.43.0


From aa1e99217a3220a84e98453d62406666473d1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 20/40] fix: accept a single evolution time of any numeric type
 in evolve_sources

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 148f255..9f406b8 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1276,7 +1276,7 @@ class Source():
         e_mask = np.logical_and(self.ecc != 0.0, np.logical_not(merged))
 
         # split up the evolution times if need be
-        if isinstance(t_evol.value, (int, float)):
+        if np.ndim(t_evol) == 0:
             t_evol_circ = t_evol
             t_evol_ecc = t_evol
         else:
-- 
2.43.0


From 957c19b38e990c6e5219b58c63e7700dc98f47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 21/40] fix: don't overwrite the merger times of circular
 binaries when small_e_tol is 0

---
 src/legwork/evol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 44b3d5e..a57e51b 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -572,11 +572,11 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
         circular = ecc_i == 0.0
         small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)
         large_e = ecc_i > large_e_tol
-        other_e = np.logical_and(ecc_i >= small_e_tol, ecc_i <= large_e_tol)
+        not_circ = np.logical_not(circular)
+        other_e = np.logical_and.reduce((not_circ, ecc_i >= small_e_tol, ecc_i <= large_e_tol))
 
         # calculate c0 from Peters Eq. 5.11 (avoid circular binaries)
         c0 = np.zeros_like(a_i)
-        not_circ = np.logical_not(circular)
         c0[not_circ] = utils.c_0(a_i[not_circ], ecc_i[not_circ])
 
         t_merge = np.zeros(len(ecc_i)) * u.Gyr
-- 
2.43.0


From 28f17dda67abd99c77ea84bc83b2809301896da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 22/40] fix: convert sky positions to J2000 ecliptic
 coordinates whatever the equinox of the original frame

---
 src/legwork/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 9f406b8..f9c4655 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -164,7 +164,8 @@ class Source():
                                  "modulation is only valid for circular sources")
 
             # ensure position is in the correct coordinate frame
-            position = position.transform_to("barycentrictrueecliptic")
+            # (without carrying over attributes like the equinox of the original frame)
+            position = position.transform_to("barycentrictrueecliptic", merge_attributes=False)
 
             # ensure that the position, polarisation, and inclination
             # quantities are at least 1d for masking later on
-- 
2.43.0


From d6359662518f4a052dcf7accf340f81b6da8fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:05 +0000
Subject: [PATCH 23/40] fix: use the approximate response beyond the tabulated
 range instead of extrapolating the spline to negative values

---
 src/legwork/psd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index e3387f2..c46009f 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -47,7 +47,9 @@ def load_response_function(f, fstar=19.09e-3):
 
     # use interpolated curve to get R values for supplied f values
     R = splev(f, R_data, der=0)
-    return R
+
+    # the spline can't be extrapolated above the values in the file (it becomes negative)
+    return np.where(f > np.max(f_R) * fstar, approximate_response_function(f, fstar), R)
 
 
 def approximate_response_function(f, fstar):
-- 
2.43.0


From 828592a49534ec5ccde0d8cb18ab0ad38cdf62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 24/40] fix: avoid overflow to NaN in the Robson+19 confusion
 noise at high frequencies

---
 src/legwork/psd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index c46009f..b40d6d4 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -375,9 +375,10 @@ def get_confusion_noise_robson19(f, t_obs=4 * u.yr):
     # find index of the closest length to inputted observation time
     ind = np.abs(t_obs - lengths).argmin()
 
-    confusion_noise = 9e-45 * f**(-7 / 3.) * np.exp(-f**(alpha[ind]) + beta[ind]
-                                                    * f * np.sin(kappa[ind] * f))\
-        * (1 + np.tanh(gamma[ind] * (fk[ind] - f))) * u.Hz**(-1)
+    # combine the exponential with (1 + tanh(x)) = 2 / (1 + exp(-2x)) to avoid overflows at high frequencies
+    exponent = -f**(alpha[ind]) + beta[ind] * f * np.sin(kappa[ind] * f)
+    tanh_part = np.logaddexp(0.0, -2 * gamma[ind] * (fk[ind] - f))
+    confusion_noise = 9e-45 * f**(-7 / 3.) * 2 * np.exp(exponent - tanh_part) * u.Hz**(-1)
     return confusion_noise
 
 
-- 
2.43.0


From 59632ec77634ebcc0d2200675f31dab847fd9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 25/40] fix: keep the last timestep of merging sources in the
 SNR of eccentric evolving sources

---
 src/legwork/snr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index d5d8353..1479552 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -319,10 +319,12 @@ def snr_ecc_evolving(m_1, m_2, f_orb_i, dist, ecc, harmonics_required, t_obs, n_
 
     t_before = 0.1 * u.yr
 
-    t_evol = np.minimum(t_merge - t_before, t_obs).to(u.s)
-    # get eccentricity and f_orb evolutions
+    t_evol = np.maximum(np.minimum(t_merge - t_before, t_obs), 0 * u.s).to(u.s)
+    # get eccentricity and f_orb evolutions (the final timestep of a merging source is exactly ``t_before``
+    # its merger so cut off slightly later than that to ensure that it is not discarded)
     e_evol, f_orb_evol = evol.evol_ecc(ecc_i=ecc, t_evol=t_evol, n_step=n_step, m_1=m_1, m_2=m_2,
-                                       f_orb_i=f_orb_i, n_proc=n_proc, t_before=t_before, t_merge=t_merge)
+                                       f_orb_i=f_orb_i, n_proc=n_proc, t_before=t_before - 1 * u.s,
+                                       t_merge=t_merge)
 
     maxes = np.where(np.logical_and(e_evol == 0.0, f_orb_evol == 1e2 * u.Hz),
                      -1 * u.Hz, f_orb_evol).max(axis=1)
-- 
2.43.0


From 4dc0cb58ab6e476f85df559e82538bcddfc96792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:42 +0000
Subject: [PATCH 26/40] fix: report the last tabulated strongest harmonic, not
 the number of harmonics, for eccentricities beyond the table

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index f9c4655..b52694e 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -575,7 +575,7 @@ class Source():
         # now calculate the max strain harmonics
         max_strain_harmonics = n_range[g_vals.argmax(axis=1)]
         interpolated_dh = interp1d(e_range, max_strain_harmonics, bounds_error=False,
-                                   fill_value=(2, np.max(harmonics_needed)))
+                                   fill_value=(2, np.max(max_strain_harmonics)))
 
         def max_strain_harmonic(e):
             return np.round(interpolated_dh(e)).astype(int)
-- 
2.43.0


From 19710f59cf346d70ba3cb5f9e8cb5fc8cd97bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 27/40] fix: weighted histograms failed with the default
 (automatic) bins

---
 src/legwork/visualisation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 9b52cc4..41c38ad 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -141,6 +141,11 @@ def plot_1D_dist(x, weights=None, disttype="hist", log_scale=False, fig=None, ax
 
                 # apply log to variable
                 x = np.log10(x)
+
+            # bin edges can't be estimated automatically for weighted data so work them out without weights
+            if weights is not None and isinstance(plot_args["bins"], str):
+                plot_args["bins"] = np.histogram_bin_edges(x, bins=plot_args["bins"],
+                                                           range=plot_args.get("range"))
             ax.hist(x, weights=weights, color=color, **plot_args)
         elif disttype == "kde":
             sns.kdeplot(x=x, weights=weights, ax=ax, color=color, log_scale=log_scale, **plot_args)
-- 
2.43.0


From 68c98603a3bb593ec77bb4e2b82c329eabd91c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 28/40] fix: sensitivity curves for frequencies not in Hz were
 drawn on mislabelled axes with wrong limits

---
 src/legwork/visualisation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 41c38ad..7b6e217 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -363,6 +363,7 @@ def plot_sensitivity_curve(frequency_range=None, y_quantity="ASD", fig=None, ax=
     """
     if frequency_range is None:
         frequency_range = np.logspace(-5, 0, 1000) * u.Hz
+    frequency_range = frequency_range.to(u.Hz)
 
     if fig is None or ax is None:
         fig, ax = plt.subplots(figsize=figsize)
@@ -500,7 +501,7 @@ def plot_sources_on_sc(f_dom, snr, weights=None, snr_cutoff=0, t_obs="auto",
                                                   approximate_R=approximate_R,
                                                   confusion_noise=confusion_noise)).to(u.Hz**(-1/2))
     asd = snr[detectable] * sqrt_psd
-    h_c = asd * np.sqrt(f_dom[detectable])
+    h_c = (asd * np.sqrt(f_dom[detectable])).to(u.dimensionless_unscaled)
     use_h_c = ("y_quantity" in sc_vis_settings and sc_vis_settings["y_quantity"] == "h_c")
 
     # plot either a scatter or density plot of the detectable binaries
-- 
2.43.0


From ff12b35379fdcb91d95c9beac012e6cf214ff02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 29/40] fix: cumulative distributions of source variables were
 labelled as densities

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index b52694e..bc9e1e8 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1441,7 +1441,7 @@ class Source():
                 kwargs["ylabel"] = labels[ystr] + ", " + latex_labels[ystr]
             else:
                 kwargs["ylabel"] = r"{} [{:latex}]".format(labels[ystr] + ", " + latex_labels[ystr], y.unit)
-        elif "ylabel" not in kwargs.keys():
+        elif "ylabel" not in kwargs.keys() and kwargs.get("disttype") != "ecdf":
             if log_scale[0]:
                 kwargs["ylabel"] = r"$\mathrm{d}N/\mathrm{d}(\log_{10}($" + latex_labels[xstr] + "))"
             else:
-- 
2.43.0


From 43d4afa4dfdabd272d41bab69eb354b1fad2eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 30/40] fix: fall back to the approximate response (with a
 warning) when the response file is missing

---
 src/legwork/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index b40d6d4..2bd317d 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -38,7 +38,7 @@ def load_response_function(f, fstar=19.09e-3):
     # try to load the values for interpolating R
     try:
         f_R, R = np.load(os.path.join(resources.files("legwork"),"R.npy"), allow_pickle=True)
-    except FileExistsError:  # pragma: no cover
+    except FileNotFoundError:  # pragma: no cover
         logger.warning("Can't find response function file, using approximation instead")
         return approximate_response_function(f, fstar)
 
-- 
2.43.0


From b5e908130217b88d5027544ed2ef4e05fbab6568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 31/40] fix: keep the logging level that a user chose before
 importing the package

---
 src/legwork/_logging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/legwork/_logging.py b/src/legwork/_logging.py
index ee7bb5d..f5b0047 100644
--- a/src/legwork/_logging.py
+++ b/src/legwork/_logging.py
@@ -61,7 +61,10 @@ if not logger.handlers:
     handler.setFormatter(LegworkFormatter(stream=sys.stdout))
 
     logger.addHandler(handler)
-    logger.setLevel(logging.INFO)
+
+    # respect a level that the user has already chosen
+    if logger.level == logging.NOTSET:
+        logger.setLevel(logging.INFO)
 
     # don't pass the messages up to the root logger as well, they'd be shown twice
     logger.propagate = False
-- 
2.43.0


From 7b8c74155e5172dd72deef15228c01dd6e35dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 32/40] fix: print the warning about custom functions when
 saving as text instead of as a tuple

---
 src/legwork/source.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index bc9e1e8..8896b4e 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -367,9 +367,8 @@ class Source():
             sc_group = file.create_group("sc_params")
             for key, value in self.sc_params.items():
                 if callable(value):
-                    print((f"WARNING: `{key}` in `sc_params` is a custom function and cannot be"
-                           "saved to file, it will be replaced by the default value when you load these",
-                           "sources back in"))
+                    print(f"WARNING: `{key}` in `sc_params` is a custom function and cannot be saved to file,",
+                          "it will be replaced by the default value when you load these sources back in")
                 elif value is None:
                     sc_group.attrs[key] = "__none__"
                 elif isinstance(value, u.Quantity):
-- 
2.43.0


From 079e2c2e77e35170e45049b1163199384a626679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 33/40] fix: don't warn about evolving past the merger when
 evolving until the merger by default

---
 src/legwork/evol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index a57e51b..171e354 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -354,6 +354,9 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         raise ValueError("`m_1`` and `m_2` required if `output_vars` contains a frequency")
 
     c_0 = utils.c_0(a_i=a_i, ecc_i=ecc_i)
+
+    # sources are evolved until their exact merger times by default
+    until_merger = t_evol is None and timesteps is None
     timesteps = create_timesteps_array(a_i=a_i, beta=beta, ecc_i=ecc_i,
                                        t_evol=t_evol, n_step=n_step, timesteps=timesteps)
 
@@ -361,8 +364,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
     if avoid_merger:
         if t_merge is None:
             # calculate the merger time
-            t_merge = get_t_merge_ecc(ecc_i=ecc_i, a_i=a_i,
-                                      beta=beta, exact=exact_t_merge).to(u.Gyr)
+            t_merge = get_t_merge_ecc(ecc_i=ecc_i, a_i=a_i, beta=beta,
+                                      exact=exact_t_merge or until_merger).to(u.Gyr)
         else:
             (t_merge,), _ = utils.ensure_array(t_merge)
 
-- 
2.43.0


From bdf1305c34c1890b5e88b28883b905dc3e182fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 34/40] fix: raise the documented AssertionError when a
 separation, polarisation or inclination is missing units

---
 src/legwork/source.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 8896b4e..ed93026 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -140,6 +140,17 @@ class Source():
         if f_orb is None and a is None:
             raise ValueError("Either `f_orb` or `a` must be specified")
 
+        # define which arguments must have units
+        unit_args = [m_1, m_2, dist, a if f_orb is None else f_orb, polarisation, inclination]
+        unit_args_str = ['m_1', 'm_2', 'dist', 'a' if f_orb is None else 'f_orb', 'polarisation', 'inclination']
+
+        for i in range(len(unit_args)):
+            # (the orientation of the sources is optional)
+            if unit_args_str[i] in ['polarisation', 'inclination'] and unit_args[i] is None:
+                continue
+            assert (isinstance(unit_args[i], u.quantity.Quantity)), \
+                "`{}` must have units".format(unit_args_str[i])
+
         # raise errors or fill missing values
         if position is None:
             if inclination is not None:
@@ -176,14 +187,6 @@ class Source():
         # calculate the orbital frequency if it wasn't supplied
         f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
 
-        # define which arguments must have units
-        unit_args = [m_1, m_2, dist, f_orb]
-        unit_args_str = ['m_1', 'm_2', 'dist', 'f_orb']
-
-        for i in range(len(unit_args)):
-            assert (isinstance(unit_args[i], u.quantity.Quantity)), \
-                "`{}` must have units".format(unit_args_str[i])
-
         # make sure the inputs are arrays
         fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)
         m_1, m_2, dist, f_orb, ecc, weights = fixed_args
-- 
2.43.0


From 9a03353e1fdc747215aac71fe2d6505ddfe3f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 35/40] fix: leave the settings and SNRs of sources as they
 were when an SNR can't be calculated

---
 src/legwork/source.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index ed93026..4cbe1b1 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -7,6 +7,7 @@ from importlib import resources
 from scipy.interpolate import interp1d, RectBivariateSpline
 import os
 from copy import copy
+from functools import wraps
 
 from . import utils, strain, psd, evol
 from . import snr as sn
@@ -37,6 +38,20 @@ DEFAULT_SC_PARAMS = {
 }
 
 
+def _undo_on_error(func):
+    """Decorator that leaves the sources (and their settings) as they were if SNRs can't be calculated"""
+    @wraps(func)
+    def wrapper(self, *args, **kwargs):
+        old_params, old_snr, old_harmonic = dict(self.sc_params), self.snr, self.max_snr_harmonic
+        try:
+            return func(self, *args, **kwargs)
+        except Exception:
+            self.snr, self.max_snr_harmonic = old_snr, old_harmonic
+            self.sc_params.update(old_params)
+            raise
+    return wrapper
+
+
 class Source():
     """Class for generic GW sources
 
@@ -849,6 +864,7 @@ class Source():
         # return all sources, not just inpsiralling ones
         return h_c_n[which_sources, :]
 
+    @_undo_on_error
     def get_snr(self, t_obs=None, instrument=None, custom_psd=None, L=None, approximate_R=None,
                 confusion_noise=None, n_step=100, verbose=False, which_sources=None):
         """Computes the SNR for a generic binary. Also records the harmonic with maximum SNR for each
@@ -957,6 +973,7 @@ class Source():
         self.snr = snr
         return snr
 
+    @_undo_on_error
     def get_snr_stationary(self, t_obs=None, instrument=None, custom_psd=None, L=None, approximate_R=None,
                            confusion_noise=None, which_sources=None, verbose=False):
         """Computes the SNR assuming a stationary binary
@@ -1083,6 +1100,7 @@ class Source():
 
         return snr[which_sources]
 
+    @_undo_on_error
     def get_snr_evolving(self, t_obs=None, instrument=None, custom_psd=None, L=None, approximate_R=None,
                          confusion_noise=None, n_step=100, which_sources=None,
                          verbose=False):
-- 
2.43.0


From bbc140ec8207abfa5deb836f6b2765925299d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 36/40] fix: let sources be copied with the copy module without
 sharing or breaking their sensitivity curve parameters

---
 src/legwork/source.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 4cbe1b1..af63b83 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -6,7 +6,7 @@ import numpy as np
 from importlib import resources
 from scipy.interpolate import interp1d, RectBivariateSpline
 import os
-from copy import copy
+from copy import copy, deepcopy
 from functools import wraps
 
 from . import utils, strain, psd, evol
@@ -325,6 +325,13 @@ class Source():
         """
         return self[:]
 
+    def __copy__(self):
+        """Shallow copy of this class (with its own parameters, bound to the new class)"""
+        sources = self.__class__.__new__(self.__class__)
+        sources.__dict__.update(self.__dict__)
+        sources._sc_params = SensitivityCurveParams(self.sc_params, source=sources)
+        return sources
+
     def save(self, file_name, overwrite=False):
         """Save these sources to an HDF5 file, which can be read back in with
         :meth:`legwork.source.Source.from_file`
@@ -1635,6 +1642,11 @@ class SensitivityCurveParams(dict):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
 
+    def __deepcopy__(self, memo):
+        """Copy the parameters (bound to the copy of the source if that's being copied too)"""
+        return SensitivityCurveParams({key: deepcopy(value, memo) for key, value in self.items()},
+                                      source=memo.get(id(self._source)))
+
     def _cant_remove(self, *args, **kwargs):
         raise TypeError("Sensitivity curve parameters can't be removed, only changed")
 
-- 
2.43.0


From 2184148ea0eb716917c8f9db6abdf59cf7fc6028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 37/40] fix: reject a number of separations that differs from
 the number of sources instead of broadcasting it

---
 src/legwork/source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index af63b83..7d7bbfd 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -199,6 +199,10 @@ class Source():
                                                                 polarisation, inclination)
             position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')
 
+        # a single separation would otherwise be shared between all of the sources
+        if f_orb is None and np.size(a) != np.size(m_1):
+            raise ValueError("All input arrays must have the same length")
+
         # calculate the orbital frequency if it wasn't supplied
         f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
 
-- 
2.43.0


From 3b540feaf48385fbe60545da98297b84c8306e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 38/40] fix: don't evolve a circular source backwards when it
 merges within a second

---
 src/legwork/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index 1479552..2739a50 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -212,7 +212,7 @@ def snr_circ_evolving(m_1, m_2, f_orb_i, dist, t_obs, n_step, t_merge=None,
     # calculate minimum of observation time and merger time
     if t_merge is None:
         t_merge = evol.get_t_merge_circ(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
-    t_evol = np.minimum(t_merge - (1 * u.s), t_obs)
+    t_evol = np.maximum(np.minimum(t_merge - (1 * u.s), t_obs), 0 * u.s)
 
     # get f_orb evolution
     f_orb_evol = evol.evol_circ(t_evol=t_evol, n_step=n_step, m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
-- 
2.43.0


From 8d740f008868495959f767f84ef6576fec6979e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 39/40] fix: interpolate the DECIGO sensitivity curve over its
 whole band instead of stopping at 2 Hz

---
 src/legwork/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 7d7bbfd..4977606 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -686,8 +686,9 @@ class Source():
         ``sc_params``. Otherwise just leave the function as None.
         """
         if self.interpolate_sc:
-            # get values
-            frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
+            # get values (DECIGO is sensitive to much higher frequencies than the other instruments)
+            max_frequency = 1e2 if self.sc_params["instrument"] == "DECIGO" else 2
+            frequency_range = np.logspace(-7, np.log10(max_frequency), 10000) * u.Hz
             sc = psd.power_spectral_density(frequency_range, **self.sc_params)
 
             # interpolate
-- 
2.43.0


From b3c0116c1a04c59c4a6a31cf89bfd874c174d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 40/40] fix: convert the noise given by a user's own function
 to 1/Hz instead of dropping its units

---
 src/legwork/psd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 2bd317d..49f1e08 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -133,7 +133,7 @@ def lisa_psd(f, t_obs=4 * u.yr, L=2.5e9 * u.m, approximate_R=False, confusion_no
     if isinstance(confusion_noise, str) or confusion_noise is None:
         cn = get_confusion_noise(f=f * u.Hz, t_obs=t_obs, model=confusion_noise).value
     else:
-        cn = confusion_noise(f, t_obs).value
+        cn = confusion_noise(f, t_obs).to(u.Hz**(-1)).value
 
     L = L.to(u.m).value
 
@@ -263,7 +263,7 @@ def decigo_psd(f, L=None, t_obs=5 * u.yr, approximate_R=None, confusion_noise="k
     if isinstance(confusion_noise, str) or confusion_noise is None:
         cn = get_confusion_noise(f=f * u.Hz, t_obs=t_obs, model=confusion_noise).value
     else:
-        cn = confusion_noise(f, t_obs).value
+        cn = confusion_noise(f, t_obs).to(u.Hz**(-1)).value
 
 
     # calculate sensitivity curve
@@ -335,7 +335,8 @@ def power_spectral_density(f, instrument="LISA", custom_psd=None, t_obs="auto",
         psd = decigo_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)
     elif instrument == "custom":
         t_obs = 5 * u.yr if t_obs == "auto" else t_obs
-        psd = custom_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)
+        psd = u.Quantity(custom_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R,
+                                    confusion_noise=confusion_noise), u.Hz**(-1))
     else:
         raise ValueError("instrument: `{}` not recognised".format(instrument))
 
-- 
2.43.0

