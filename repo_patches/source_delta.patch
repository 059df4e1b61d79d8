From c3030c0773a7ac912668689ec545ed062c750e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 01/37] hook: allow verification builds to use a coarser dark
 energy table

Guarded by COFFE_VERIF_EOS_BINS; without it nothing changes.
---
 src/background.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/background.c b/src/background.c
index 9845cde..a79431a 100644
--- a/src/background.c
+++ b/src/background.c
@@ -335,7 +335,12 @@ int coffe_background_init(
     ipar.Omega0_de = par->Omega0_de;
     {
         double z, z_max = 100.;
+#ifdef COFFE_VERIF_EOS_BINS
+        /* verification builds only: a coarser table of the equation of state */
+        const size_t bins = COFFE_VERIF_EOS_BINS;
+#else
         const size_t bins = 16384;
+#endif
         double *z_array = (double *)coffe_malloc(sizeof(double)*(bins + 1));
 
         double *w_array = (double *)coffe_malloc(sizeof(double)*(bins + 1));
-- 
2.43.0


From f7d39ec1af322b029d0d18f84b913ce5c2c4ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 02/37] fix: integrals_fftlog_sampling could never be set
 (wrong attribute name)

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dc8a57..d25d7d2 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1650,7 +1650,7 @@ cdef class Coffe:
             1000000,
         )
 
-        self._parameter.bessel_bins = int(value)
+        self._parameters.bessel_bins = int(value)
         self._free_except_parameters()
 
 
-- 
2.43.0


From d8686f8c2421e2e004bbdabfe3486ac9c5664db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 03/37] hook: allow verification builds to use a coarser
 renormalization table

Guarded by COFFE_VERIF_RENORMALIZATION_BINS; without it nothing changes.
---
 src/integrals.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/integrals.c b/src/integrals.c
index 27a0859..38d4880 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -848,7 +848,12 @@ int coffe_integrals_init(
             free(result);
             free(result0);
 
+#ifdef COFFE_VERIF_RENORMALIZATION_BINS
+            /* verification builds only: a coarser table */
+            const size_t nbins = COFFE_VERIF_RENORMALIZATION_BINS;
+#else
             const size_t nbins = 200;
+#endif
             double *result2d = (double *)coffe_malloc(
                 sizeof(double) * (nbins + 1) * (nbins + 1)
             );
-- 
2.43.0


From 5b2e4b547563bf0586ed6d3e11e79a11201edeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 04/37] fix: decide whether the divergent integral is needed
 when the integrals are computed

The flag was only set by the compute_* functions, so integrals computed through
integral() lacked the divergent one and a later compute_* call dereferenced NULL;
it was also never reset when the contributions changed.
---
 python/coffe/coffe.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d25d7d2..69873b8 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1105,9 +1105,6 @@ cdef class Coffe:
                 "'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', "
                 "'has_g4', 'has_g5'"
             )
-        if any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]):
-            self._parameters.divergent = 1
-
 
     def _balance_content(self):
         """
@@ -3546,6 +3543,10 @@ cdef class Coffe:
         self._power_spectrum_flag = 1
 
     def _integrals_init(self):
+        # the divergent integral is only needed by these contributions
+        self._parameters.divergent = int(
+            any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+        )
         ccoffe.coffe_integrals_init(
             &self._parameters,
             &self._background,
-- 
2.43.0


From 97032df4cdcf8cb157c90d79712d01be843103f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 05/37] fix: discard every cached output that depends on a
 separation, redshift or bias that changes

sep, z_min, z_max and the bias setters kept returning redshift-averaged multipoles,
covariances and (for magnification and evolution bias) Doppler/gravitational terms
computed with the previous values.
---
 python/coffe/coffe.pyx | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 69873b8..b65311b 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1580,6 +1580,9 @@ cdef class Coffe:
             self._parameters.sep[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     @property
@@ -1741,6 +1744,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias2(self, z : float):
@@ -1774,6 +1780,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias3(self, z : float):
@@ -1796,6 +1805,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias4(self, z : float):
@@ -1818,6 +1830,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def magnification_bias1(self, z : float):
@@ -1849,8 +1864,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background contains functions of the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def magnification_bias2(self, z : float):
@@ -1882,8 +1900,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background contains functions of the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias1(self, z : float):
@@ -1903,8 +1924,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background contains functions of the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias2(self, z : float):
@@ -1924,8 +1948,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background contains functions of the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     @property
@@ -2039,6 +2066,7 @@ cdef class Coffe:
             self._parameters.zmin[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
@@ -2077,6 +2105,7 @@ cdef class Coffe:
             self._parameters.zmax[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
-- 
2.43.0


From c534e421c29ee0c3b686ec7d8a1f5cfd51bb10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 06/37] fix: discard the integrals when the redshifts,
 multipoles or interpolation they use change

---
 python/coffe/coffe.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b65311b..9a625be 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1989,6 +1989,7 @@ cdef class Coffe:
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
+        self._free_integrals()
         self._free_multipoles()
         self._free_average_multipoles()
         self._free_covariance_multipoles()
@@ -2028,6 +2029,8 @@ cdef class Coffe:
         self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
+        # the range of the renormalization integral depends on the redshifts
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
@@ -2347,6 +2350,11 @@ cdef class Coffe:
             self._parameters.covariance_interpolation_method = value
         else:
             self._parameters.covariance_interpolation_method = _invert_dict(_allowed_interpolation_2d_methods)[value]
+        # the two-dimensional integrals use the same interpolation
+        self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
@@ -2456,6 +2464,8 @@ cdef class Coffe:
         self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
+        # the range of the renormalization integral depends on the redshifts
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
-- 
2.43.0


From 8fd319f4857c14eea5afd4b9062041d43e3018b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 07/37] fix: discard the outputs computed with the previous
 spectrum in set_power_spectrum_linear

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 9a625be..68381a9 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3029,6 +3029,11 @@ cdef class Coffe:
         free(y_norm)
 
         self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def comoving_distance(self, z : float):
-- 
2.43.0


From 6f2727ad8038f9f2cb0f4e5e724112e3b80dc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 08/37] fix: keep an input power spectrum when options
 unrelated to it are set or read

Switching contributions, changing integration options, recompute=True and even
reading 'parameters' (so also to_file and reset_contributions) silently replaced
the spectrum given to set_power_spectrum_linear.
---
 python/coffe/coffe.pyx | 45 ++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 68381a9..a6fed2e 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -982,8 +982,16 @@ cdef class Coffe:
 
 
     def _free_except_parameters(self):
-        self._free_background()
         self._free_power_spectrum()
+        self._free_except_power_spectrum()
+
+
+    def _free_except_power_spectrum(self):
+        """
+        For options which do not change the power spectrum itself (it may be an
+        input of the user, in which case we cannot compute it again).
+        """
+        self._free_background()
         self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
@@ -1142,10 +1150,13 @@ cdef class Coffe:
             if key != 'parameters' and hasattr(getattr(self.__class__, key), '__set__')
         }
         writable = {}
+        # find out what is writable on another instance, since setting a value
+        # discards whatever depends on it
+        other = Coffe()
         for key in properties:
             try:
-                setattr(self, key, getattr(self, key))
-                writable[key] = getattr(self, key)
+                setattr(other, key, getattr(other, key))
+                writable[key] = properties[key]
             except AttributeError:
                 pass
         return writable
@@ -1651,7 +1662,7 @@ cdef class Coffe:
         )
 
         self._parameters.bessel_bins = int(value)
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     def integral(self, *, r : float, n : int, l : int):
@@ -2494,7 +2505,7 @@ cdef class Coffe:
         else:
             self._parameters.integration_1d_type = _invert_dict(_allowed_integration_1d_types)[value]
 
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2515,7 +2526,7 @@ cdef class Coffe:
             1,
         )
         self._parameters.integration_1d_prec = float(value)
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2552,7 +2563,7 @@ cdef class Coffe:
         _check_parameter('background_sampling', value, int, 0, self._max_size)
 
         self._parameters.background_bins = value
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2643,7 +2654,7 @@ cdef class Coffe:
     @has_d1.setter
     def has_d1(self, value : bool):
         self._parameters.correlation_contrib.d1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2657,7 +2668,7 @@ cdef class Coffe:
     @has_d2.setter
     def has_d2(self, value : bool):
         self._parameters.correlation_contrib.d2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2672,7 +2683,7 @@ cdef class Coffe:
     @has_g1.setter
     def has_g1(self, value : bool):
         self._parameters.correlation_contrib.g1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2687,7 +2698,7 @@ cdef class Coffe:
     @has_g2.setter
     def has_g2(self, value : bool):
         self._parameters.correlation_contrib.g2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2702,7 +2713,7 @@ cdef class Coffe:
     @has_g3.setter
     def has_g3(self, value : bool):
         self._parameters.correlation_contrib.g3 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2717,7 +2728,7 @@ cdef class Coffe:
     @has_g4.setter
     def has_g4(self, value : bool):
         self._parameters.correlation_contrib.g4 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2732,7 +2743,7 @@ cdef class Coffe:
     @has_g5.setter
     def has_g5(self, value : bool):
         self._parameters.correlation_contrib.g5 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     def reset_contributions(self):
@@ -3021,7 +3032,8 @@ cdef class Coffe:
             x_norm, y_norm, size, self._parameters.interp_method
         )
 
-        self._power_spectrum_flag = 1
+        # i.e. set by the user
+        self._power_spectrum_flag = 2
 
         free(x)
         free(y)
@@ -3583,6 +3595,9 @@ cdef class Coffe:
         )
 
     def _power_spectrum_init(self):
+        # an input power spectrum is not something we can compute again
+        if self._power_spectrum_flag == 2:
+            return
         ccoffe.parse_external_power_spectrum(&self._parameters)
         self._power_spectrum_flag = 1
 
-- 
2.43.0


From 4ceae2db0151d3a3f112d484724dc11e2fdc1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 09/37] fix: do not ignore small changes of the cosmological
 parameters

np.allclose(new, old) skips relative changes below 1e-5 (and absolute ones below
1e-8), e.g. when computing finite differences.
---
 python/coffe/coffe.pyx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index a6fed2e..4db29c4 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1187,7 +1187,7 @@ cdef class Coffe:
     @omega_cdm.setter
     def omega_cdm(self, value):
         _check_parameter('omega_cdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_cdm):
+        if value != self.omega_cdm:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
@@ -1215,7 +1215,7 @@ cdef class Coffe:
     @omega_m.setter
     def omega_m(self, value):
         _check_parameter('omega_m', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_m):
+        if value != self.omega_m:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_m = value / self._coeff
@@ -1236,7 +1236,7 @@ cdef class Coffe:
     @omega_baryon.setter
     def omega_baryon(self, value):
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_baryon):
+        if value != self.omega_baryon:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_cdm, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
@@ -1256,7 +1256,7 @@ cdef class Coffe:
     @omega_gamma.setter
     def omega_gamma(self, value):
         _check_parameter('omega_gamma', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_gamma):
+        if value != self.omega_gamma:
             self._check_omegas(value, self.omega_m)
             self._parameters.Omega0_gamma = value / self._coeff
             self._balance_content()
@@ -1283,7 +1283,7 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
-        if not np.allclose(value, self.h):
+        if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
             self._balance_content()
@@ -1305,7 +1305,7 @@ cdef class Coffe:
     @w0.setter
     def w0(self, value):
         _check_parameter('w0', value, (int, float), -100, 100)
-        if not np.allclose(value, self.w0):
+        if value != self.w0:
             self._parameters.w0 = value
             self._free_except_parameters()
 
@@ -1405,7 +1405,7 @@ cdef class Coffe:
     @wa.setter
     def wa(self, value):
         _check_parameter('wa', value, (int, float), -100, 100)
-        if not np.allclose(value, self.wa):
+        if value != self.wa:
             self._parameters.wa = value
             self._free_except_parameters()
 
@@ -1421,7 +1421,7 @@ cdef class Coffe:
     @n_s.setter
     def n_s(self, value):
         _check_parameter('n_s', value, (int, float), -100, 100)
-        if not np.allclose(value, self.n_s):
+        if value != self.n_s:
             self._parameters.n_s = value
             self._free_except_parameters()
 
@@ -1437,7 +1437,7 @@ cdef class Coffe:
     @sigma8.setter
     def sigma8(self, value):
         _check_parameter('sigma8', value, (int, float), -100, 100)
-        if not np.allclose(value, self.sigma8):
+        if value != self.sigma8:
             self._parameters.sigma8 = value
             self._free_power_spectrum()
             self._free_integrals()
@@ -1480,7 +1480,7 @@ cdef class Coffe:
     @T_cmb.setter
     def T_cmb(self, value):
         _check_parameter('T_cmb', value, (int, float), -100, 100)
-        if not np.allclose(value, self.T_cmb):
+        if value != self.T_cmb:
             self._parameters.T_cmb = value
             self._free_except_parameters()
 
@@ -1496,7 +1496,7 @@ cdef class Coffe:
     @N_ur.setter
     def N_ur(self, value):
         _check_parameter('N_ur', value, (int, float), -100, 100)
-        if not np.allclose(value, self.N_ur):
+        if value != self.N_ur:
             self._parameters.N_ur = value
             self._free_except_parameters()
 
@@ -1513,7 +1513,7 @@ cdef class Coffe:
     @m_ncdm.setter
     def m_ncdm(self, value):
         _check_parameter('m_ncdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.m_ncdm):
+        if value != self.m_ncdm:
             self._parameters.m_ncdm = value
             # see eq. (19) of https://arxiv.org/abs/1212.6154
             # note that little omega(nu) doesn't change if we change h, but big
@@ -1534,7 +1534,7 @@ cdef class Coffe:
     @YHe.setter
     def YHe(self, value):
         _check_parameter('YHe', value, (int, float), -100, 100)
-        if not np.allclose(value, self.YHe):
+        if value != self.YHe:
             self._parameters.YHe = value
             self._free_except_parameters()
 
@@ -1550,7 +1550,7 @@ cdef class Coffe:
     @N_ncdm.setter
     def N_ncdm(self, value):
         _check_parameter('N_ncdm', value, int, -100, 100)
-        if not np.allclose(value, self.N_ncdm):
+        if value != self.N_ncdm:
             self._parameters.N_ncdm = value
             self._free_except_parameters()
 
-- 
2.43.0


From 8c92d732f94f5ca5e704ca282081e1a6ab5b822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:17 +0000
Subject: [PATCH 10/37] fix: keep the matter and neutrino budget consistent
 when omega_cdm or h is set

With massive neutrinos, setting omega_cdm left omega_m without the neutrinos and
setting h kept the neutrino fraction of the previous h, so the result depended on
the order in which parameters were set.
---
 python/coffe/coffe.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4db29c4..8a113ca 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1191,7 +1191,7 @@ cdef class Coffe:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
-            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon
+            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon + self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
@@ -1286,6 +1286,9 @@ cdef class Coffe:
         if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
+            # the mass of the neutrinos is what is kept fixed
+            self._parameters.Omega0_nu = self.m_ncdm / 93.14 / self.h / self.h
+            self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From 2bdffaa2eb6dcf3cd023cace1772cec10c5fea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 11/37] fix: compute the 2PCF and the redshift-averaged
 multipoles as such

Everything was computed as if for multipoles: with the flat-sky approximation the
density-lensing and lensing-lensing terms were missing from the 2PCF and the
redshift-averaged multipoles, and the renormalization of the divergent integral
did not cover the redshifts of the latter (giving NaN).
---
 python/coffe/coffe.pyx | 60 ++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8a113ca..e5c1948 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -491,6 +491,8 @@ cdef class Coffe:
     cdef ccoffe.coffe_covariance_array_t _covariance_multipoles
     cdef ccoffe.coffe_average_covariance_array_t _average_covariance_multipoles
     cdef int _power_spectrum_flag
+    # whether the integrals were computed for the redshift-averaged multipoles
+    cdef int _integral_average
     # the max size allowed for setting the various *_sampling parameters
     cdef size_t _max_size
 
@@ -2120,6 +2122,8 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
+        # the range of the renormalization integral depends on the redshifts
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_average_multipoles()
@@ -3248,8 +3252,7 @@ cdef class Coffe:
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
-        if not self._integral.size or recompute:
-            self._integrals_init()
+        self._integrals_update(recompute=recompute)
 
         _check_parameter('z', z, (int, float), 0, 15)
         _check_parameter('r', r, (int, float), 0, 1500)
@@ -3258,6 +3261,9 @@ cdef class Coffe:
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
 
+        # the flat-sky terms are not the same for the 2PCF and the multipoles
+        self._parameters.output_type = ccoffe.CORRFUNC
+
         result = ccoffe.coffe_integrate(
             &self._parameters,
             &self._background,
@@ -3280,6 +3286,8 @@ cdef class Coffe:
             ccoffe.DOUBLE_INTEGRATED, ccoffe.CORRFUNC
         )
 
+        self._parameters.output_type = ccoffe.MULTIPOLES
+
         ccoffe.gsl_set_error_handler(default_handler)
 
         return result
@@ -3319,8 +3327,7 @@ cdef class Coffe:
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
-        if not self._integral.size or recompute:
-            self._integrals_init()
+        self._integrals_update(recompute=recompute)
 
         _check_parameter('z', z, (int, float), 0, 15)
         _check_parameter('r', r, (int, float), 0, 1500)
@@ -3381,8 +3388,7 @@ cdef class Coffe:
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
-        if not self._integral.size or recompute:
-            self._integrals_init()
+        self._integrals_update(recompute=recompute)
 
         if not self._multipoles.size or recompute:
             self._multipoles_init()
@@ -3422,8 +3428,7 @@ cdef class Coffe:
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
-        if not self._integral.size or recompute:
-            self._integrals_init()
+        self._integrals_update(average=True, recompute=recompute)
 
         if not self._average_multipoles.size or recompute:
             self._average_multipoles_init()
@@ -3465,8 +3470,7 @@ cdef class Coffe:
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
-        if not self._integral.size or recompute:
-            self._integrals_init()
+        self._integrals_update(recompute=recompute)
 
         if not self._corrfunc.size or recompute:
             self._corrfunc_init()
@@ -3604,24 +3608,50 @@ cdef class Coffe:
         ccoffe.parse_external_power_spectrum(&self._parameters)
         self._power_spectrum_flag = 1
 
-    def _integrals_init(self):
-        # the divergent integral is only needed by these contributions
-        self._parameters.divergent = int(
-            any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+    def _needs_divergent(self):
+        """
+        The divergent integral is only needed by these contributions.
+        """
+        return any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+
+    def _integrals_init(self, average : bool = False):
+        self._parameters.divergent = int(self._needs_divergent())
+
+        # the redshift-averaged multipoles only need something else if the
+        # divergent integral (which depends on the redshifts) is present
+        self._integral_average = int(average and self._needs_divergent())
+
+        self._parameters.output_type = (
+            ccoffe.AVERAGE_MULTIPOLES if self._integral_average else ccoffe.MULTIPOLES
         )
         ccoffe.coffe_integrals_init(
             &self._parameters,
             &self._background,
             &self._integral
         )
+        self._parameters.output_type = ccoffe.MULTIPOLES
+
+    def _integrals_update(self, average : bool = False, recompute : bool = False):
+        """
+        Computes the integrals unless the current ones can be used.
+        """
+        if (
+            recompute
+            or not self._integral.size
+            or bool(self._integral_average) != (average and self._needs_divergent())
+        ):
+            self._integrals_init(average)
 
     def _corrfunc_init(self):
+        # the flat-sky terms are not the same for the 2PCF and the multipoles
+        self._parameters.output_type = ccoffe.CORRFUNC
         ccoffe.coffe_corrfunc_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._corrfunc
         )
+        self._parameters.output_type = ccoffe.MULTIPOLES
 
     def _multipoles_init(self):
         ccoffe.coffe_multipoles_init(
@@ -3632,12 +3662,14 @@ cdef class Coffe:
         )
 
     def _average_multipoles_init(self):
+        self._parameters.output_type = ccoffe.AVERAGE_MULTIPOLES
         ccoffe.coffe_average_multipoles_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._average_multipoles
         )
+        self._parameters.output_type = ccoffe.MULTIPOLES
 
     def _covariance_init(self):
         ccoffe.coffe_covariance_init(
-- 
2.43.0


From a8bc26643755eeba417681922425f745fd767a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 12/37] fix: refuse bias tables and power spectra that cannot
 be interpolated

Too few, repeated or non-finite points, wavenumbers that are not positive, or
an input spectrum together with a nonlinear pk_type, ended the process.
---
 python/coffe/coffe.pyx | 56 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e5c1948..c660ba2 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -118,6 +118,44 @@ def _check_parameter_discrete(
         raise ValueError(f"The value `{name}={value}` is not one of `{allowed_values}")
 
 
+# the smallest number of points the interpolation methods can handle
+_minimum_sampling = {
+    ccoffe.COFFE_INTERP_LINEAR : 2,
+    ccoffe.COFFE_INTERP_POLYNOMIAL : 3,
+    ccoffe.COFFE_INTERP_CSPLINE : 3,
+    ccoffe.COFFE_INTERP_CSPLINE_PERIODIC : 2,
+    ccoffe.COFFE_INTERP_AKIMA : 5,
+    ccoffe.COFFE_INTERP_AKIMA_PERIODIC : 5,
+    ccoffe.COFFE_INTERP_STEFFEN : 3,
+}
+
+
+def _check_sampling(x_sampling, y_sampling, interp1d_type):
+    """
+    Checks that one can interpolate the points, and returns them as lists of floats.
+    """
+    try:
+        x_sampling = [float(_) for _ in x_sampling]
+        y_sampling = [float(_) for _ in y_sampling]
+    except TypeError as err:
+        raise TypeError('Cannot convert all values to floats') from err
+
+    if len(x_sampling) != len(y_sampling):
+        raise ValueError(
+            f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
+        )
+    if len(x_sampling) < _minimum_sampling[interp1d_type]:
+        raise ValueError(
+            f'At least {_minimum_sampling[interp1d_type]} points are required, got {len(x_sampling)}'
+        )
+    if not np.all(np.isfinite(x_sampling)) or not np.all(np.isfinite(y_sampling)):
+        raise ValueError('The input arrays must be finite')
+    if not np.all(np.diff(x_sampling) > 0):
+        raise ValueError('The input array must be sorted, without repeated values')
+
+    return x_sampling, y_sampling
+
+
 cdef int get_spline_size(
     ccoffe.coffe_interpolation *interp,
 ) except *:
@@ -166,12 +204,7 @@ cdef int set_spline(
     """
     Sets the value of the spline according to some x_sampling and y_sampling
     """
-    if not np.allclose(x_sampling, np.sort(x_sampling)):
-        raise ValueError('The input array must be sorted')
-    if len(x_sampling) != len(y_sampling):
-        raise ValueError(
-            f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
-        )
+    x_sampling, y_sampling = _check_sampling(x_sampling, y_sampling, interp1d_type)
 
     _check_parameter('xmin', x_sampling[0], (int, float), xmin=xmin)
     _check_parameter('xmax', x_sampling[-1], (int, float), xmax=xmax)
@@ -3003,11 +3036,14 @@ cdef class Coffe:
         None
         """
         # value checking
-        if not np.allclose(k, np.sort(k)):
-            raise ValueError('The input k array must be sorted')
+        k, pk = _check_sampling(k, pk, self._parameters.interp_method)
+
+        if k[0] <= 0:
+            raise ValueError('The wavenumbers must be positive')
 
-        if len(k) != len(pk):
-            raise ValueError('The input arrays have mismatching lengths')
+        # the other types need a power spectrum at several redshifts
+        if self._parameters.pk_type != ccoffe.COFFE_PK_LINEAR:
+            raise ValueError("The power spectrum can only be set if pk_type is 'linear'")
 
         # TODO error checking for z and rescaling if z > 0
 
-- 
2.43.0


From c81acfb3c80f9a48cf65a01fb28733261868a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 13/37] fix: return the redshifts at which a bias is sampled

Evenly spaced redshifts were returned (and written to file) instead.
---
 python/coffe/coffe.pyx | 61 ++++++++----------------------------------
 1 file changed, 11 insertions(+), 50 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index c660ba2..706c65c 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -163,17 +163,10 @@ cdef int get_spline_size(
 
 
 
-cdef double get_spline_min(
+cdef list get_spline_nodes(
     ccoffe.coffe_interpolation *interp,
-) except *:
-    return dereference(interp.spline).x[0]
-
-
-
-cdef double get_spline_max(
-    ccoffe.coffe_interpolation *interp,
-) except *:
-    return dereference(interp.spline).x[get_spline_size(interp) - 1]
+):
+    return [dereference(interp.spline).x[i] for i in range(get_spline_size(interp))]
 
 
 
@@ -880,11 +873,7 @@ cdef class Coffe:
 
     def galaxy_bias1_redshifts(self):
         """Return the redshifts of the galaxy bias 1 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias1)
-        xmin = get_spline_min(&self._parameters.galaxy_bias1)
-        xmax = get_spline_max(&self._parameters.galaxy_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias1))
 
     def galaxy_bias1_values(self):
         """Return the values of the galaxy bias 1 spline."""
@@ -893,11 +882,7 @@ cdef class Coffe:
 
     def galaxy_bias2_redshifts(self):
         """Return the redshifts of the galaxy bias 2 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias2)
-        xmin = get_spline_min(&self._parameters.galaxy_bias2)
-        xmax = get_spline_max(&self._parameters.galaxy_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias2))
 
     def galaxy_bias2_values(self):
         """Return the values of the galaxy bias 2 spline."""
@@ -905,11 +890,7 @@ cdef class Coffe:
 
     def galaxy_bias3_redshifts(self):
         """Return the redshifts of the galaxy bias 3 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias3)
-        xmin = get_spline_min(&self._parameters.galaxy_bias3)
-        xmax = get_spline_max(&self._parameters.galaxy_bias3)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias3))
 
     def galaxy_bias3_values(self):
         """Return the values of the galaxy bias 3 spline."""
@@ -917,11 +898,7 @@ cdef class Coffe:
 
     def galaxy_bias4_redshifts(self):
         """Return the redshifts of the galaxy bias 4 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias4)
-        xmin = get_spline_min(&self._parameters.galaxy_bias4)
-        xmax = get_spline_max(&self._parameters.galaxy_bias4)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias4))
 
     def galaxy_bias4_values(self):
         """Return the values of the galaxy bias 4 spline."""
@@ -930,11 +907,7 @@ cdef class Coffe:
 
     def magnification_bias1_redshifts(self):
         """Return the redshifts of the magnification bias 1 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias1)
-        xmin = get_spline_min(&self._parameters.magnification_bias1)
-        xmax = get_spline_max(&self._parameters.magnification_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.magnification_bias1))
 
     def magnification_bias1_values(self):
         """Return the values of the magnification bias 1 spline."""
@@ -943,11 +916,7 @@ cdef class Coffe:
 
     def magnification_bias2_redshifts(self):
         """Return the redshifts of the magnification bias 2 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias2)
-        xmin = get_spline_min(&self._parameters.magnification_bias2)
-        xmax = get_spline_max(&self._parameters.magnification_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.magnification_bias2))
 
     def magnification_bias2_values(self):
         """Return the values of the magnification bias 2 spline."""
@@ -956,11 +925,7 @@ cdef class Coffe:
 
     def evolution_bias1_redshifts(self):
         """Return the redshifts of the evolution bias 1 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias1)
-        xmin = get_spline_min(&self._parameters.evolution_bias1)
-        xmax = get_spline_max(&self._parameters.evolution_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.evolution_bias1))
 
     def evolution_bias1_values(self):
         """Return the values of the evolution bias 1 spline."""
@@ -969,11 +934,7 @@ cdef class Coffe:
 
     def evolution_bias2_redshifts(self):
         """Return the redshifts of the evolution bias 2 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias2)
-        xmin = get_spline_min(&self._parameters.evolution_bias2)
-        xmax = get_spline_max(&self._parameters.evolution_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.evolution_bias2))
 
     def evolution_bias2_values(self):
         """Return the values of the evolution bias 2 spline."""
-- 
2.43.0


From 6172e9911d8132eefb192b096b4f7690a940d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 14/37] fix: use the redshift given to
 set_power_spectrum_linear

The argument was ignored.
---
 python/coffe/coffe.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 706c65c..ffae7ad 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3006,7 +3006,14 @@ cdef class Coffe:
         if self._parameters.pk_type != ccoffe.COFFE_PK_LINEAR:
             raise ValueError("The power spectrum can only be set if pk_type is 'linear'")
 
-        # TODO error checking for z and rescaling if z > 0
+        _check_parameter('z', z, (int, float), 0, 15)
+
+        # the input is stored at z = 0
+        if z > 0:
+            if not self._background.flag:
+                self._background_init()
+            growth = ccoffe.coffe_interp_spline(&self._background.D1, z)
+            pk = [_ / growth**2 for _ in pk]
 
         self._free_power_spectrum()
         self._parameters.k_min = k[0]
-- 
2.43.0


From 8c63e1a4c6ee28e8936d5c21150d5e18d5ee8b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 15/37] fix: honour every option of a configuration file, in
 any order

has_g2, has_only_cross_correlations, integration_1d_prec, covariance_populations,
start_large_k_at_tau_h_over_tau_k, omega_cdm, verbose, and empty lists were not read;
the result depended on the (random) order of sets; a legacy list of contributions
did not turn the others off; a constant legacy bias was ignored without a file name;
omega_baryon could be refused because of a total which it does not change.
---
 python/coffe/coffe.pyx | 130 +++++++++++++++++------------------------
 1 file changed, 55 insertions(+), 75 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ffae7ad..b7af664 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -65,13 +65,13 @@ class CoffeConfigParser(ConfigParser):
         """
         Converts the value of the option to a list of floats
         """
-        return [float(_) for _ in self.get(section, option).strip("[]").split(",")]
+        return [float(_) for _ in self.get(section, option).strip("[]").split(",") if _.strip()]
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        return [int(_) for _ in self.get(section, option).strip("[]").split(",")]
+        return [int(_) for _ in self.get(section, option).strip("[]").split(",") if _.strip()]
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
@@ -586,7 +586,7 @@ cdef class Coffe:
         contents = f"[{section}]\n" + "\n".join(
             [_.strip(";") for _ in Path(filename).read_text().split("\n")]
         )
-        config = CoffeConfigParser()
+        config = CoffeConfigParser(interpolation=None)
         config.read_string(contents)
         config = config[section]
 
@@ -648,7 +648,7 @@ cdef class Coffe:
         if "correlation_contributions" in config:
             warnings.warn(
                 f"Option 'correlation_contributions' is no longer supported; "
-                f"it may be replaced by one of {['has_' + _ for _ in ['density', 'rsd', 'lensing', 'd1', 'd2', 'g1', 'g2', 'g3', 'g4', 'g4']]} (if found).",
+                f"it may be replaced by one of {['has_' + _ for _ in ['density', 'rsd', 'lensing', 'd1', 'd2', 'g1', 'g2', 'g3', 'g4', 'g5']]} (if found).",
                 DeprecationWarning,
             )
             contributions = config.getstr_array("correlation_contributions")
@@ -665,8 +665,7 @@ cdef class Coffe:
                 'g5' : 'has_g5',
             }
             for key, value in mapping.items():
-                if key in contributions:
-                    setattr(cosmo, value, True)
+                setattr(cosmo, value, key in contributions)
 
         options_float_array = {
             "sep",
@@ -684,50 +683,59 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
 
-        options_int_array = ["l"]
+        options_int_array = ["l", "covariance_populations"]
         for option in options_int_array:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
 
-        options_float = {
-            "omega_m",
-            "omega_baryon",
-            "omega_gamma",
+        # the order matters: the neutrinos need h, and none of the steps may
+        # have more matter and radiation than either the previous or the final values
+        options_omegas = ["omega_m", "omega_baryon"]
+        if "omega_cdm" in config and not "omega_m" in config:
+            options_omegas = ["omega_baryon", "omega_cdm"]
+        if "omega_gamma" in config and config.getfloat("omega_gamma") > cosmo.omega_gamma:
+            options_omegas = options_omegas + ["omega_gamma"]
+        else:
+            options_omegas = ["omega_gamma"] + options_omegas
+
+        options_float = [
+            "h",
+            "m_ncdm",
+            *options_omegas,
             "w0",
             "wa",
-            "h",
             "sigma8",
             "n_s",
             "T_cmb",
             "A_s",
             "k_per_decade_for_bao",
             "k_per_decade_for_pk",
-            "start_large_k_at_tau_c_over_tau_h",
-            "l_max_g",
-            "l_max_ur",
+            "start_large_k_at_tau_h_over_tau_k",
             "tol_perturb_integration",
             "radiation_streaming_trigger_tau_over_tau_k",
             "ur_fluid_trigger_tau_over_tau_k",
             "N_ur",
-            "m_ncdm",
             "k_min",
             "k_max",
             "YHe",
-        }
+            "integration_1d_prec",
+        ]
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
 
-        options_int = {
+        options_int = [
             "has_density",
             "has_lensing",
             "has_rsd",
             "has_d1",
             "has_d2",
             "has_g1",
+            "has_g2",
             "has_g3",
             "has_g4",
             "has_g5",
+            "has_only_cross_correlations",
             "integration_sampling",
             "background_sampling",
             "has_binned_covariance",
@@ -740,7 +748,10 @@ cdef class Coffe:
             "covariance_integration_sampling",
             "integrals_fftlog_sampling",
             "N_ncdm",
-        }
+            "l_max_g",
+            "l_max_ur",
+            "verbose",
+        ]
         for option in options_int:
             if option in config:
                 setattr(cosmo, option, config.getint(option))
@@ -759,62 +770,30 @@ cdef class Coffe:
                     value = config.get(option)
                 setattr(cosmo, option, value)
 
-        # the bias options are a bit special
-        biases = ["galaxy", "magnification", "evolution"]
-        populations = [1, 2]
+        # the bias options are a bit special, and the galaxy bias can have 4 populations
+        biases = [
+            f"{bias}_bias{population}"
+            for bias, populations in {
+                "galaxy" : [1, 2, 3, 4],
+                "magnification" : [1, 2],
+                "evolution" : [1, 2],
+            }.items()
+            for population in populations
+        ]
         for bias in biases:
-            for population in populations:
-                if (
-                    f"read_{bias}_bias{population}" in config
-                    and config.getint(f"read_{bias}_bias{population}") == 1
-                ):
-                    getattr(cosmo, f"set_{bias}_bias{population}")(
-                        *np.transpose(
-                            np.loadtxt(
-                                config.get(f"input_{bias}_bias{population}").strip('" ')
-                            )
-                        )
-                    )
-                elif f"input_{bias}_bias{population}" in config:
-                    getattr(cosmo, f"set_{bias}_bias{population}")(
-                        np.linspace(0, 10, 100),
-                        [config.getfloat(f"{bias}_bias{population}")] * 100,
-                    )
-                elif (
-                    f"{bias}_bias{population}_redshifts" in config
-                    and f"{bias}_bias{population}_values" in config
-                ):
-                    getattr(cosmo, f"set_{bias}_bias{population}")(
-                        config.getfloat_array(f"{bias}_bias{population}_redshifts"),
-                        config.getfloat_array(f"{bias}_bias{population}_values"),
-                    )
-
-        # the galaxy bias can have 4 populations
-        for population in [3, 4]:
-            if (
-                f"read_galaxy_bias{population}" in config
-                and config.getint(f"read_galaxy_bias{population}") == 1
-            ):
-                getattr(cosmo, f"set_galaxy_bias{population}")(
-                    *np.transpose(
-                        np.loadtxt(
-                            config.get(f"input_galaxy_bias{population}").strip('" ')
-                        )
-                    )
-                )
-            elif f"input_galaxy_bias{population}" in config:
-                getattr(cosmo, f"set_galaxy_bias{population}")(
-                    np.linspace(0, 10, 100),
-                    [config.getfloat(f"galaxy_bias{population}")] * 100,
-                )
-            elif (
-                f"galaxy_bias{population}_redshifts" in config
-                and f"galaxy_bias{population}_values" in config
-            ):
-                getattr(cosmo, f"set_galaxy_bias{population}")(
-                    config.getfloat_array(f"galaxy_bias{population}_redshifts"),
-                    config.getfloat_array(f"galaxy_bias{population}_values"),
+            if f"{bias}_redshifts" in config and f"{bias}_values" in config:
+                x_sampling = config.getfloat_array(f"{bias}_redshifts")
+                y_sampling = config.getfloat_array(f"{bias}_values")
+            elif config.getint(f"read_{bias}", 0) == 1:
+                x_sampling, y_sampling = np.loadtxt(
+                    config.get(f"input_{bias}").strip('" '), unpack=True
                 )
+            elif bias in config:
+                x_sampling = np.linspace(0, 10, 100)
+                y_sampling = [config.getfloat(bias)] * 100
+            else:
+                continue
+            getattr(cosmo, f"set_{bias}")(x_sampling, y_sampling)
 
         return cosmo
 
@@ -832,7 +811,7 @@ cdef class Coffe:
                 if isinstance(value, bool):
                     value = int(value)
                 if isinstance(value, (list, tuple, np.ndarray)):
-                    value = list(value)
+                    value = np.asarray(value).tolist()
                 f.write(f"{key} = {value}\n")
 
             # the various biases are handled separately
@@ -1234,7 +1213,8 @@ cdef class Coffe:
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
         if value != self.omega_baryon:
             # we set the value, rebalance the Omega budget, and free memory
-            self._check_omegas(value, self.omega_cdm, self.omega_gamma)
+            # the total matter does not change
+            self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
             self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
-- 
2.43.0


From c0ca7f6c7993f91b6c7f904bd69874bd938ef87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 16/37] fix: refuse NaN, h = 0, and precision parameters of the
 wrong type

NaN passed every range check, a refused h = 0 was stored before the exception,
and l_max_g, l_max_ur were silently truncated.
---
 python/coffe/coffe.pyx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b7af664..4412bc6 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -98,12 +98,13 @@ def _check_parameter(
             f'Expected {kind}, got {type(value)}'
         )
 
-    if xmin is not None and value < xmin:
+    # N.B. the comparison is false for NaN
+    if xmin is not None and not value >= xmin:
         raise ValueError(
             f'Value {value} smaller than xmin ({xmin})'
         )
 
-    if xmax is not None and value > xmax:
+    if xmax is not None and not value <= xmax:
         raise ValueError(
             f'Value {value} larger than xmax ({xmax})'
         )
@@ -1259,6 +1260,8 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
+        if value == 0:
+            raise ValueError('h must be positive')
         if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
@@ -1295,6 +1298,7 @@ cdef class Coffe:
 
     @k_per_decade_for_bao.setter
     def k_per_decade_for_bao(self, value):
+        _check_parameter('k_per_decade_for_bao', value, (int, float), 0)
         self._parameters.class_precision.k_per_decade_for_bao = value
         self._free_except_parameters()
 
@@ -1305,6 +1309,7 @@ cdef class Coffe:
 
     @k_per_decade_for_pk.setter
     def k_per_decade_for_pk(self, value):
+        _check_parameter('k_per_decade_for_pk', value, (int, float), 0)
         self._parameters.class_precision.k_per_decade_for_pk = value
         self._free_except_parameters()
 
@@ -1315,6 +1320,7 @@ cdef class Coffe:
 
     @start_large_k_at_tau_h_over_tau_k.setter
     def start_large_k_at_tau_h_over_tau_k(self, value):
+        _check_parameter('start_large_k_at_tau_h_over_tau_k', value, (int, float), 0)
         self._parameters.class_precision.start_large_k_at_tau_h_over_tau_k = value
         self._free_except_parameters()
 
@@ -1325,6 +1331,7 @@ cdef class Coffe:
 
     @l_max_g.setter
     def l_max_g(self, value):
+        _check_parameter('l_max_g', value, int, 0, 2147483647)
         self._parameters.class_precision.l_max_g = value
         self._free_except_parameters()
 
@@ -1335,6 +1342,7 @@ cdef class Coffe:
 
     @l_max_ur.setter
     def l_max_ur(self, value):
+        _check_parameter('l_max_ur', value, int, 0, 2147483647)
         self._parameters.class_precision.l_max_ur = value
         self._free_except_parameters()
 
@@ -1345,6 +1353,7 @@ cdef class Coffe:
 
     @tol_perturb_integration.setter
     def tol_perturb_integration(self, value):
+        _check_parameter('tol_perturb_integration', value, (int, float), 0)
         self._parameters.class_precision.tol_perturb_integration = value
         self._free_except_parameters()
 
@@ -1355,6 +1364,7 @@ cdef class Coffe:
 
     @radiation_streaming_trigger_tau_over_tau_k.setter
     def radiation_streaming_trigger_tau_over_tau_k(self, value):
+        _check_parameter('radiation_streaming_trigger_tau_over_tau_k', value, (int, float), 0)
         self._parameters.class_precision.radiation_streaming_trigger_tau_over_tau_k = value
         self._free_except_parameters()
 
@@ -1365,6 +1375,7 @@ cdef class Coffe:
 
     @ur_fluid_trigger_tau_over_tau_k.setter
     def ur_fluid_trigger_tau_over_tau_k(self, value):
+        _check_parameter('ur_fluid_trigger_tau_over_tau_k', value, (int, float), 0)
         self._parameters.class_precision.ur_fluid_trigger_tau_over_tau_k = value
         self._free_except_parameters()
 
-- 
2.43.0


From 0c5c352641b2678b10f283c36521323f15c4008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 17/37] fix: include shot noise between repeated separations in
 the covariance

---
 src/covariance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 467f176..a2d4e4f 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -940,8 +940,8 @@ int coffe_covariance_init(
                     /* Kronecker delta (l1, l2) */
                     const int deltal1l2 = coffe_kronecker_delta(l1, l2);
 
-                    /* Kronecker delta of the separations */
-                    const int deltaij = coffe_kronecker_delta(m, n);
+                    /* Kronecker delta of the separations (which may repeat) */
+                    const int deltaij = (separations[m] == separations[n]);
 
                     const double cov_poisson = (
                         par->covariance_poisson ?
-- 
2.43.0


From e58273c7531fd905126a3e4770ce612cb15ac299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 18/37] fix: use the redshift bins in the covariance of
 redshift-averaged multipoles with a nonlinear spectrum

---
 src/covariance.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index a2d4e4f..9bc1669 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -522,9 +522,12 @@ int coffe_covariance_init(
         double *separations = (double *)coffe_malloc(sizeof(double) * par->sep_len);
         for (size_t i = 0; i < par->sep_len; ++i)
             separations[i] = par->sep[i];
+        const size_t redshifts_len =
+            /* trigraph */
+            par->output_type == COVARIANCE_MULTIPOLES ? par->z_mean_len : par->zmin_len;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? par->z_mean_len : 1;
+            par->pk_type ? redshifts_len : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -567,7 +570,11 @@ int coffe_covariance_init(
                     pk_type,
 
                     /* trigraph */
-                    par->pk_type ? par->z_mean[index_redshift] : 0,
+                    par->output_type == COVARIANCE_MULTIPOLES
+                    ?
+                    par->z_mean[index_redshift]
+                    :
+                    (par->zmin[index_redshift] + par->zmax[index_redshift]) / 2.,
                     ((struct nonlinear *)par->class_struct.nonlinear)->index_pk_total,
                     pk,
                     NULL
-- 
2.43.0


From aac34f6e3610f577abbc754c332f532dadf05138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 19/37] fix: use the pixelsize of each redshift in the binned
 covariance

---
 src/covariance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 9bc1669..6412538 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -525,9 +525,11 @@ int coffe_covariance_init(
         const size_t redshifts_len =
             /* trigraph */
             par->output_type == COVARIANCE_MULTIPOLES ? par->z_mean_len : par->zmin_len;
+        /* the pixelsize (just like the nonlinear P(k)) depends on the redshift */
+        const int one_per_redshift = par->pk_type || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? redshifts_len : 1;
+            one_per_redshift ? redshifts_len : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -1003,7 +1005,7 @@ int coffe_covariance_init(
                        *(par->pk_type ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
-                            par->pk_type
+                            one_per_redshift
                             ?
                             integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
@@ -1020,7 +1022,7 @@ int coffe_covariance_init(
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-                            par->pk_type
+                            one_per_redshift
                             ?
                             integral_pk2[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
-- 
2.43.0


From 4607d048bedda573ccb461d7931a984034e32a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 20/37] fix: use the biases of the right population in the
 lensing x Doppler term

---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 464dcaa..f6fbd42 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -2559,8 +2559,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2643,7 +2643,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2697,8 +2697,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2773,7 +2773,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2860,8 +2860,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2906,7 +2906,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2950,8 +2950,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2987,7 +2987,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
-- 
2.43.0


From a96800703eb988ea54f019f5974fa1c05c2c352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 21/37] fix: include the amplitude of the Doppler term in its
 correlations with d2 and g1 to g5

---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index f6fbd42..738cfdf 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -1222,9 +1222,9 @@ double functions_nonintegrated(
         par->correlation_contrib.d2
     ){
         result += -(
-                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
+                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*G1*(chi2*costheta - chi1)
                 +
-                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
+                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*G2*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep);
     }
@@ -1234,9 +1234,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g1
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(1 + G2)*G1*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(1 + G1)*G2*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1246,9 +1246,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g2
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(5*s2 - 2)*G1*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(5*s1 - 2)*G2*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1258,9 +1258,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g3
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(f2 - 1.)*G1*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(f1 - 1.)*G2*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -3225,11 +3225,11 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
@@ -3242,13 +3242,13 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
+                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)
                *coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
+                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)
                *coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
-- 
2.43.0


From ad081880ebd72762b6a279f791d88c2c6a38b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 22/37] fix: divide by the scale factor in the density x g5
 term

---
 src/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 738cfdf..7cc094d 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3151,13 +3151,13 @@ double functions_single_integrated(
                 chi2*b1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
-               *coffe_interp_spline(&bg->D1, z2)*coffe_interp_spline(&bg->a, z2)
+               *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
                 chi1*b2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
-               *coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->a, z1)
+               *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
     }
-- 
2.43.0


From 6e55e1b3d58b24dc5ae279ee06dc4ced9eb5c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 23/37] fix: divide by the scale factor of the source in the
 lensing x g1, g2 and g3 terms

---
 src/functions.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 7cc094d..9773b30 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3038,7 +3038,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3048,7 +3048,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3068,7 +3068,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3078,7 +3078,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3098,7 +3098,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3108,7 +3108,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
-- 
2.43.0


From 1ae2dd1d18c71b665e292690a4a4cac2e9bff3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 24/37] fix: use the growth rate in the lensing x g5 term

---
 src/functions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 9773b30..0acbe3a 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3927,7 +3927,7 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3936,7 +3936,7 @@ double functions_double_integrated(
                     )
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3950,13 +3950,13 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
-- 
2.43.0


From d36e4b9abf0566e6337feb52b9c231dcf5971888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 25/37] fix: use the sign of odd multipoles in the cosmic and
 mixed covariance

---
 src/covariance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 6412538..8762b53 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -890,7 +890,7 @@ int coffe_covariance_init(
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l2)
                             +
-                            coffe_sign(cnt_l2)
+                            coffe_sign(l2)
                            *covariance_coefficient_pair(par->covariance_pop1,
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l1)
@@ -924,7 +924,8 @@ int coffe_covariance_init(
                             )
                            /par->density1[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop1,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop1,
                                 par->covariance_pop4, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
@@ -933,7 +934,8 @@ int coffe_covariance_init(
                             )
                            /par->density2[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop2,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop2,
                                 par->covariance_pop3, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
-- 
2.43.0


From cfacfa0cfcc360f9aed859008af592141ec5aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:41 +0000
Subject: [PATCH 26/37] fix: include massive neutrinos in the Hubble rate and
 the distances

---
 src/background.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/background.c b/src/background.c
index a79431a..d84bb27 100644
--- a/src/background.c
+++ b/src/background.c
@@ -152,6 +152,8 @@ struct integration_params
 
     double Omega0_baryon; /* omega parameter for baryons */
 
+    double Omega0_nu; /* omega parameter for massive neutrinos */
+
     double Omega0_gamma; /* omega parameter for photons */
 
     double Omega0_de; /* present omega parameter for dark energy-like component */
@@ -287,7 +289,7 @@ static double integrand_comoving(
 {
     struct integration_params *par = (struct integration_params *) p;
     double integrand = 1./pow(
-        (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+        (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)*pow(1 + z, 3)
        +par->Omega0_gamma*pow(1 + z, 4)
        +par->Omega0_de*coffe_interp_spline(&par->wint, z),
         1./2);
@@ -331,6 +333,7 @@ int coffe_background_init(
     struct integration_params ipar;
     ipar.Omega0_cdm = par->Omega0_cdm;
     ipar.Omega0_baryon = par->Omega0_baryon;
+    ipar.Omega0_nu = par->Omega0_nu;
     ipar.Omega0_gamma = par->Omega0_gamma;
     ipar.Omega0_de = par->Omega0_de;
     {
@@ -461,7 +464,7 @@ int coffe_background_init(
         (temp_bg->z)[i] = z;
         (temp_bg->a)[i] = 1./(1. + z);
         (temp_bg->Hz)[i] = sqrt(
-             (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+             (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)*pow(1 + z, 3)
             +par->Omega0_gamma*pow(1 + z, 4)
             +par->Omega0_de*wint) * par->h * COFFE_H0; // in units 1 / Mpc
         (temp_bg->conformal_Hz)[i] = (temp_bg->a)[i]*(temp_bg->Hz)[i]; // in units 1 / Mpc
@@ -470,7 +473,7 @@ int coffe_background_init(
            *(
                 2 * (1 + z) * par->Omega0_gamma
                 +
-                (par->Omega0_cdm + par->Omega0_baryon)
+                (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)
             )
             +
             (1 + 3 * w) * par->Omega0_de * wint
-- 
2.43.0


From 42e6ab500082458dfb6c7e0b57a291dc893263a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 27/37] fix: raise an exception when a computation fails,
 instead of ending the process

---
 python/coffe/coffe.pxd |  9 +++++++
 python/coffe/coffe.pyx | 54 +++++++++++++++++++++++++++++++-----------
 src/errors.c           | 33 ++++++++++++++++++++++++++
 src/errors.h           | 21 ++++++++++++++++
 src/functions.c        | 16 ++++++++-----
 src/twofast.c          | 31 ++++++++++++++----------
 6 files changed, 131 insertions(+), 33 deletions(-)

diff --git a/python/coffe/coffe.pxd b/python/coffe/coffe.pxd
index f8dbf6f..1c0fde4 100644
--- a/python/coffe/coffe.pxd
+++ b/python/coffe/coffe.pxd
@@ -35,6 +35,15 @@ cdef extern from "<gsl/gsl_spline2d.h>":
 DEF COFFE_MAX_STRLEN = 256
 
 
+cdef extern from "errors.h":
+
+    void coffe_exit_on_failure(int)
+
+    int coffe_failed()
+
+    void coffe_failed_reset()
+
+
 cdef extern from "common.h":
 
     cdef enum coffe_pk_type:
diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4412bc6..bf287ba 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -29,6 +29,10 @@ from typing import Any, Callable, List, Tuple, Union, Optional, Sequence
 
 import numpy as np
 
+# an error should not end the whole process
+ccoffe.coffe_exit_on_failure(0)
+ccoffe.gsl_set_error_handler_off()
+
 
 class LegacyOption:
     """
@@ -157,6 +161,19 @@ def _check_sampling(x_sampling, y_sampling, interp1d_type):
     return x_sampling, y_sampling
 
 
+def _check_failure(discard : Callable = None):
+    """
+    Raises an exception if the previous computation failed, after discarding its result.
+    """
+    if ccoffe.coffe_failed():
+        ccoffe.coffe_failed_reset()
+        if discard is not None:
+            discard()
+        raise ValueError(
+            'The computation failed, the current parameters (or coordinates) are out of range'
+        )
+
+
 cdef int get_spline_size(
     ccoffe.coffe_interpolation *interp,
 ) except *:
@@ -957,6 +974,11 @@ cdef class Coffe:
         ccoffe.coffe_average_covariance_free(&self._average_covariance_multipoles)
 
 
+    def _free_all_covariances(self):
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
+
+
     def _free_except_parameters(self):
         self._free_power_spectrum()
         self._free_except_power_spectrum()
@@ -3253,9 +3275,6 @@ cdef class Coffe:
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('mu', mu, (int, float), -1, 1)
 
-        cdef ccoffe.gsl_error_handler_t *default_handler = \
-            ccoffe.gsl_set_error_handler_off()
-
         # the flat-sky terms are not the same for the 2PCF and the multipoles
         self._parameters.output_type = ccoffe.CORRFUNC
 
@@ -3283,7 +3302,7 @@ cdef class Coffe:
 
         self._parameters.output_type = ccoffe.MULTIPOLES
 
-        ccoffe.gsl_set_error_handler(default_handler)
+        _check_failure()
 
         return result
 
@@ -3328,9 +3347,6 @@ cdef class Coffe:
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('l', l, (int,), 0, 10)
 
-        cdef ccoffe.gsl_error_handler_t *default_handler = \
-            ccoffe.gsl_set_error_handler_off()
-
         result = ccoffe.coffe_integrate(
             &self._parameters,
             &self._background,
@@ -3353,7 +3369,7 @@ cdef class Coffe:
             ccoffe.DOUBLE_INTEGRATED, ccoffe.MULTIPOLES
         )
 
-        ccoffe.gsl_set_error_handler(default_handler)
+        _check_failure()
 
         return result
 
@@ -3519,9 +3535,11 @@ cdef class Coffe:
 
         temp = self._parameters.output_type
         self._parameters.output_type = ccoffe.COVARIANCE_MULTIPOLES
-        if not self._covariance_multipoles.size or recompute:
-            self._covariance_init()
-        self._parameters.output_type = temp
+        try:
+            if not self._covariance_multipoles.size or recompute:
+                self._covariance_init()
+        finally:
+            self._parameters.output_type = temp
 
         return np.array([
             Covariance(
@@ -3573,9 +3591,11 @@ cdef class Coffe:
 
         temp = self._parameters.output_type
         self._parameters.output_type = ccoffe.COVARIANCE_AVERAGE_MULTIPOLES
-        if not self._average_covariance_multipoles.size or recompute:
-            self._covariance_init()
-        self._parameters.output_type = temp
+        try:
+            if not self._average_covariance_multipoles.size or recompute:
+                self._covariance_init()
+        finally:
+            self._parameters.output_type = temp
 
         return np.array([
             AverageCovariance(
@@ -3595,6 +3615,7 @@ cdef class Coffe:
             &self._parameters,
             &self._background
         )
+        _check_failure(self._free_background)
 
     def _power_spectrum_init(self):
         # an input power spectrum is not something we can compute again
@@ -3625,6 +3646,7 @@ cdef class Coffe:
             &self._integral
         )
         self._parameters.output_type = ccoffe.MULTIPOLES
+        _check_failure(self._free_integrals)
 
     def _integrals_update(self, average : bool = False, recompute : bool = False):
         """
@@ -3647,6 +3669,7 @@ cdef class Coffe:
             &self._corrfunc
         )
         self._parameters.output_type = ccoffe.MULTIPOLES
+        _check_failure(self._free_corrfunc)
 
     def _multipoles_init(self):
         ccoffe.coffe_multipoles_init(
@@ -3655,6 +3678,7 @@ cdef class Coffe:
             &self._integral,
             &self._multipoles
         )
+        _check_failure(self._free_multipoles)
 
     def _average_multipoles_init(self):
         self._parameters.output_type = ccoffe.AVERAGE_MULTIPOLES
@@ -3665,6 +3689,7 @@ cdef class Coffe:
             &self._average_multipoles
         )
         self._parameters.output_type = ccoffe.MULTIPOLES
+        _check_failure(self._free_average_multipoles)
 
     def _covariance_init(self):
         ccoffe.coffe_covariance_init(
@@ -3673,3 +3698,4 @@ cdef class Coffe:
             &self._covariance_multipoles,
             &self._average_covariance_multipoles
         )
+        _check_failure(self._free_all_covariances)
diff --git a/src/errors.c b/src/errors.c
index fcd555b..4275ddb 100644
--- a/src/errors.c
+++ b/src/errors.c
@@ -17,6 +17,7 @@
 */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include "errors.h"
 
 const char *error_msg(int code)
@@ -44,3 +45,35 @@ void print_error_verbose(int code, const char *message)
         message
     );
 }
+
+static int exit_on_failure = 1;
+
+static int failed = 0;
+
+void coffe_exit_on_failure(int value)
+{
+    exit_on_failure = value;
+}
+
+void coffe_fail(void)
+{
+    if (exit_on_failure) exit(EXIT_FAILURE);
+
+    #pragma omp atomic write
+    failed = 1;
+}
+
+int coffe_failed(void)
+{
+    int result;
+
+    #pragma omp atomic read
+    result = failed;
+
+    return result;
+}
+
+void coffe_failed_reset(void)
+{
+    failed = 0;
+}
diff --git a/src/errors.h b/src/errors.h
index f162f11..6b8be21 100644
--- a/src/errors.h
+++ b/src/errors.h
@@ -48,4 +48,25 @@ void print_error(int code);
 
 void print_error_verbose(int code, const char *message);
 
+/**
+    whether a failed computation ends the program (the default), or is only
+    recorded, for the caller to check with `coffe_failed`
+**/
+void coffe_exit_on_failure(int value);
+
+/**
+    ends the program, or records the failure
+**/
+void coffe_fail(void);
+
+/**
+    returns whether there was a failure
+**/
+int coffe_failed(void);
+
+/**
+    forgets about the failures
+**/
+void coffe_failed_reset(void);
+
 #endif
diff --git a/src/functions.c b/src/functions.c
index 0acbe3a..f2c9379 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -22,6 +22,7 @@
 #include <gsl/gsl_sf.h>
 
 #include "common.h"
+#include "errors.h"
 #include "background.h"
 #include "integrals.h"
 #include "functions.h"
@@ -1468,7 +1469,7 @@ double functions_nonintegrated(
             }
     }
     else{
-        fprintf(stderr,
+        if (!coffe_failed()) fprintf(stderr,
             "ERROR: in %s:%d in function %s, values:\n"
             "mu = %e\n"
             "z_mean = %e\n"
@@ -1479,7 +1480,8 @@ double functions_nonintegrated(
             "chi1 = %e\n"
             "chi2 = %e\n",
             __FILE__, __LINE__, __func__, mu, z_mean, chi_mean, sep, z1, z2, chi1, chi2);
-        exit(EXIT_FAILURE);
+        coffe_fail();
+        return GSL_NAN;
     }
 }
 
@@ -3426,7 +3428,7 @@ double functions_single_integrated(
         return result;
     }
     else{
-        fprintf(stderr,
+        if (!coffe_failed()) fprintf(stderr,
             "ERROR: in %s:%d in function %s, values:\n"
             "mu = %e\n"
             "z_mean = %e\n"
@@ -3452,7 +3454,8 @@ double functions_single_integrated(
             r21, r22, z1_const, z2_const,
             s1, s2, b1, b2, x
         );
-        exit(EXIT_FAILURE);
+        coffe_fail();
+        return GSL_NAN;
     }
 }
 
@@ -3990,7 +3993,7 @@ double functions_double_integrated(
         result * pow(COFFE_H0 * par->h, 4);
     }
     else{
-        fprintf(stderr,
+        if (!coffe_failed()) fprintf(stderr,
             "ERROR: in %s:%d in function %s, values:\n"
             "x1 = %e, x2 = %e\n"
             "r2 = %e\n"
@@ -4011,7 +4014,8 @@ double functions_double_integrated(
             mu, z_mean, chi_mean, sep,
             z1, z2, chi1, chi2, lambda1, lambda2, ren
         );
-        exit(EXIT_FAILURE);
+        coffe_fail();
+        return GSL_NAN;
     }
 }
 
diff --git a/src/twofast.c b/src/twofast.c
index f0a11ef..5d2ae32 100644
--- a/src/twofast.c
+++ b/src/twofast.c
@@ -36,6 +36,7 @@ typedef double complex complex_t;
 #include <gsl/gsl_spline.h>
 #include <gsl/gsl_math.h>
 
+#include "errors.h"
 #include "twofast.h"
 
 /* for C99 compatibility */
@@ -79,13 +80,14 @@ static double twofast_window(
         return result;
     }
     else{
-        fprintf(stderr, "ERROR: window function received undefined limits!\n");
-        fprintf(stderr,
+        if (!coffe_failed()) fprintf(stderr,
+            "ERROR: window function received undefined limits!\n"
             "input values are: "
             "xmin = %e, xleft = %e "
             "xright = %e, xmax = %e\n",
             xmin, xleft, xright, xmax);
-        exit(EXIT_FAILURE);
+        coffe_fail();
+        return 0.0;
     }
 }
 
@@ -120,11 +122,11 @@ static complex_t twofast_lgamma(complex_t z)
         complex_t t = z + (double)gamma_coeff_size - 0.5;
         result = log(2 * M_PI) / 2. + (z + 0.5) * clog(t) - t + clog(x);
         if (!(gsl_finite(creal(result)) && gsl_finite(cimag(result)))){
-            fprintf(
+            if (!coffe_failed()) fprintf(
                 stderr,
                 "ERROR: file %s, function %s\n", __FILE__, __func__
             );
-            fprintf(
+            if (!coffe_failed()) fprintf(
                 stderr,
                 "Values: "
                 "z = %.3e + %.3eI, "
@@ -136,7 +138,7 @@ static complex_t twofast_lgamma(complex_t z)
                 creal(t), cimag(t),
                 creal(result), cimag(result)
             );
-            exit(EXIT_FAILURE);
+            coffe_fail();
         }
     }
 
@@ -169,11 +171,11 @@ static complex_t twofast_gamma(complex_t z)
         complex_t t = z + (double)gamma_coeff_size - 0.5;
         result = csqrt(2 * M_PI) * cpow(t, z + 0.5) / cexp(t) * x;
         if (!(gsl_finite(creal(result)) && gsl_finite(cimag(result)))){
-            fprintf(
+            if (!coffe_failed()) fprintf(
                 stderr,
                 "ERROR: file %s, function %s\n", __FILE__, __func__
             );
-            fprintf(
+            if (!coffe_failed()) fprintf(
                 stderr,
                 "Values: "
                 "z = %.3e + %.3eI, "
@@ -185,7 +187,7 @@ static complex_t twofast_gamma(complex_t z)
                 creal(t), cimag(t),
                 creal(result), cimag(result)
             );
-            exit(EXIT_FAILURE);
+            coffe_fail();
         }
     }
 
@@ -211,7 +213,7 @@ static complex_t twofast_mql(
         return cpow(alpha, t * I - q) * unl;
     }
     else{
-        fprintf(
+        if (!coffe_failed()) fprintf(
             stderr,
             "ERROR: "
             "file %s, function %s\n"
@@ -219,7 +221,8 @@ static complex_t twofast_mql(
             __FILE__, __func__,
             t, q, l, alpha
         );
-        exit(EXIT_FAILURE);
+        coffe_fail();
+        return unl;
     }
 }
 
@@ -536,8 +539,10 @@ static complex_t twofast_mql1l2(double t, double r, double q, int l1, int l2, do
     }
     if (gsl_finite(ul1l2)) return ul1l2;
     else{
-        fprintf(stderr, "ERROR: file %s, function %s\n", __FILE__, __func__);
-        exit(EXIT_FAILURE);
+        if (!coffe_failed())
+            fprintf(stderr, "ERROR: file %s, function %s\n", __FILE__, __func__);
+        coffe_fail();
+        return ul1l2;
     }
 }
 
-- 
2.43.0


From 0800b8d820b2bde9621316a0170ecf51f94ba601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 28/37] fix: check the ranges of integral and
 maximum_separation

---
 python/coffe/coffe.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index bf287ba..a51a0dc 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1733,7 +1733,7 @@ cdef class Coffe:
                 f'Cannot find integral with n = {n}, l = {l}'
             )
 
-        return ccoffe.coffe_interp_spline(&result.result, r)
+        return evaluate_spline(&result.result, r)
 
 
     def galaxy_bias1(self, z : float):
@@ -2842,6 +2842,7 @@ cdef class Coffe:
         """
         _check_parameter('z_mean', z_mean, (int, float), 0, 15)
         _check_parameter('deltaz', deltaz, (int, float), 0, z_mean)
+        _check_parameter('z_mean + deltaz', z_mean + deltaz, (int, float), 0, 15)
 
         if not self._background.flag:
             self._background_init()
-- 
2.43.0


From 61e3d000a32a204ab085950450648917037147c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 29/37] fix: refuse samplings that cannot be interpolated or
 transformed

---
 python/coffe/coffe.pyx | 14 ++++++++++----
 src/twobessel.c        | 22 ++++++++++++++++------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index a51a0dc..ca2f2bd 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1669,7 +1669,7 @@ cdef class Coffe:
             "integrals_fftlog_sampling",
             value,
             int,
-            0,
+            _minimum_sampling[self._parameters.interp_method],
             1000000,
         )
 
@@ -2340,7 +2340,7 @@ cdef class Coffe:
             "covariance_integration_sampling",
             value,
             int,
-            0,
+            4,
             1000000,
         )
 
@@ -2555,7 +2555,7 @@ cdef class Coffe:
     @integration_sampling.setter
     def integration_sampling(self, value):
         # the latter is at least the size of a long
-        _check_parameter('integration_sampling', value, int, 0, self._max_size)
+        _check_parameter('integration_sampling', value, int, 2, self._max_size)
 
         self._parameters.integration_bins = value
         self._free_corrfunc()
@@ -2574,7 +2574,13 @@ cdef class Coffe:
 
     @background_sampling.setter
     def background_sampling(self, value):
-        _check_parameter('background_sampling', value, int, 0, self._max_size)
+        _check_parameter(
+            'background_sampling',
+            value,
+            int,
+            _minimum_sampling[self._parameters.interp_method],
+            10000000,
+        )
 
         self._parameters.background_bins = value
         self._free_except_power_spectrum()
diff --git a/src/twobessel.c b/src/twobessel.c
index acdbe13..71924a1 100644
--- a/src/twobessel.c
+++ b/src/twobessel.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <time.h>
 
+#include "errors.h"
 #include "utils.h"
 #include "twobessel.h"
 
@@ -15,8 +16,11 @@
 
 void two_sph_bessel(double *k1, double *k2, double **fk1k2, long N1, long N2, config *config, double *r1, double *r2, double **result) {
 	// printf("fk1k2[0][0]:%.15e\n", fk1k2[0][0]);
-	if(N1 % 2) {printf("Please use even number of k1 !\n"); exit(0);}
-	if(N2 % 2) {printf("Please use even number of k2 !\n"); exit(0);}
+	if(N1 % 2 || N2 % 2){
+		fprintf(stderr, "ERROR: the number of points must be even!\n");
+		coffe_fail();
+		return;
+	}
 	long halfN1 = N1/2, halfN2 = N2/2;
 
 	double k10, k20, r10,r20;
@@ -114,8 +118,11 @@ void two_sph_bessel(double *k1, double *k2, double **fk1k2, long N1, long N2, co
 
 void two_sph_bessel_binave(double *k1, double *k2, double **fk1k2, long N1, long N2, config *config, double smooth_dlnr, int dimension, double *r1, double *r2, double **result) {
 	// printf("fk1k2[0][0]:%.15e\n", fk1k2[0][0]);
-	if(N1 % 2) {printf("Please use even number of k1 !\n"); exit(0);}
-	if(N2 % 2) {printf("Please use even number of k2 !\n"); exit(0);}
+	if(N1 % 2 || N2 % 2){
+		fprintf(stderr, "ERROR: the number of points must be even!\n");
+		coffe_fail();
+		return;
+	}
 	long halfN1 = N1/2, halfN2 = N2/2;
 
 	double k10, k20, r10,r20;
@@ -214,8 +221,11 @@ void two_sph_bessel_binave(double *k1, double *k2, double **fk1k2, long N1, long
 
 void two_Bessel_binave(double *k1, double *k2, double **fk1k2, long N1, long N2, config *config, double smooth_dlnr, int dimension, double *r1, double *r2, double **result) {
 	// printf("fk1k2[0][0]:%.15e\n", fk1k2[0][0]);
-	if(N1 % 2) {printf("Please use even number of k1 !\n"); exit(0);}
-	if(N2 % 2) {printf("Please use even number of k2 !\n"); exit(0);}
+	if(N1 % 2 || N2 % 2){
+		fprintf(stderr, "ERROR: the number of points must be even!\n");
+		coffe_fail();
+		return;
+	}
 	long halfN1 = N1/2, halfN2 = N2/2;
 
 	double k10, k20, r10,r20;
-- 
2.43.0


From 3bfd096a7f231937c47e8e48619677d060ae2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 30/37] fix: do not share the interpolation accelerators
 between threads

---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5ab3058..6db1c6d 100644
--- a/src/common.c
+++ b/src/common.c
@@ -706,7 +706,8 @@ double coffe_interp_spline(
     double value
 )
 {
-    return gsl_spline_eval(interp->spline, value, interp->accel);
+    /* N.B. the accelerator would be modified, and threads share it */
+    return gsl_spline_eval(interp->spline, value, NULL);
 }
 
 double coffe_interp_spline2d(
@@ -715,7 +716,8 @@ double coffe_interp_spline2d(
     const double value2
 )
 {
-    return gsl_spline2d_eval(interp->spline, value1, value2, interp->xaccel, interp->yaccel);
+    /* N.B. the accelerators would be modified, and threads share them */
+    return gsl_spline2d_eval(interp->spline, value1, value2, NULL, NULL);
 }
 
 int coffe_parameters_free(
-- 
2.43.0


From 0b26ab4ab64ff792c593dd7f9496f2c31027b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 31/37] fix: refuse flat-sky lensing multipoles without the
 integrals they need

---
 python/coffe/coffe.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ca2f2bd..3000c4f 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3354,6 +3354,17 @@ cdef class Coffe:
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('l', l, (int,), 0, 10)
 
+        # the integrals for these terms are only computed for the multipoles in `l`
+        if (
+            self.has_lensing
+            and (self.has_flatsky_nonlocal or (self.has_flatsky_local_nonlocal and self.has_density))
+            and l % 2 == 0
+            and l not in self.l
+        ):
+            raise ValueError(
+                f'In the flat-sky approximation the multipole l={l} must be one of l={self.l}'
+            )
+
         result = ccoffe.coffe_integrate(
             &self._parameters,
             &self._background,
-- 
2.43.0


From a002769b1d4fd6a5baee19dd1349240386d8713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:52 +0000
Subject: [PATCH 32/37] fix: release the previous table when a new one is set

set_galaxy_bias1 and the seven other setters of tables overwrote the pointers
to the previous interpolation, which was never released.
---
 python/coffe/coffe.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 3000c4f..183e88c 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -231,6 +231,7 @@ cdef int set_spline(
         x[i] = x_sampling[i]
         y[i] = y_sampling[i]
 
+    ccoffe.coffe_free_spline(interp)
     ccoffe.coffe_init_spline(interp, x, y, size, interp1d_type)
 
     free(x)
-- 
2.43.0


From 17989df1e70c2e5ccfa1529cdf6543e6105f938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 33/37] fix: release the polynomial fits of the biases, and
 make none without separations

The arrays of fits were never released, new ones replaced them with each
background, and the last of zero separations was read.
---
 src/background.c | 5 ++++-
 src/common.c     | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/background.c b/src/background.c
index d84bb27..759b16b 100644
--- a/src/background.c
+++ b/src/background.c
@@ -92,6 +92,9 @@ int coffe_get_bias_coefficients(
     coffe_fit_coefficients_array_t *bias_coefficients
 )
 {
+    /* make sure we don't have memory leaks */
+    coffe_free_fit_coefficients_array(bias_coefficients);
+
     bias_coefficients->size = z_mean_size;
     bias_coefficients->array = (coffe_fit_coefficients_t *)coffe_malloc(
         sizeof(coffe_fit_coefficients_t) * bias_coefficients->size
@@ -644,7 +647,7 @@ int coffe_background_init(
     gsl_spline_free(ipar.xint.spline), gsl_interp_accel_free(ipar.xint.accel);
 
     /* this should maybe be placed in some other module as to not bloat this one */
-    if (par->flatsky_nonlocal && par->z_mean_len){
+    if (par->flatsky_nonlocal && par->z_mean_len && par->sep_len){
 
         coffe_get_bias_coefficients(
             &bg->comoving_distance, &bg->z_as_chi,
diff --git a/src/common.c b/src/common.c
index 6db1c6d..57d00eb 100644
--- a/src/common.c
+++ b/src/common.c
@@ -800,6 +800,8 @@ int coffe_parameters_free(
         coffe_free_fit_coefficients_array(&par->galaxy_bias2_coefficients);
         coffe_free_fit_coefficients_array(&par->magnification_bias1_coefficients);
         coffe_free_fit_coefficients_array(&par->magnification_bias2_coefficients);
+        coffe_free_fit_coefficients_array(&par->evolution_bias1_coefficients);
+        coffe_free_fit_coefficients_array(&par->evolution_bias2_coefficients);
 
         par->flag = 0;
     }
@@ -1284,8 +1286,10 @@ int coffe_free_fit_coefficients_array(
     if (input->size){
         for (size_t i = 0; i < input->size; ++i)
             coffe_free_fit_coefficients(&input->array[i]);
+        free(input->array);
     }
     input->size = 0;
+    input->array = NULL;
 
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From 139374d7d04eefe6718e760a89c4854a4e548a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 34/37] fix: do not read beyond the end of deltaz in the
 divergent integral

deltaz can have fewer elements than z_mean.
---
 src/integrals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrals.c b/src/integrals.c
index 38d4880..c7e13e1 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -867,7 +867,7 @@ int coffe_integrals_init(
                 /* dimensionless */
                 double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
                 for (size_t i = 0; i < par->z_mean_len; ++i)
-                    temp[i] = par->z_mean[i] + par->deltaz[i];
+                    temp[i] = par->z_mean[i] + (i < par->deltaz_len ? par->deltaz[i] : 0);
                 chi_max = coffe_interp_spline(
                     &bg->comoving_distance,
                     coffe_max_array_double(temp, par->z_mean_len)
-- 
2.43.0


From 1ff2a045f94289b7607a354c654679b444e83334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 35/37] fix: do not allocate memory for empty lists

It is released only if the list is not empty.
---
 python/coffe/coffe.pyx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 183e88c..17098c1 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1599,7 +1599,7 @@ cdef class Coffe:
             free(self._parameters.sep)
 
         self._parameters.sep_len = len(temp)
-        self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.sep = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.sep_len):
             self._parameters.sep[i] = temp[i]
         self._free_corrfunc()
@@ -1643,7 +1643,7 @@ cdef class Coffe:
             free(self._parameters.mu)
 
         self._parameters.mu_len = len(temp)
-        self._parameters.mu = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.mu = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.mu_len):
             self._parameters.mu[i] = temp[i]
         # we need to re-compute it since we changed the values
@@ -2009,7 +2009,7 @@ cdef class Coffe:
             free(self._parameters.multipole_values)
 
         self._parameters.multipole_values_len = len(temp)
-        self._parameters.multipole_values = <int *> malloc(sizeof(int) * len(temp))
+        self._parameters.multipole_values = <int *> malloc(sizeof(int) * len(temp)) if temp else NULL
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
@@ -2050,7 +2050,7 @@ cdef class Coffe:
             free(self._parameters.z_mean)
 
         self._parameters.z_mean_len = len(temp)
-        self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
         # the range of the renormalization integral depends on the redshifts
@@ -2088,7 +2088,7 @@ cdef class Coffe:
             free(self._parameters.zmin)
 
         self._parameters.zmin_len = len(temp)
-        self._parameters.zmin = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.zmin = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.zmin_len):
             self._parameters.zmin[i] = temp[i]
         self._free_corrfunc()
@@ -2127,7 +2127,7 @@ cdef class Coffe:
             free(self._parameters.zmax)
 
         self._parameters.zmax_len = len(temp)
-        self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
         # the range of the renormalization integral depends on the redshifts
@@ -2168,7 +2168,7 @@ cdef class Coffe:
             free(self._parameters.density1)
 
         self._parameters.density1_len = len(temp)
-        self._parameters.density1 = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.density1 = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.density1_len):
             self._parameters.density1[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2204,7 +2204,7 @@ cdef class Coffe:
             free(self._parameters.density2)
 
         self._parameters.density2_len = len(temp)
-        self._parameters.density2 = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.density2 = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.density2_len):
             self._parameters.density2[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2415,7 +2415,7 @@ cdef class Coffe:
             free(self._parameters.pixelsize)
 
         self._parameters.pixelsize_len = len(temp)
-        self._parameters.pixelsize = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.pixelsize = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.pixelsize_len):
             self._parameters.pixelsize[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2451,7 +2451,7 @@ cdef class Coffe:
             free(self._parameters.fsky)
 
         self._parameters.fsky_len = len(temp)
-        self._parameters.fsky = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.fsky = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.fsky_len):
             self._parameters.fsky[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2487,7 +2487,7 @@ cdef class Coffe:
             free(self._parameters.deltaz)
 
         self._parameters.deltaz_len = len(temp)
-        self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp)) if temp else NULL
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
         # the range of the renormalization integral depends on the redshifts
-- 
2.43.0


From 70e94eaa10a2289ff071e46b5fd0527586af211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 36/37] fix: release the power spectrum before computing it
 again

Asking for it with recompute=True leaked the previous one.
---
 python/coffe/coffe.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 17098c1..4029361 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3640,6 +3640,7 @@ cdef class Coffe:
         # an input power spectrum is not something we can compute again
         if self._power_spectrum_flag == 2:
             return
+        self._free_power_spectrum()
         ccoffe.parse_external_power_spectrum(&self._parameters)
         self._power_spectrum_flag = 1
 
-- 
2.43.0


From a40bd809317318b25afea2a26f3c4afdf00624b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 37/37] fix: refuse redshift bins whose lists of ends differ in
 length

The shorter list was read beyond its end.
---
 python/coffe/coffe.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4029361..245ed6c 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1089,6 +1089,8 @@ cdef class Coffe:
             raise ValueError(
                 f'At least one of the following parameters is empty: l ({self.l}), sep ({self.sep}), z_min ({self.z_min}), z_max ({self.z_max})'
             )
+        if len(self.z_min) != len(self.z_max):
+            raise ValueError('Mismatching lengths for `z_min` and `z_max`')
 
 
     def _check_contributions(self):
-- 
2.43.0

