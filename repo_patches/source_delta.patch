From 393e543f8ac4dc0538850917f5edca790d77997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 01/53] fix: drop every bulk result that depends on sep, z_min
 or z_max when they change

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dc8a57..d97c321 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1583,6 +1583,9 @@ cdef class Coffe:
             self._parameters.sep[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     @property
@@ -2042,6 +2045,7 @@ cdef class Coffe:
             self._parameters.zmin[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
@@ -2080,6 +2084,7 @@ cdef class Coffe:
             self._parameters.zmax[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
-- 
2.43.0


From 2e3f74495c7d2a98a5a57b2a42cfd1aab83ff022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 02/53] fix: changing a bias drops everything which was
 computed from it

---
 python/coffe/coffe.pyx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d97c321..ed8b3f3 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1747,6 +1747,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias2(self, z : float):
@@ -1780,6 +1783,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias3(self, z : float):
@@ -1802,6 +1808,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias4(self, z : float):
@@ -1824,6 +1833,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def magnification_bias1(self, z : float):
@@ -1855,8 +1867,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background stores G1 and G2, which depend on the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def magnification_bias2(self, z : float):
@@ -1888,8 +1903,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background stores G1 and G2, which depend on the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias1(self, z : float):
@@ -1909,8 +1927,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background stores G1 and G2, which depend on the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias2(self, z : float):
@@ -1930,8 +1951,11 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        # the background stores G1 and G2, which depend on the bias
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     @property
-- 
2.43.0


From 49aed650184e4d8c58ebdbd8695985381cb37e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 03/53] fix: free the integrals when the multipoles change

---
 python/coffe/coffe.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ed8b3f3..dcc7cc0 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1992,6 +1992,7 @@ cdef class Coffe:
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
+        self._free_integrals()
         self._free_multipoles()
         self._free_average_multipoles()
         self._free_covariance_multipoles()
-- 
2.43.0


From 4a0b9a9e9cc27a86fe1206512c58d5c53dea004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 04/53] fix: make integrals_fftlog_sampling settable

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index dcc7cc0..51dc6e4 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1653,7 +1653,7 @@ cdef class Coffe:
             1000000,
         )
 
-        self._parameter.bessel_bins = int(value)
+        self._parameters.bessel_bins = int(value)
         self._free_except_parameters()
 
 
-- 
2.43.0


From 52a76fce747473348d49bb5aca575bb36fbbed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 05/53] fix: keep the matter densities consistent when h or
 omega_cdm change

---
 python/coffe/coffe.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 51dc6e4..353314a 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1183,7 +1183,7 @@ cdef class Coffe:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
-            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon
+            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon + self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
@@ -1278,6 +1278,9 @@ cdef class Coffe:
         if not np.allclose(value, self.h):
             # setting the old value equal to the new value of h
             self._parameters.h = value
+            # little omega(nu) doesn't change with h, but big omega(nu) does
+            self._parameters.Omega0_nu = self.m_ncdm / 93.14 / self.h / self.h
+            self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From 632debe3fff3cf9f9fd587b9aca848ea2044356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 06/53] fix: do not ignore small changes of the cosmological
 parameters

---
 python/coffe/coffe.pyx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 353314a..f893311 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1179,7 +1179,7 @@ cdef class Coffe:
     @omega_cdm.setter
     def omega_cdm(self, value):
         _check_parameter('omega_cdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_cdm):
+        if value != self.omega_cdm:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
@@ -1207,7 +1207,7 @@ cdef class Coffe:
     @omega_m.setter
     def omega_m(self, value):
         _check_parameter('omega_m', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_m):
+        if value != self.omega_m:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_m = value / self._coeff
@@ -1228,7 +1228,7 @@ cdef class Coffe:
     @omega_baryon.setter
     def omega_baryon(self, value):
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_baryon):
+        if value != self.omega_baryon:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_cdm, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
@@ -1248,7 +1248,7 @@ cdef class Coffe:
     @omega_gamma.setter
     def omega_gamma(self, value):
         _check_parameter('omega_gamma', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_gamma):
+        if value != self.omega_gamma:
             self._check_omegas(value, self.omega_m)
             self._parameters.Omega0_gamma = value / self._coeff
             self._balance_content()
@@ -1275,7 +1275,7 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
-        if not np.allclose(value, self.h):
+        if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
             # little omega(nu) doesn't change with h, but big omega(nu) does
@@ -1300,7 +1300,7 @@ cdef class Coffe:
     @w0.setter
     def w0(self, value):
         _check_parameter('w0', value, (int, float), -100, 100)
-        if not np.allclose(value, self.w0):
+        if value != self.w0:
             self._parameters.w0 = value
             self._free_except_parameters()
 
@@ -1400,7 +1400,7 @@ cdef class Coffe:
     @wa.setter
     def wa(self, value):
         _check_parameter('wa', value, (int, float), -100, 100)
-        if not np.allclose(value, self.wa):
+        if value != self.wa:
             self._parameters.wa = value
             self._free_except_parameters()
 
@@ -1416,7 +1416,7 @@ cdef class Coffe:
     @n_s.setter
     def n_s(self, value):
         _check_parameter('n_s', value, (int, float), -100, 100)
-        if not np.allclose(value, self.n_s):
+        if value != self.n_s:
             self._parameters.n_s = value
             self._free_except_parameters()
 
@@ -1432,7 +1432,7 @@ cdef class Coffe:
     @sigma8.setter
     def sigma8(self, value):
         _check_parameter('sigma8', value, (int, float), -100, 100)
-        if not np.allclose(value, self.sigma8):
+        if value != self.sigma8:
             self._parameters.sigma8 = value
             self._free_power_spectrum()
             self._free_integrals()
@@ -1475,7 +1475,7 @@ cdef class Coffe:
     @T_cmb.setter
     def T_cmb(self, value):
         _check_parameter('T_cmb', value, (int, float), -100, 100)
-        if not np.allclose(value, self.T_cmb):
+        if value != self.T_cmb:
             self._parameters.T_cmb = value
             self._free_except_parameters()
 
@@ -1491,7 +1491,7 @@ cdef class Coffe:
     @N_ur.setter
     def N_ur(self, value):
         _check_parameter('N_ur', value, (int, float), -100, 100)
-        if not np.allclose(value, self.N_ur):
+        if value != self.N_ur:
             self._parameters.N_ur = value
             self._free_except_parameters()
 
@@ -1508,7 +1508,7 @@ cdef class Coffe:
     @m_ncdm.setter
     def m_ncdm(self, value):
         _check_parameter('m_ncdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.m_ncdm):
+        if value != self.m_ncdm:
             self._parameters.m_ncdm = value
             # see eq. (19) of https://arxiv.org/abs/1212.6154
             # note that little omega(nu) doesn't change if we change h, but big
@@ -1529,7 +1529,7 @@ cdef class Coffe:
     @YHe.setter
     def YHe(self, value):
         _check_parameter('YHe', value, (int, float), -100, 100)
-        if not np.allclose(value, self.YHe):
+        if value != self.YHe:
             self._parameters.YHe = value
             self._free_except_parameters()
 
@@ -1545,7 +1545,7 @@ cdef class Coffe:
     @N_ncdm.setter
     def N_ncdm(self, value):
         _check_parameter('N_ncdm', value, int, -100, 100)
-        if not np.allclose(value, self.N_ncdm):
+        if value != self.N_ncdm:
             self._parameters.N_ncdm = value
             self._free_except_parameters()
 
-- 
2.43.0


From 3499c0a7e4440d8c55b6a60cf11885913b0ca0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 07/53] fix: changing the 2D interpolation method drops what
 was computed with it

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index f893311..e6b04cb 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2354,6 +2354,11 @@ cdef class Coffe:
             self._parameters.covariance_interpolation_method = value
         else:
             self._parameters.covariance_interpolation_method = _invert_dict(_allowed_interpolation_2d_methods)[value]
+        # the integrals use the same interpolation
+        self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
-- 
2.43.0


From 847065732ea40f750266cd3f66a96dae144b79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 08/53] fix: check and convert the points of a spline before
 replacing it, and free the old one

---
 python/coffe/coffe.pyx | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e6b04cb..0c9b4a6 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -155,6 +155,35 @@ cdef double evaluate_spline(
 
 
 
+# the least number of points needed by each interpolation method
+_min_spline_sizes = {
+    ccoffe.COFFE_INTERP_LINEAR : 2,
+    ccoffe.COFFE_INTERP_POLYNOMIAL : 3,
+    ccoffe.COFFE_INTERP_CSPLINE : 3,
+    ccoffe.COFFE_INTERP_CSPLINE_PERIODIC : 2,
+    ccoffe.COFFE_INTERP_AKIMA : 5,
+    ccoffe.COFFE_INTERP_AKIMA_PERIODIC : 5,
+    ccoffe.COFFE_INTERP_STEFFEN : 3,
+}
+
+
+def _check_spline_sampling(x_values, y_values, interp1d_type):
+    """
+    Checks that a spline can be made out of the points (GSL aborts if it can't)
+    """
+    if len(x_values) != len(y_values):
+        raise ValueError(
+            f'Mismatching lengths for x ({len(x_values)}) and y ({len(y_values)})'
+        )
+    size = _min_spline_sizes.get(interp1d_type, 5)
+    if len(x_values) < size:
+        raise ValueError(
+            f'At least {size} points are needed for the interpolation, got {len(x_values)}'
+        )
+    if not all(x_values[i] < x_values[i + 1] for i in range(len(x_values) - 1)):
+        raise ValueError('The input array must be strictly increasing')
+
+
 cdef int set_spline(
     ccoffe.coffe_interpolation *interp,
     x_sampling : List[float],
@@ -176,17 +205,23 @@ cdef int set_spline(
     _check_parameter('xmin', x_sampling[0], (int, float), xmin=xmin)
     _check_parameter('xmax', x_sampling[-1], (int, float), xmax=xmax)
 
+    # everything is converted before the current spline is touched
+    x_values = [float(_) for _ in x_sampling]
+    y_values = [float(_) for _ in y_sampling]
+    _check_spline_sampling(x_values, y_values, interp1d_type)
+
     cdef double *x = NULL
     cdef double *y = NULL
 
-    size = len(x_sampling)
+    size = len(x_values)
     x = <double *>malloc(sizeof(double) * size)
     y = <double *>malloc(sizeof(double) * size)
 
     for i in range(size):
-        x[i] = x_sampling[i]
-        y[i] = y_sampling[i]
+        x[i] = x_values[i]
+        y[i] = y_values[i]
 
+    ccoffe.coffe_free_spline(interp)
     ccoffe.coffe_init_spline(interp, x, y, size, interp1d_type)
 
     free(x)
-- 
2.43.0


From 7fb9da443f1e72d6aa3d7edf96bc8ae0141f70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 09/53] fix: convert the input power spectrum before the
 current one is freed

---
 python/coffe/coffe.pyx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 0c9b4a6..b9e2091 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3030,19 +3030,25 @@ cdef class Coffe:
 
         # TODO error checking for z and rescaling if z > 0
 
+        # everything is converted before the current spectrum is touched
+        k_values = [float(_) for _ in k]
+        pk_values = [float(_) for _ in pk]
+        _check_spline_sampling(k_values, pk_values, self._parameters.interp_method)
+
         self._free_power_spectrum()
-        self._parameters.k_min = k[0]
-        self._parameters.k_max = k[-1]
-        self._parameters.k_min_norm = k[0]
-        self._parameters.k_max_norm = k[-1]
-        size = len(k)
 
+        self._parameters.k_min = k_values[0]
+        self._parameters.k_max = k_values[-1]
+        self._parameters.k_min_norm = k_values[0]
+        self._parameters.k_max_norm = k_values[-1]
+
+        size = len(k_values)
         cdef double *x = <double *>ccoffe.coffe_malloc(sizeof(double) * size)
         cdef double *y = <double *>ccoffe.coffe_malloc(sizeof(double) * size)
         cdef double *x_norm = <double *>ccoffe.coffe_malloc(sizeof(double) * size)
         cdef double *y_norm = <double *>ccoffe.coffe_malloc(sizeof(double) * size)
 
-        for (i, ki), pki in zip(enumerate(k), pk):
+        for (i, ki), pki in zip(enumerate(k_values), pk_values):
             x[i] = ki
             y[i] = pki
             x_norm[i] = ki
-- 
2.43.0


From 4088c4b28520a82e84ce10b5bd1a5720548f45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 10/53] fix: drop the results of the previous power spectrum
 when a new one is set

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b9e2091..ddba50f 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3072,6 +3072,11 @@ cdef class Coffe:
         free(y_norm)
 
         self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def comoving_distance(self, z : float):
-- 
2.43.0


From 13ffec7db5899d1cf484cd9539cdaf301759e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 11/53] fix: keep the power spectrum of the user when
 recomputing, and report a failed computation

---
 python/coffe/coffe.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ddba50f..e140742 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3064,7 +3064,8 @@ cdef class Coffe:
             x_norm, y_norm, size, self._parameters.interp_method
         )
 
-        self._power_spectrum_flag = 1
+        # a spectrum set by the user is never recomputed
+        self._power_spectrum_flag = 2
 
         free(x)
         free(y)
@@ -3626,7 +3627,11 @@ cdef class Coffe:
         )
 
     def _power_spectrum_init(self):
-        ccoffe.parse_external_power_spectrum(&self._parameters)
+        if self._power_spectrum_flag == 2:
+            return
+        if ccoffe.parse_external_power_spectrum(&self._parameters) != 0:
+            self._free_power_spectrum()
+            raise RuntimeError('Unable to compute the power spectrum')
         self._power_spectrum_flag = 1
 
     def _integrals_init(self):
-- 
2.43.0


From 59d5725aac144c2fce0662da0d93c10ed18381a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 12/53] fix: set covariance_populations from the converted
 values

---
 python/coffe/coffe.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e140742..224ba94 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2249,13 +2249,13 @@ cdef class Coffe:
         except TypeError as err:
             raise TypeError('Cannot convert all values to integers') from err
 
-        if len(value) != 4:
+        if len(temp) != 4:
             raise ValueError('The array for setting `covariance_populations` must have length 4')
 
-        if any(_ not in [1, 2, 3, 4] for _ in value):
+        if any(_ not in [1, 2, 3, 4] for _ in temp):
             raise ValueError('The values for `covariance_populations` must be one of: [1, 2, 3, 4]')
 
-        self._parameters.covariance_pop1, self._parameters.covariance_pop2, self._parameters.covariance_pop3, self._parameters.covariance_pop4 = value
+        self._parameters.covariance_pop1, self._parameters.covariance_pop2, self._parameters.covariance_pop3, self._parameters.covariance_pop4 = temp
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
-- 
2.43.0


From 4c368cb9fc2ef4ca0b0e3174be6a4a65ad2553b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 13/53] fix: compute the divergent integrals whenever the
 contributions need them

---
 python/coffe/coffe.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 224ba94..3fc5c6d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1140,8 +1140,6 @@ cdef class Coffe:
                 "'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', "
                 "'has_g4', 'has_g5'"
             )
-        if any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]):
-            self._parameters.divergent = 1
 
 
     def _balance_content(self):
@@ -2070,6 +2068,9 @@ cdef class Coffe:
         self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
+        # the renormalization terms depend on the maximum redshift
+        if self._parameters.divergent:
+            self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
@@ -2503,6 +2504,9 @@ cdef class Coffe:
         self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
+        # the renormalization terms depend on the maximum redshift
+        if self._parameters.divergent:
+            self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
@@ -3635,6 +3639,9 @@ cdef class Coffe:
         self._power_spectrum_flag = 1
 
     def _integrals_init(self):
+        self._parameters.divergent = int(
+            any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+        )
         ccoffe.coffe_integrals_init(
             &self._parameters,
             &self._background,
-- 
2.43.0


From 096c90af9ae008e6f02acfc73759e809dc4e8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 14/53] fix: raise an error instead of aborting when evaluating
 outside of a spline

---
 python/coffe/coffe.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 3fc5c6d..695b88f 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1749,7 +1749,7 @@ cdef class Coffe:
                 f'Cannot find integral with n = {n}, l = {l}'
             )
 
-        return ccoffe.coffe_interp_spline(&result.result, r)
+        return evaluate_spline(&result.result, r)
 
 
     def galaxy_bias1(self, z : float):
@@ -2859,6 +2859,8 @@ cdef class Coffe:
         _check_parameter('z_mean', z_mean, (int, float), 0, 15)
         _check_parameter('deltaz', deltaz, (int, float), 0, z_mean)
 
+        _check_parameter('z_mean + deltaz', z_mean + deltaz, (int, float), 0, 15)
+
         if not self._background.flag:
             self._background_init()
 
-- 
2.43.0


From 53269d7887265942d34eca7db2e7cda638d14c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 15/53] fix: reading the parameters does not modify the object

---
 python/coffe/coffe.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 695b88f..f7f1f87 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1178,10 +1178,12 @@ cdef class Coffe:
             if key != 'parameters' and hasattr(getattr(self.__class__, key), '__set__')
         }
         writable = {}
+        # setting a parameter frees what depends on it, hence not done on this object
+        other = Coffe()
         for key in properties:
             try:
-                setattr(self, key, getattr(self, key))
-                writable[key] = getattr(self, key)
+                setattr(other, key, getattr(other, key))
+                writable[key] = properties[key]
             except AttributeError:
                 pass
         return writable
-- 
2.43.0


From 6e142d949392f1f73be79bc59bb7a494125836a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 16/53] fix: set_parameters sets all of the parameters or none
 of them

---
 python/coffe/coffe.pyx | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index f7f1f87..c00123a 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -25,7 +25,7 @@ import sys
 import warnings
 from configparser import ConfigParser
 from pathlib import Path
-from typing import Any, Callable, List, Tuple, Union, Optional, Sequence
+from typing import Any, Callable, Iterator, List, Tuple, Union, Optional, Sequence
 
 import numpy as np
 
@@ -1199,6 +1199,25 @@ cdef class Coffe:
                     f'The parameter {key} is not a valid parameter in COFFE.'
                 )
 
+        # first try everything out on another object with the same energy
+        # content, so that either all of the parameters are set, or none are
+        value = {
+            key : list(item) if isinstance(item, Iterator) else item
+            for key, item in value.items()
+        }
+        cdef Coffe other = Coffe()
+        other._parameters.h = self._parameters.h
+        other._parameters.m_ncdm = self._parameters.m_ncdm
+        other._parameters.Omega0_m = self._parameters.Omega0_m
+        other._parameters.Omega0_baryon = self._parameters.Omega0_baryon
+        other._parameters.Omega0_cdm = self._parameters.Omega0_cdm
+        other._parameters.Omega0_gamma = self._parameters.Omega0_gamma
+        other._parameters.Omega0_nu = self._parameters.Omega0_nu
+        other._parameters.Omega0_de = self._parameters.Omega0_de
+        for key in value:
+            if hasattr(Coffe, key):
+                setattr(other, key, value[key])
+
         for key in value:
             setattr(self, key, value[key])
 
-- 
2.43.0


From 15c353bfc55fef7ec2ea6dd09b713ac846789422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 17/53] fix: set the options of the configuration file in a
 fixed order

---
 python/coffe/coffe.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index c00123a..3f1a388 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -675,7 +675,7 @@ cdef class Coffe:
                 if key in contributions:
                     setattr(cosmo, value, True)
 
-        options_float_array = {
+        options_float_array = [
             "sep",
             "z_mean",
             "deltaz",
@@ -686,7 +686,7 @@ cdef class Coffe:
             "number_density2",
             "pixelsize",
             "fsky",
-        }
+        ]
         for option in options_float_array:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
@@ -696,7 +696,7 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
 
-        options_float = {
+        options_float = [
             "omega_m",
             "omega_baryon",
             "omega_gamma",
@@ -720,12 +720,12 @@ cdef class Coffe:
             "k_min",
             "k_max",
             "YHe",
-        }
+        ]
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
 
-        options_int = {
+        options_int = [
             "has_density",
             "has_lensing",
             "has_rsd",
@@ -747,17 +747,17 @@ cdef class Coffe:
             "covariance_integration_sampling",
             "integrals_fftlog_sampling",
             "N_ncdm",
-        }
+        ]
         for option in options_int:
             if option in config:
                 setattr(cosmo, option, config.getint(option))
 
-        options_int_or_string = {
+        options_int_or_string = [
             "covariance_integration_method",
             "pk_type",
             "covariance_interpolation_method",
             "integration_1d_type",
-        }
+        ]
         for option in options_int_or_string:
             if option in config:
                 try:
-- 
2.43.0


From fac80ac1559f129af09ed36edc9e42dbd694aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 18/53] fix: from_file reads every option which to_file writes

---
 python/coffe/coffe.pyx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 3f1a388..b560e38 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -691,7 +691,7 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
 
-        options_int_array = ["l"]
+        options_int_array = ["l", "covariance_populations"]
         for option in options_int_array:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
@@ -709,9 +709,7 @@ cdef class Coffe:
             "A_s",
             "k_per_decade_for_bao",
             "k_per_decade_for_pk",
-            "start_large_k_at_tau_c_over_tau_h",
-            "l_max_g",
-            "l_max_ur",
+            "start_large_k_at_tau_h_over_tau_k",
             "tol_perturb_integration",
             "radiation_streaming_trigger_tau_over_tau_k",
             "ur_fluid_trigger_tau_over_tau_k",
@@ -720,6 +718,7 @@ cdef class Coffe:
             "k_min",
             "k_max",
             "YHe",
+            "integration_1d_prec",
         ]
         for option in options_float:
             if option in config:
@@ -732,6 +731,7 @@ cdef class Coffe:
             "has_d1",
             "has_d2",
             "has_g1",
+            "has_g2",
             "has_g3",
             "has_g4",
             "has_g5",
@@ -747,6 +747,10 @@ cdef class Coffe:
             "covariance_integration_sampling",
             "integrals_fftlog_sampling",
             "N_ncdm",
+            "l_max_g",
+            "l_max_ur",
+            "has_only_cross_correlations",
+            "verbose",
         ]
         for option in options_int:
             if option in config:
-- 
2.43.0


From 86960ebf0825cdcf40b0a556b050d714489d59dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 19/53] fix: return the redshifts at which the biases were
 sampled

---
 python/coffe/coffe.pyx | 64 +++++++++---------------------------------
 1 file changed, 14 insertions(+), 50 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b560e38..419d7ff 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -125,17 +125,13 @@ cdef int get_spline_size(
 
 
 
-cdef double get_spline_min(
+cdef get_spline_sampling(
     ccoffe.coffe_interpolation *interp,
-) except *:
-    return dereference(interp.spline).x[0]
-
-
-
-cdef double get_spline_max(
-    ccoffe.coffe_interpolation *interp,
-) except *:
-    return dereference(interp.spline).x[get_spline_size(interp) - 1]
+):
+    """
+    Returns the points at which the spline was sampled
+    """
+    return np.array([dereference(interp.spline).x[i] for i in range(get_spline_size(interp))])
 
 
 
@@ -884,11 +880,7 @@ cdef class Coffe:
 
     def galaxy_bias1_redshifts(self):
         """Return the redshifts of the galaxy bias 1 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias1)
-        xmin = get_spline_min(&self._parameters.galaxy_bias1)
-        xmax = get_spline_max(&self._parameters.galaxy_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.galaxy_bias1)
 
     def galaxy_bias1_values(self):
         """Return the values of the galaxy bias 1 spline."""
@@ -897,11 +889,7 @@ cdef class Coffe:
 
     def galaxy_bias2_redshifts(self):
         """Return the redshifts of the galaxy bias 2 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias2)
-        xmin = get_spline_min(&self._parameters.galaxy_bias2)
-        xmax = get_spline_max(&self._parameters.galaxy_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.galaxy_bias2)
 
     def galaxy_bias2_values(self):
         """Return the values of the galaxy bias 2 spline."""
@@ -909,11 +897,7 @@ cdef class Coffe:
 
     def galaxy_bias3_redshifts(self):
         """Return the redshifts of the galaxy bias 3 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias3)
-        xmin = get_spline_min(&self._parameters.galaxy_bias3)
-        xmax = get_spline_max(&self._parameters.galaxy_bias3)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.galaxy_bias3)
 
     def galaxy_bias3_values(self):
         """Return the values of the galaxy bias 3 spline."""
@@ -921,11 +905,7 @@ cdef class Coffe:
 
     def galaxy_bias4_redshifts(self):
         """Return the redshifts of the galaxy bias 4 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias4)
-        xmin = get_spline_min(&self._parameters.galaxy_bias4)
-        xmax = get_spline_max(&self._parameters.galaxy_bias4)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.galaxy_bias4)
 
     def galaxy_bias4_values(self):
         """Return the values of the galaxy bias 4 spline."""
@@ -934,11 +914,7 @@ cdef class Coffe:
 
     def magnification_bias1_redshifts(self):
         """Return the redshifts of the magnification bias 1 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias1)
-        xmin = get_spline_min(&self._parameters.magnification_bias1)
-        xmax = get_spline_max(&self._parameters.magnification_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.magnification_bias1)
 
     def magnification_bias1_values(self):
         """Return the values of the magnification bias 1 spline."""
@@ -947,11 +923,7 @@ cdef class Coffe:
 
     def magnification_bias2_redshifts(self):
         """Return the redshifts of the magnification bias 2 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias2)
-        xmin = get_spline_min(&self._parameters.magnification_bias2)
-        xmax = get_spline_max(&self._parameters.magnification_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.magnification_bias2)
 
     def magnification_bias2_values(self):
         """Return the values of the magnification bias 2 spline."""
@@ -960,11 +932,7 @@ cdef class Coffe:
 
     def evolution_bias1_redshifts(self):
         """Return the redshifts of the evolution bias 1 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias1)
-        xmin = get_spline_min(&self._parameters.evolution_bias1)
-        xmax = get_spline_max(&self._parameters.evolution_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.evolution_bias1)
 
     def evolution_bias1_values(self):
         """Return the values of the evolution bias 1 spline."""
@@ -973,11 +941,7 @@ cdef class Coffe:
 
     def evolution_bias2_redshifts(self):
         """Return the redshifts of the evolution bias 2 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias2)
-        xmin = get_spline_min(&self._parameters.evolution_bias2)
-        xmax = get_spline_max(&self._parameters.evolution_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_sampling(&self._parameters.evolution_bias2)
 
     def evolution_bias2_values(self):
         """Return the values of the evolution bias 2 spline."""
-- 
2.43.0


From 2b7b6669af247c9dedc25b29c31c11bcab57bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 20/53] fix: do not share the accelerators of the splines
 between threads

---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5ab3058..a363876 100644
--- a/src/common.c
+++ b/src/common.c
@@ -706,7 +706,9 @@ double coffe_interp_spline(
     double value
 )
 {
-    return gsl_spline_eval(interp->spline, value, interp->accel);
+    /* called from several threads at once, so it cannot use the (shared)
+    accelerator of the spline */
+    return gsl_spline_eval(interp->spline, value, NULL);
 }
 
 double coffe_interp_spline2d(
@@ -715,7 +717,7 @@ double coffe_interp_spline2d(
     const double value2
 )
 {
-    return gsl_spline2d_eval(interp->spline, value1, value2, interp->xaccel, interp->yaccel);
+    return gsl_spline2d_eval(interp->spline, value1, value2, NULL, NULL);
 }
 
 int coffe_parameters_free(
-- 
2.43.0


From 76f8c0de6f79e13eb9f6bc13b2e7cd140e94dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 21/53] fix: do not read past the end of deltaz

---
 src/integrals.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/integrals.c b/src/integrals.c
index 27a0859..a946dc3 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -861,8 +861,10 @@ int coffe_integrals_init(
             ){
                 /* dimensionless */
                 double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
+                /* there may be fewer values of deltaz than of z_mean */
                 for (size_t i = 0; i < par->z_mean_len; ++i)
-                    temp[i] = par->z_mean[i] + par->deltaz[i];
+                    temp[i] = par->z_mean[i]
+                        + (i < par->deltaz_len ? par->deltaz[i] : 0);
                 chi_max = coffe_interp_spline(
                     &bg->comoving_distance,
                     coffe_max_array_double(temp, par->z_mean_len)
-- 
2.43.0


From 55e40ee67213eb8e6c7fef7fd56797f5622fb77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 22/53] fix: report files which cannot be read completely
 instead of using a part of them

---
 src/common.c | 156 +++++++++++++++++++++------------------------------
 1 file changed, 65 insertions(+), 91 deletions(-)

diff --git a/src/common.c b/src/common.c
index a363876..4614fed 100644
--- a/src/common.c
+++ b/src/common.c
@@ -103,65 +103,91 @@ char *coffe_get_time(void)
 
 
 /**
-    reads file <filename> into array <values>
-    of length <len>
+    reads the first <ncolumns> columns of file <filename> into the arrays
+    <values>, each of which has length <len>;
+    empty lines, and lines which start with a '#', are skipped
 **/
 
-int read_1col(
+static int read_columns(
     const char *filename,
-    double **values,
+    const size_t ncolumns,
+    double ***values,
     size_t *len
 )
 {
-    int error = 0;
     FILE *data = fopen(filename, "r");
     if (data == NULL){
         print_error_verbose(PROG_OPEN_ERROR, filename);
         return EXIT_FAILURE;
     }
-    size_t n = 0;
-    char c, temp_string[COFFE_MAX_STRLEN];
 
-    while ((c=fgetc(data)) != EOF){
-        if (c == '\n') ++n;
-    }
+    int error = 0;
+    char *line = NULL;
+    size_t line_size = 0, counter = 0, allocated = 0;
+
+    for (size_t i = 0; i < ncolumns; ++i)
+        *values[i] = NULL;
+
+    ssize_t line_len;
+
+    while (!error && (line_len = getline(&line, &line_size, data)) != -1){
+        const char *current = line + strspn(line, ",\t: \r\n");
+        if (memchr(line, '\0', line_len) != NULL) error = PROG_READ_ERROR;
+        if (*current == '#' || *current == '\0') continue;
+
+        if (counter == allocated){
+            allocated = allocated ? 2 * allocated : 1024;
+            for (size_t i = 0; i < ncolumns; ++i){
+                double *temp = (double *)realloc(
+                    *values[i], sizeof(double) * allocated
+                );
+                if (temp == NULL) error = PROG_ALLOC_ERROR;
+                else *values[i] = temp;
+            }
+        }
 
-    error = fseek(data, 0, SEEK_SET);
-    if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
-        return EXIT_FAILURE;
+        for (size_t i = 0; !error && i < ncolumns; ++i){
+            char *end;
+            (*values[i])[counter] = strtod(current, &end);
+            /* every column must be a number, up to the next separator */
+            if (end == current || strchr(",\t: \r\n", *end) == NULL)
+                error = PROG_READ_ERROR;
+            else
+                current = end + strspn(end, ",\t: \r\n");
+        }
+        ++counter;
     }
 
-    size_t counter = 0;
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#') ++counter;
-    }
-    *len = counter;
+    if (!error && (!feof(data) || counter == 0)) error = PROG_READ_ERROR;
+    if (fclose(data) && !error) error = PROG_CLOSE_ERROR;
+    free(line);
 
-    error = fseek(data, 0, SEEK_SET);
     if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
+        print_error_verbose(error, filename);
+        for (size_t i = 0; i < ncolumns; ++i){
+            free(*values[i]);
+            *values[i] = NULL;
+        }
         return EXIT_FAILURE;
     }
+    *len = counter;
+    return EXIT_SUCCESS;
+}
 
-    *values = (double *)coffe_malloc(sizeof(double)*counter);
-    counter = 0;
 
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#'){
-            *(*values + counter) = atof(temp_string);
-            ++counter;
-        }
-    }
+/**
+    reads file <filename> into array <values>
+    of length <len>
+**/
 
-    error = fclose(data);
-    if (error){
-        print_error_verbose(PROG_CLOSE_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-    return EXIT_SUCCESS;
+int read_1col(
+    const char *filename,
+    double **values,
+    size_t *len
+)
+{
+    double **columns[] = {values};
+    return read_columns(filename, 1, columns, len);
 }
 
 
@@ -177,60 +203,8 @@ int read_2col(
     size_t *len
 )
 {
-    int error = 0;
-    FILE *data = fopen(filename, "r");
-    if (data == NULL){
-        print_error_verbose(PROG_OPEN_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-    size_t n = 0;
-    char c, temp_string[COFFE_MAX_STRLEN];
-    char *temp_token;
-
-    while ((c=fgetc(data)) != EOF){
-        if (c == '\n') ++n;
-    }
-
-    error = fseek(data, 0, SEEK_SET);
-    if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-
-    size_t counter = 0;
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#') ++counter;
-    }
-    *len = counter;
-
-    error = fseek(data, 0, SEEK_SET);
-    if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-
-    *values1 = (double *)coffe_malloc(sizeof(double)*counter);
-    *values2 = (double *)coffe_malloc(sizeof(double)*counter);
-    counter = 0;
-
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#'){
-            temp_token = strtok(temp_string, ",\t: ");
-            *(*values1 + counter) = atof(temp_token);
-            temp_token = strtok(NULL, ",\t: ");
-            *(*values2 + counter) = atof(temp_token);
-            ++counter;
-        }
-    }
-
-    error = fclose(data);
-    if (error){
-        print_error_verbose(PROG_CLOSE_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-    return EXIT_SUCCESS;
+    double **columns[] = {values1, values2};
+    return read_columns(filename, 2, columns, len);
 }
 
 
-- 
2.43.0


From 1c131fd912ae85563daddde514f185101ed65b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 23/53] fix: stop when the file with a bias cannot be read

---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2e7f8f5..8d1fcad 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -252,12 +252,15 @@ static int parse_bias(
         double *redshifts, *values;
         size_t len;
         parse_string(conf, setting, filename, COFFE_TRUE);
-        read_2col(
+        if (read_2col(
             filename,
             &redshifts,
             &values,
             &len
-        );
+        ) != EXIT_SUCCESS){
+            print_error_verbose(PROG_READ_ERROR, filename);
+            exit(EXIT_FAILURE);
+        }
         coffe_init_spline(spline, redshifts, values, len, method);
         free(redshifts);
         free(values);
-- 
2.43.0


From 8f4a74cc599664ccee27eca681aca67b45068654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 24/53] fix: do not use the value of a setting which is missing
 or too long

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 8d1fcad..a0b837b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -115,7 +115,8 @@ static int parse_string(
 {
     const char *temp_value;
     int error = config_lookup_string(conf, setting, &temp_value);
-    strcpy(value, (char *)temp_value);
+    if (error == 1 && strlen(temp_value) >= COFFE_MAX_STRLEN) error = 0;
+    if (error == 1) strcpy(value, temp_value);
     if (safe == COFFE_TRUE){
         if (error != 1){
             fprintf(stderr,
-- 
2.43.0


From 6fc93a4235a9a5f2ef990ea37d381aa3b4f73a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 25/53] fix: use the default interpolation when the setting is
 missing

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index a0b837b..b6407d4 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1108,7 +1108,7 @@ int coffe_parser_init(
 
     /* the interpolation method for GSL */
     {
-    int temp;
+    int temp = (int)par->interp_method;
     parse_int(conf, "interpolation", &temp, COFFE_FALSE);
     par->interp_method = (enum coffe_interp1d_type)temp;
     }
-- 
2.43.0


From 2d7d3fe59659b8c94abb5c214ff95e3c2b29aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 26/53] fix: stop when an array in the settings is missing or
 malformed

---
 src/parser.c | 57 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index b6407d4..513957b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -164,6 +164,10 @@ static int parse_string_array(
 
     for (size_t i = 0; i < *values_len; ++i){
         temp_setting = config_setting_get_string_elem(type, i);
+        if (temp_setting == NULL){
+            print_error_verbose(PROG_VALUE_ERROR, setting);
+            exit(EXIT_FAILURE);
+        }
         (*values)[i] =
             (char *)coffe_malloc(sizeof(char)*(strlen(temp_setting) + 1));
         strcpy((char *)(*values)[i], temp_setting);
@@ -186,18 +190,27 @@ static int parse_int_array(
 {
     config_setting_t *type = config_lookup(conf, setting);
     if (type == NULL){
-        print_error(PROG_NULL_PARAM);
-        return EXIT_FAILURE;
+        print_error_verbose(PROG_PARSE_ERROR, setting);
+        exit(EXIT_FAILURE);
+    }
+    /* a single number is an array with one element */
+    const int is_scalar = config_setting_is_number(type);
+    *values_len = is_scalar ? 1 : (size_t)config_setting_length(type);
+    if (!*values_len){
+        print_error_verbose(PROG_VALUE_ERROR, setting);
+        exit(EXIT_FAILURE);
     }
-    *values_len = (size_t)config_setting_length(type);
 
     *values = (int *)coffe_malloc(sizeof(int) * *values_len);
 
-    int temp_value;
-
     for (size_t i = 0; i < *values_len; ++i){
-        temp_value = config_setting_get_int_elem(type, i);
-        *(*values + i) = temp_value;
+        config_setting_t *element =
+            is_scalar ? type : config_setting_get_elem(type, i);
+        if (!config_setting_is_number(element)){
+            print_error_verbose(PROG_VALUE_ERROR, setting);
+            exit(EXIT_FAILURE);
+        }
+        (*values)[i] = config_setting_get_int(element);
     }
     return EXIT_SUCCESS;
 }
@@ -217,18 +230,27 @@ static int parse_double_array(
 {
     config_setting_t *type = config_lookup(conf, setting);
     if (type == NULL){
-        print_error(PROG_NULL_PARAM);
-        return EXIT_FAILURE;
+        print_error_verbose(PROG_PARSE_ERROR, setting);
+        exit(EXIT_FAILURE);
+    }
+    /* a single number is an array with one element */
+    const int is_scalar = config_setting_is_number(type);
+    *values_len = is_scalar ? 1 : (size_t)config_setting_length(type);
+    if (!*values_len){
+        print_error_verbose(PROG_VALUE_ERROR, setting);
+        exit(EXIT_FAILURE);
     }
-    *values_len = (size_t)config_setting_length(type);
 
     *values = (double *)coffe_malloc(sizeof(double) * *values_len);
 
-    double temp_value;
-
     for (size_t i = 0; i < *values_len; ++i){
-        temp_value = config_setting_get_float_elem(type, i);
-        *(*values + i) = temp_value;
+        config_setting_t *element =
+            is_scalar ? type : config_setting_get_elem(type, i);
+        if (!config_setting_is_number(element)){
+            print_error_verbose(PROG_VALUE_ERROR, setting);
+            exit(EXIT_FAILURE);
+        }
+        (*values)[i] = config_setting_get_float(element);
     }
     return EXIT_SUCCESS;
 }
@@ -1432,11 +1454,14 @@ int coffe_parser_init(
     /* parsing the contributions to the correlation function and covariance */
     char **correlation_contributions = NULL;
     size_t correlation_contributions_len = 0;
-    parse_string_array(
+    if (parse_string_array(
         conf, "correlation_contributions",
         &correlation_contributions,
         &correlation_contributions_len
-    );
+    ) != EXIT_SUCCESS){
+        print_error_verbose(PROG_PARSE_ERROR, "correlation_contributions");
+        exit(EXIT_FAILURE);
+    }
 
     par->correlation_contrib.den = 0;
     par->correlation_contrib.rsd = 0;
-- 
2.43.0


From a58883d1ed1358db5847cae881c4123ba390ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 27/53] fix: compute the separations when only their step is
 set

---
 src/parser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 513957b..e958eed 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1181,7 +1181,17 @@ int coffe_parser_init(
         }
         if (par->sep_len)
             free(par->sep);
-        par->sep = coffe_generate_range(xmin, xmax, sampling);
+        if (error1 == EXIT_FAILURE && step > 0)
+            sampling = (int)ceil((xmax - xmin) / step);
+        if (sampling <= 0 || xmin < 0 || xmax <= xmin){
+            print_error_verbose(PROG_VALUE_ERROR, "separations");
+            exit(EXIT_FAILURE);
+        }
+        par->sep = coffe_generate_range(
+            xmin,
+            error1 == EXIT_FAILURE ? xmin + sampling * step : xmax,
+            sampling
+        );
         par->sep_len = (size_t)sampling;
     }
 
-- 
2.43.0


From 9bd86898a4c5d518ee4737026e4c97d06d487a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 28/53] fix: read the documented settings of the covariance of
 averaged multipoles

---
 src/parser.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index e958eed..041865d 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1158,7 +1158,8 @@ int coffe_parser_init(
         par->output_type == CORRFUNC ||
         par->output_type == MULTIPOLES ||
         par->output_type == AVERAGE_MULTIPOLES ||
-        par->output_type == COVARIANCE_MULTIPOLES
+        par->output_type == COVARIANCE_MULTIPOLES ||
+        par->output_type == COVARIANCE_AVERAGE_MULTIPOLES
     ){
         double xmin, xmax;
         parse_double(conf, "separations_min", &xmin, COFFE_TRUE);
@@ -1435,15 +1436,17 @@ int coffe_parser_init(
     }
 
     if (par->output_type == COVARIANCE_AVERAGE_MULTIPOLES){
+        free(par->zmin);
+        free(par->zmax);
         parse_double_array(
             conf,
-            "zmin",
+            config_lookup(conf, "zmin") ? "zmin" : "z_min",
             &par->zmin,
             &par->zmin_len
         );
         parse_double_array(
             conf,
-            "zmax",
+            config_lookup(conf, "zmax") ? "zmax" : "z_max",
             &par->zmax,
             &par->zmax_len
         );
@@ -1451,7 +1454,8 @@ int coffe_parser_init(
             par->density1_len != par->fsky_len ||
             par->density1_len != par->density2_len ||
             par->density1_len != par->zmin_len ||
-            par->density1_len != par->zmax_len
+            par->density1_len != par->zmax_len ||
+            par->density1_len != par->pixelsize_len
         ){
             fprintf(
                 stderr,
-- 
2.43.0


From 560d134d02ecdc7e1c3bca9358e58b7ddf5018d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 29/53] fix: stop when z_min and z_max have different lengths

---
 src/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 041865d..d488a74 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1126,6 +1126,10 @@ int coffe_parser_init(
     if (par->output_type == AVERAGE_MULTIPOLES){
         parse_double_array(conf, "z_min", &par->zmin, &par->zmin_len);
         parse_double_array(conf, "z_max", &par->zmax, &par->zmax_len);
+        if (par->zmin_len != par->zmax_len){
+            print_error_verbose(PROG_VALUE_ERROR, "z_min, z_max");
+            exit(EXIT_FAILURE);
+        }
     }
 
     /* the interpolation method for GSL */
-- 
2.43.0


From 14dd4bb5e1d2317b553aa234c1a690a3d97f7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 30/53] fix: replace old results, and report the ones which
 cannot be written

---
 src/common.c | 55 +++++++++++++++++++++-----------------
 src/common.h |  5 ++++
 src/main.c   |  4 +--
 src/output.c | 75 +++++++++++++++++++++++++++++++++++-----------------
 4 files changed, 89 insertions(+), 50 deletions(-)

diff --git a/src/common.c b/src/common.c
index 4614fed..947c4d6 100644
--- a/src/common.c
+++ b/src/common.c
@@ -208,6 +208,30 @@ int read_2col(
 }
 
 
+/**
+    closes the file <data> (with name <filename>), which was written to;
+    fails if any part of it could not be written
+**/
+
+int coffe_close_output(
+    FILE *data,
+    const char *filename
+)
+{
+    const int error_write = ferror(data);
+    const int error_close = fclose(data);
+    if (error_write){
+        print_error_verbose(PROG_WRITE_ERROR, filename);
+        return EXIT_FAILURE;
+    }
+    if (error_close){
+        print_error_verbose(PROG_CLOSE_ERROR, filename);
+        return EXIT_FAILURE;
+    }
+    return EXIT_SUCCESS;
+}
+
+
 /**
     writes array <values> of length <len>
     into file <filename> with header <header>
@@ -220,7 +244,6 @@ int write_1col(
     const char *header
 )
 {
-    int error = 0;
     FILE *data = fopen(filename, "w");
     if (data == NULL){
         print_error_verbose(PROG_OPEN_ERROR, filename);
@@ -233,12 +256,7 @@ int write_1col(
     for (size_t i = 0; i<len; ++i)
         fprintf(data, "%.15e\n", values[i]);
 
-    error = fclose(data);
-    if (error){
-        print_error_verbose(PROG_CLOSE_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-    return EXIT_SUCCESS;
+    return coffe_close_output(data, filename);
 }
 
 
@@ -257,7 +275,6 @@ int write_2col(
     const char *sep
 )
 {
-    int error = 0;
     FILE *data = fopen(filename, "w");
     if (data == NULL){
         print_error_verbose(PROG_OPEN_ERROR, filename);
@@ -270,12 +287,7 @@ int write_2col(
     for (size_t i = 0; i<len; ++i)
         fprintf(data, "%.15e%s%.15e\n", values1[i], sep, values2[i]);
 
-    error = fclose(data);
-    if (error){
-        print_error_verbose(PROG_CLOSE_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-    return EXIT_SUCCESS;
+    return coffe_close_output(data, filename);
 }
 
 
@@ -325,12 +337,8 @@ int write_ncol(
             }
         }
     }
-    fclose(data);
-    for (size_t i = 0; i<ncolumns; ++i){
-        all_values[i] = NULL;
-    }
     free(all_values);
-    return EXIT_SUCCESS;
+    return coffe_close_output(data, filename);
 }
 
 
@@ -350,6 +358,7 @@ int write_ncol_null(
 {
     va_list args;
     va_start(args, values);
+    int error = EXIT_SUCCESS;
     size_t counter = 0;
     double **all_values = (double **)coffe_malloc(sizeof(double *)*COFFE_MAX_ALLOCABLE);
     all_values[0] = (double *)values;
@@ -365,6 +374,7 @@ int write_ncol_null(
         FILE *data = fopen(filename, "w");
         if (data == NULL){
             print_error_verbose(PROG_OPEN_ERROR, filename);
+            free(all_values);
             return EXIT_FAILURE;
         }
         if (header != NULL) fprintf(data, "%s", header);
@@ -377,13 +387,10 @@ int write_ncol_null(
                     fprintf(data, "%.10e%s\n", all_values[j][i], sep);
             }
         }
-        fclose(data);
-    }
-    for (size_t i = 0; i<counter; ++i){
-        all_values[i] = NULL;
+        error = coffe_close_output(data, filename);
     }
     free(all_values);
-    return EXIT_SUCCESS;
+    return error;
 }
 
 
diff --git a/src/common.h b/src/common.h
index c2a7c60..35b5d94 100644
--- a/src/common.h
+++ b/src/common.h
@@ -595,6 +595,11 @@ int write_ncol(
     ...
 );
 
+int coffe_close_output(
+    FILE *data,
+    const char *filename
+);
+
 int write_ncol_null(
     const char *filename,
     size_t len,
diff --git a/src/main.c b/src/main.c
index b633b6e..b7be3a8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -159,7 +159,7 @@ int main(int argc, char *argv[])
     )
         coffe_covariance_init(&par, &bg, &cov_mp, &cov_ramp);
 
-    coffe_output_init(
+    const int error = coffe_output_init(
         &par, &bg,
 #ifdef HAVE_INTEGRALS
         &integral,
@@ -190,5 +190,5 @@ int main(int argc, char *argv[])
         printf("Total program runtime is: %.2f s\n",
             (double)(end - start) / CLOCKS_PER_SEC);
 
-    return EXIT_SUCCESS;
+    return error;
 }
diff --git a/src/output.c b/src/output.c
index 6623d99..2820818 100644
--- a/src/output.c
+++ b/src/output.c
@@ -116,8 +116,12 @@ static int output_corrfunc(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, sep, mu, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
-    fprintf(data, header);
+    FILE *data = fopen(filepath, "w");
+    if (data == NULL){
+        print_error_verbose(PROG_OPEN_ERROR, filepath);
+        return EXIT_FAILURE;
+    }
+    fprintf(data, "%s", header);
 
     for (size_t i = 0; i < cf->size; ++i){
         fprintf(
@@ -129,8 +133,7 @@ static int output_corrfunc(
             cf->array[i].value
         );
     }
-    fclose(data);
-    return EXIT_SUCCESS;
+    return coffe_close_output(data, filepath);
 }
 
 
@@ -149,8 +152,12 @@ static int output_multipoles(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, l, sep, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
-    fprintf(data, header);
+    FILE *data = fopen(filepath, "w");
+    if (data == NULL){
+        print_error_verbose(PROG_OPEN_ERROR, filepath);
+        return EXIT_FAILURE;
+    }
+    fprintf(data, "%s", header);
 
     for (size_t i = 0; i < mp->size; ++i){
         fprintf(
@@ -162,9 +169,7 @@ static int output_multipoles(
             mp->array[i].value
         );
     }
-    fclose(data);
-
-    return EXIT_SUCCESS;
+    return coffe_close_output(data, filepath);
 }
 
 
@@ -175,7 +180,11 @@ static int output_covariance(
 )
 {
     char header[COFFE_MAX_STRLEN];
-    FILE *output = fopen(filepath, "a");
+    FILE *output = fopen(filepath, "w");
+    if (output == NULL){
+        print_error_verbose(PROG_OPEN_ERROR, filepath);
+        return EXIT_FAILURE;
+    }
     snprintf(
         header, COFFE_MAX_STRLEN,
         "# correlation contributions: "
@@ -183,7 +192,7 @@ static int output_covariance(
     output_correlation_contributions_header(cc, header);
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, l1, l2, sep1, sep2, value\n", COFFE_MAX_STRLEN);
-    fprintf(output, header);
+    fprintf(output, "%s", header);
 
     for (size_t i = 0; i < cov->size; ++i){
         fprintf(
@@ -197,9 +206,7 @@ static int output_covariance(
             cov->array[i].value
         );
     }
-    fclose(output);
-
-    return EXIT_SUCCESS;
+    return coffe_close_output(output, filepath);
 }
 
 
@@ -288,7 +295,7 @@ static int output_background(
     strncat(header, "\n", COFFE_MAX_STRLEN);
 
     // I'm not proud of the way I handle this...
-    write_ncol_null(
+    const int error = write_ncol_null(
         filename,
         par->background_bins,
         header,
@@ -317,7 +324,7 @@ static int output_background(
     for (size_t i = 0; i<20; ++i){
         free(outputs[i]);
     }
-    return EXIT_SUCCESS;
+    return error;
 }
 
 int coffe_output_init(
@@ -338,8 +345,11 @@ int coffe_output_init(
 
     char filepath[COFFE_MAX_STRLEN];
     char prefix[COFFE_MAX_STRLEN];
+#ifdef HAVE_INTEGRALS
     char header[COFFE_MAX_STRLEN];
-    output_make_path(par->output_path);
+#endif
+    if (output_make_path(par->output_path) != EXIT_SUCCESS)
+        return EXIT_FAILURE;
 
     if (strcmp(par->output_prefix, "$TIME") == 0){
         snprintf(prefix, COFFE_MAX_STRLEN, "%s%s_", par->output_path, par->timestamp);
@@ -353,29 +363,41 @@ int coffe_output_init(
 
     /* settings file copy */
     snprintf(filepath, COFFE_MAX_STRLEN, "%ssettings.cfg", prefix);
-    if (par->conf != NULL)
-        config_write_file(par->conf, filepath);
+    if (par->conf != NULL){
+        FILE *settings = fopen(filepath, "w");
+        if (settings == NULL){
+            print_error_verbose(PROG_OPEN_ERROR, filepath);
+            return EXIT_FAILURE;
+        }
+        config_write(par->conf, settings);
+        if (coffe_close_output(settings, filepath) != EXIT_SUCCESS)
+            return EXIT_FAILURE;
+    }
 
     /* background */
     snprintf(filepath, COFFE_MAX_STRLEN, "%sbackground.dat", prefix);
-    output_background(filepath, "\t", par, bg);
+    if (output_background(filepath, "\t", par, bg) != EXIT_SUCCESS)
+        return EXIT_FAILURE;
 
     /* correlation function (full) */
     if (par->output_type == CORRFUNC){
         snprintf(filepath, COFFE_MAX_STRLEN, "%scorrfunc.dat", prefix);
-        output_corrfunc(filepath, par->correlation_contrib, cf);
+        if (output_corrfunc(filepath, par->correlation_contrib, cf) != EXIT_SUCCESS)
+            return EXIT_FAILURE;
     }
 
     /* multipoles */
     else if (par->output_type == MULTIPOLES){
         snprintf(filepath, COFFE_MAX_STRLEN, "%smultipoles.dat", prefix);
-        output_multipoles(filepath, par->correlation_contrib, mp);
+        if (output_multipoles(filepath, par->correlation_contrib, mp) != EXIT_SUCCESS)
+            return EXIT_FAILURE;
     }
 
     /* covariance of multipoles */
     else if (par->output_type == COVARIANCE_MULTIPOLES){
         snprintf(filepath, COFFE_MAX_STRLEN, "%scovariance_multipoles.dat", prefix);
-        output_covariance(filepath, par->correlation_contrib, cov_mp);
+        if (output_covariance(filepath, par->correlation_contrib, cov_mp) != EXIT_SUCCESS)
+            return EXIT_FAILURE;
     }
 
     else if (par->output_type == COVARIANCE_AVERAGE_MULTIPOLES){
@@ -385,6 +407,10 @@ int coffe_output_init(
         );
 
         FILE *output = fopen(filepath, "w");
+        if (output == NULL){
+            print_error_verbose(PROG_OPEN_ERROR, filepath);
+            return EXIT_FAILURE;
+        }
         fprintf(output, "# sep[Mpc/h]\tsep[Mpc/h]\tresult\n");
 
         for (size_t i = 0; i < cov_ramp->size; ++i){
@@ -400,7 +426,8 @@ int coffe_output_init(
                 cov_ramp->array[i].value
             );
         }
-        fclose(output);
+        if (coffe_close_output(output, filepath) != EXIT_SUCCESS)
+            return EXIT_FAILURE;
     }
 
 #ifdef HAVE_INTEGRALS
-- 
2.43.0


From b8da0c832c63d5cc001e6363e5f737972f7b6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 31/53] fix: do not fail when another process creates the
 output directory

---
 src/output.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 2820818..3f5541d 100644
--- a/src/output.c
+++ b/src/output.c
@@ -16,6 +16,7 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <time.h>
@@ -65,7 +66,8 @@ static int output_make_path(char *path)
         while (current_dir != NULL){
             strncat(temp_output, current_dir, COFFE_MAX_STRLEN);
             if (stat(temp_output, &temp_status) == -1){
-                if (mkdir(temp_output, 0700) != 0){
+                /* another process may have created it in the meantime */
+                if (mkdir(temp_output, 0700) != 0 && errno != EEXIST){
                     print_error(PROG_MKDIR_ERROR);
                     return EXIT_FAILURE;
                 }
-- 
2.43.0


From c1f036fce185907f4225577673d42a6c70142ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 32/53] fix: write the redshift averaged multipoles

---
 src/main.c   |  2 ++
 src/output.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/main.c b/src/main.c
index b7be3a8..555bad6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -179,6 +179,8 @@ int main(int argc, char *argv[])
 
     coffe_multipoles_free(&mp);
 
+    coffe_average_multipoles_free(&ramp);
+
     coffe_covariance_free(&cov_mp);
 
     coffe_average_covariance_free(&cov_ramp);
diff --git a/src/output.c b/src/output.c
index 3f5541d..9ffb191 100644
--- a/src/output.c
+++ b/src/output.c
@@ -175,6 +175,41 @@ static int output_multipoles(
 }
 
 
+static int output_average_multipoles(
+    const char *filepath,
+    const struct coffe_correlation_contributions cc,
+    const coffe_average_multipoles_array_t *ramp
+)
+{
+    char header[COFFE_MAX_STRLEN];
+    snprintf(
+        header, COFFE_MAX_STRLEN,
+        "# correlation contributions: "
+    );
+    output_correlation_contributions_header(cc, header);
+
+    FILE *data = fopen(filepath, "w");
+    if (data == NULL){
+        print_error_verbose(PROG_OPEN_ERROR, filepath);
+        return EXIT_FAILURE;
+    }
+    fprintf(data, "%s\n# z_min, z_max, l, sep, value\n", header);
+
+    for (size_t i = 0; i < ramp->size; ++i){
+        fprintf(
+            data,
+            "%.10e %.10e %d %.10e %.10e\n",
+            ramp->array[i].coords.z_min,
+            ramp->array[i].coords.z_max,
+            ramp->array[i].coords.l,
+            ramp->array[i].coords.separation,
+            ramp->array[i].value
+        );
+    }
+    return coffe_close_output(data, filepath);
+}
+
+
 static int output_covariance(
     const char *filepath,
     const struct coffe_correlation_contributions cc,
@@ -395,6 +430,13 @@ int coffe_output_init(
             return EXIT_FAILURE;
     }
 
+    /* redshift averaged multipoles */
+    else if (par->output_type == AVERAGE_MULTIPOLES){
+        snprintf(filepath, COFFE_MAX_STRLEN, "%saverage_multipoles.dat", prefix);
+        if (output_average_multipoles(filepath, par->correlation_contrib, ramp) != EXIT_SUCCESS)
+            return EXIT_FAILURE;
+    }
+
     /* covariance of multipoles */
     else if (par->output_type == COVARIANCE_MULTIPOLES){
         snprintf(filepath, COFFE_MAX_STRLEN, "%scovariance_multipoles.dat", prefix);
-- 
2.43.0


From 8dba5e7f85173afb632d5f30f798aeb10677819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 33/53] fix: do not truncate the names of the files

---
 src/main.c   |  4 ++++
 src/output.c | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/main.c b/src/main.c
index 555bad6..4eda3d2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -96,6 +96,10 @@ int main(int argc, char *argv[])
         return EXIT_SUCCESS;
     }
     else{
+        if (strlen(settings_opt) >= COFFE_MAX_STRLEN){
+            print_error_verbose(PROG_OPEN_ERROR, settings_opt);
+            return EXIT_FAILURE;
+        }
         strncpy(settings_file, settings_opt, COFFE_MAX_STRLEN);
     }
     clock_t start, end;
diff --git a/src/output.c b/src/output.c
index 9ffb191..acbe092 100644
--- a/src/output.c
+++ b/src/output.c
@@ -385,6 +385,11 @@ int coffe_output_init(
 #ifdef HAVE_INTEGRALS
     char header[COFFE_MAX_STRLEN];
 #endif
+    /* leave room for the trailing slash */
+    if (strlen(par->output_path) + 2 > COFFE_MAX_STRLEN){
+        print_error_verbose(PROG_OPEN_ERROR, par->output_path);
+        return EXIT_FAILURE;
+    }
     if (output_make_path(par->output_path) != EXIT_SUCCESS)
         return EXIT_FAILURE;
 
@@ -395,6 +400,13 @@ int coffe_output_init(
         snprintf(prefix, COFFE_MAX_STRLEN, "%s%s", par->output_path, par->output_prefix);
     }
 
+    /* the longest of the names below has to fit as well, otherwise all of
+    them would be the same file */
+    if (strlen(prefix) + strlen("covariance_average_multipoles.dat") >= COFFE_MAX_STRLEN){
+        print_error_verbose(PROG_OPEN_ERROR, prefix);
+        return EXIT_FAILURE;
+    }
+
     if (par->verbose)
         printf("Writing output to \"%s\"...\n", prefix);
 
-- 
2.43.0


From ae76e1322f7793cf3bbfdbe2322c3f47b3a4291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 34/53] fix: report unknown background quantities instead of
 dropping the ones which follow

---
 src/output.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index acbe092..e7edd3c 100644
--- a/src/output.c
+++ b/src/output.c
@@ -263,7 +263,12 @@ static int output_background(
     char temp_header[COFFE_MAX_STRLEN];
 
     strncat(header, "# ", COFFE_MAX_STRLEN);
+    /* an unknown quantity would end the list of the columns below */
     for (size_t i = 0; i < par->type_bg_len; ++i){
+        if (i >= COFFE_ARRAY_SIZE(outputs)){
+            print_error_verbose(PROG_VALUE_ERROR, "output_background");
+            return EXIT_FAILURE;
+        }
         if (strcmp(par->type_bg[i], "z") == 0){
             outputs[i] = (double *)coffe_malloc(sizeof(double)*bg->a.spline->size);
             for (size_t n = 0; n<bg->a.spline->size; ++n){
@@ -272,7 +277,7 @@ static int output_background(
             snprintf(temp_header, COFFE_MAX_STRLEN, "%zu)%s%s", i + 1, par->type_bg[i], sep);
             strncat(header, temp_header, COFFE_MAX_STRLEN);
         }
-        if (strcmp(par->type_bg[i], "a") == 0){
+        else if (strcmp(par->type_bg[i], "a") == 0){
             outputs[i] = (double *)coffe_malloc(sizeof(double)*bg->a.spline->size);
             for (size_t n = 0; n<bg->a.spline->size; ++n){
                 outputs[i][n] = bg->a.spline->y[n];
@@ -328,6 +333,10 @@ static int output_background(
             snprintf(temp_header, COFFE_MAX_STRLEN, "%zu)%s[Mpc]%s", i + 1, par->type_bg[i], sep);
             strncat(header, temp_header, COFFE_MAX_STRLEN);
         }
+        else{
+            print_error_verbose(PROG_VALUE_ERROR, par->type_bg[i]);
+            return EXIT_FAILURE;
+        }
     }
     strncat(header, "\n", COFFE_MAX_STRLEN);
 
-- 
2.43.0


From 08ef429f3cc89c78c5207a54b2c043d6109e13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 35/53] fix: do not read the last separation when there are
 none

---
 src/background.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/background.c b/src/background.c
index 9845cde..fc9ff3c 100644
--- a/src/background.c
+++ b/src/background.c
@@ -636,7 +636,7 @@ int coffe_background_init(
     gsl_spline_free(ipar.xint.spline), gsl_interp_accel_free(ipar.xint.accel);
 
     /* this should maybe be placed in some other module as to not bloat this one */
-    if (par->flatsky_nonlocal && par->z_mean_len){
+    if (par->flatsky_nonlocal && par->z_mean_len && par->sep_len){
 
         coffe_get_bias_coefficients(
             &bg->comoving_distance, &bg->z_as_chi,
-- 
2.43.0


From 1adc6edbdbab59d968d77b9d64e25e5cc911491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 36/53] fix: free the fit coefficients of the biases

---
 src/background.c | 3 +++
 src/common.c     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/background.c b/src/background.c
index fc9ff3c..ed7b855 100644
--- a/src/background.c
+++ b/src/background.c
@@ -92,6 +92,9 @@ int coffe_get_bias_coefficients(
     coffe_fit_coefficients_array_t *bias_coefficients
 )
 {
+    /* the ones which were computed previously */
+    coffe_free_fit_coefficients_array(bias_coefficients);
+
     bias_coefficients->size = z_mean_size;
     bias_coefficients->array = (coffe_fit_coefficients_t *)coffe_malloc(
         sizeof(coffe_fit_coefficients_t) * bias_coefficients->size
diff --git a/src/common.c b/src/common.c
index 947c4d6..d00e755 100644
--- a/src/common.c
+++ b/src/common.c
@@ -781,6 +781,8 @@ int coffe_parameters_free(
         coffe_free_fit_coefficients_array(&par->galaxy_bias2_coefficients);
         coffe_free_fit_coefficients_array(&par->magnification_bias1_coefficients);
         coffe_free_fit_coefficients_array(&par->magnification_bias2_coefficients);
+        coffe_free_fit_coefficients_array(&par->evolution_bias1_coefficients);
+        coffe_free_fit_coefficients_array(&par->evolution_bias2_coefficients);
 
         par->flag = 0;
     }
@@ -1265,7 +1267,9 @@ int coffe_free_fit_coefficients_array(
     if (input->size){
         for (size_t i = 0; i < input->size; ++i)
             coffe_free_fit_coefficients(&input->array[i]);
+        free(input->array);
     }
+    input->array = NULL;
     input->size = 0;
 
     return EXIT_SUCCESS;
-- 
2.43.0


From 63e156352b893a0720f49489301d47741a4f7d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 37/53] fix: refuse multipoles whose flat-sky lensing integrals
 do not exist

---
 python/coffe/coffe.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 419d7ff..2532247 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3350,6 +3350,17 @@ cdef class Coffe:
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('l', l, (int,), 0, 10)
 
+        # the flat-sky lensing integrals exist only for the multipoles in `l`
+        if (
+            self.has_lensing and l % 2 == 0 and l not in self.l and (
+                (self.has_flatsky_nonlocal and not self.has_only_cross_correlations) or
+                (self.has_flatsky_local_nonlocal and self.has_density)
+            )
+        ):
+            raise ValueError(
+                f'The flat-sky lensing terms are only available for multipoles in `l`, cannot compute l = {l}'
+            )
+
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
 
-- 
2.43.0


From ad979f5d41108139f50439c2bf7ae6db3d804fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:46 +0000
Subject: [PATCH 38/53] fix: refuse NaN where a number in a range is needed

---
 python/coffe/coffe.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2532247..a4cad78 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -98,6 +98,12 @@ def _check_parameter(
             f'Expected {kind}, got {type(value)}'
         )
 
+    # NaN compares false with everything, so it would pass the checks below
+    if value != value:
+        raise ValueError(
+            f'Value {value} is not a number'
+        )
+
     if xmin is not None and value < xmin:
         raise ValueError(
             f'Value {value} smaller than xmin ({xmin})'
-- 
2.43.0


From d0400dd4fe213347b163d62d7831ad40af7ff810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 39/53] fix: refuse to evaluate a non-linear spectrum which
 does not exist

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index a4cad78..66f54e1 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2963,6 +2963,11 @@ cdef class Coffe:
                 ccoffe.coffe_interp_spline(&self._parameters.power_spectrum, k)
                *ccoffe.coffe_interp_spline(&self._background.D1, z)**2
             )
+        # a spectrum set by the user has no non-linear counterpart
+        if self._parameters.power_spectrum2d.spline == NULL:
+            raise ValueError(
+                'The non-linear power spectrum is not available when using an external linear one'
+            )
         return ccoffe.coffe_interp_spline2d(&self._parameters.power_spectrum2d, z, k)
 
 
-- 
2.43.0


From dc53b0b84b8835c0338306b4249c542b9b594a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 40/53] fix: setting h to zero does not modify the object

---
 python/coffe/coffe.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 66f54e1..9084977 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1304,10 +1304,12 @@ cdef class Coffe:
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
         if value != self.h:
+            # little omega(nu) doesn't change with h, but big omega(nu) does
+            # (computed first, as it's undefined for h = 0)
+            omega_nu = self.m_ncdm / 93.14 / value / value
             # setting the old value equal to the new value of h
             self._parameters.h = value
-            # little omega(nu) doesn't change with h, but big omega(nu) does
-            self._parameters.Omega0_nu = self.m_ncdm / 93.14 / self.h / self.h
+            self._parameters.Omega0_nu = omega_nu
             self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
-- 
2.43.0


From 6c365dbf39fe8ca04032f988884a8422a63cc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:32 +0000
Subject: [PATCH 41/53] fix: read the densities in an order in which each of
 them is allowed

---
 python/coffe/coffe.pyx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 9084977..cbf01e8 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -698,10 +698,19 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
 
+        # the densities are limited by each other, so the baryons (which are a
+        # part of the matter) come first, and whatever decreases goes before
+        # whatever increases
+        if "omega_baryon" in config:
+            cosmo.omega_baryon = config.getfloat("omega_baryon")
+        options_density = [_ for _ in ["omega_m", "omega_gamma"] if _ in config]
+        for option in sorted(
+            options_density,
+            key=lambda _: config.getfloat(_) - getattr(cosmo, _),
+        ):
+            setattr(cosmo, option, config.getfloat(option))
+
         options_float = [
-            "omega_m",
-            "omega_baryon",
-            "omega_gamma",
             "w0",
             "wa",
             "h",
-- 
2.43.0


From c5764fc6c02143edb19a81b704541ffb98f2ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 42/53] fix: read empty lists from the configuration file

---
 python/coffe/coffe.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index cbf01e8..8217042 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -65,13 +65,15 @@ class CoffeConfigParser(ConfigParser):
         """
         Converts the value of the option to a list of floats
         """
-        return [float(_) for _ in self.get(section, option).strip("[]").split(",")]
+        value = self.get(section, option).strip("[] ")
+        return [float(_) for _ in value.split(",")] if value else []
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        return [int(_) for _ in self.get(section, option).strip("[]").split(",")]
+        value = self.get(section, option).strip("[] ")
+        return [int(_) for _ in value.split(",")] if value else []
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
-- 
2.43.0


From d2b0d1d6b704b220da9700f39da1f72b4faae34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 43/53] fix: the renormalisation table reaches all the
 redshifts it is needed for

compute_average_multipoles_bulk with a potential term ended the process when
z_max was beyond z_mean + deltaz.
---
 python/coffe/coffe.pyx |  3 +++
 src/integrals.c        | 32 ++++++++++----------------------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8217042..bcdcdf0 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2154,6 +2154,9 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
+        # the renormalization terms depend on the maximum redshift
+        if self._parameters.divergent:
+            self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_average_multipoles()
diff --git a/src/integrals.c b/src/integrals.c
index a946dc3..2efbe59 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -855,29 +855,17 @@ int coffe_integrals_init(
 
             double chi_min = 0.;
             double chi_max = 0.;
-            if (
-                par->output_type == CORRFUNC ||
-                par->output_type == MULTIPOLES
-            ){
-                /* dimensionless */
-                double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
-                /* there may be fewer values of deltaz than of z_mean */
-                for (size_t i = 0; i < par->z_mean_len; ++i)
-                    temp[i] = par->z_mean[i]
-                        + (i < par->deltaz_len ? par->deltaz[i] : 0);
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(temp, par->z_mean_len)
+            /* dimensionless; the table has to reach all the redshifts */
+            double z_far = 0.;
+            /* there may be fewer values of deltaz than of z_mean */
+            for (size_t i = 0; i < par->z_mean_len; ++i)
+                z_far = fmax(
+                    z_far,
+                    par->z_mean[i] + (i < par->deltaz_len ? par->deltaz[i] : 0)
                 );
-                free(temp);
-            }
-            else if (par->output_type == AVERAGE_MULTIPOLES){
-                /* dimensionless */
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(par->zmax, par->zmax_len)
-                );
-            }
+            for (size_t i = 0; i < par->zmax_len; ++i)
+                z_far = fmax(z_far, par->zmax[i]);
+            chi_max = coffe_interp_spline(&bg->comoving_distance, z_far);
             double *chi_array = (double *)coffe_malloc(
                 sizeof(double) * (nbins + 1)
             );
-- 
2.43.0


From 95ca15aafb64e4993652e3d26848b9ed0113e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:16 +0000
Subject: [PATCH 44/53] fix: refuse wavenumbers which are not positive

The integrals over such a spectrum ended the process (GSL abort).
---
 python/coffe/coffe.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index bcdcdf0..613e232 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3056,6 +3056,8 @@ cdef class Coffe:
         k_values = [float(_) for _ in k]
         pk_values = [float(_) for _ in pk]
         _check_spline_sampling(k_values, pk_values, self._parameters.interp_method)
+        if not k_values[0] > 0:
+            raise ValueError('The wavenumbers must be positive')
 
         self._free_power_spectrum()
 
-- 
2.43.0


From 192aab07dabb9d76669f6268d307583c628046b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:28 +0000
Subject: [PATCH 45/53] fix: refuse the settings if libconfig lost a name to a
 failed allocation

---
 src/parser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index d488a74..5cb8861 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1080,6 +1080,17 @@ int coffe_parser_init(
         exit(EXIT_FAILURE);
     }
 
+    /* libconfig loses the name of a setting if it runs out of memory */
+    {
+        const config_setting_t *root = config_root_setting(conf);
+        for (int i = 0; i < config_setting_length(root); ++i){
+            if (config_setting_name(config_setting_get_elem(root, (unsigned int)i)) == NULL){
+                print_error(PROG_ALLOC_ERROR);
+                exit(EXIT_FAILURE);
+            }
+        }
+    }
+
     clock_t start, end;
 
     start = clock();
-- 
2.43.0


From ad053a6a79906c37a2aa8ea05f8c91d51def9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 46/53] fix: a failed allocation while reading a table is not a
 damaged table

---
 src/common.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common.c b/src/common.c
index d00e755..6232b01 100644
--- a/src/common.c
+++ b/src/common.c
@@ -17,6 +17,7 @@
 */
 
 #include <stdio.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
@@ -115,9 +116,13 @@ static int read_columns(
     size_t *len
 )
 {
+    errno = 0;
     FILE *data = fopen(filename, "r");
     if (data == NULL){
+        const int error_open = errno;
         print_error_verbose(PROG_OPEN_ERROR, filename);
+        /* nothing is wrong with the file */
+        if (error_open == ENOMEM) exit(EXIT_FAILURE);
         return EXIT_FAILURE;
     }
 
@@ -158,6 +163,7 @@ static int read_columns(
         ++counter;
     }
 
+    if (!error && !feof(data) && errno == ENOMEM) error = PROG_ALLOC_ERROR;
     if (!error && (!feof(data) || counter == 0)) error = PROG_READ_ERROR;
     if (fclose(data) && !error) error = PROG_CLOSE_ERROR;
     free(line);
@@ -168,6 +174,8 @@ static int read_columns(
             free(*values[i]);
             *values[i] = NULL;
         }
+        /* nothing is wrong with the file */
+        if (error == PROG_ALLOC_ERROR) exit(EXIT_FAILURE);
         return EXIT_FAILURE;
     }
     *len = counter;
-- 
2.43.0


From 2fc7455808741ec20e4ed0ba1c32d6b9c302dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:22 +0000
Subject: [PATCH 47/53] fix: refuse optional settings, and lists, of the wrong
 type instead of using the defaults

---
 src/parser.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 5cb8861..8a6c2cf 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -62,7 +62,7 @@ static int parse_double(
 )
 {
     int error = config_lookup_float(conf, setting, value);
-    if (safe == COFFE_TRUE){
+    if (safe == COFFE_TRUE || config_lookup(conf, setting) != NULL){
         if (error != 1){
             fprintf(stderr,
                 "ERROR: cannot parse value of setting %s\n",
@@ -89,7 +89,7 @@ static int parse_int(
 )
 {
     int error = config_lookup_int(conf, setting, value);
-    if (safe == COFFE_TRUE){
+    if (safe == COFFE_TRUE || config_lookup(conf, setting) != NULL){
         if (error != 1){
             fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
             exit(EXIT_FAILURE);
@@ -117,7 +117,7 @@ static int parse_string(
     int error = config_lookup_string(conf, setting, &temp_value);
     if (error == 1 && strlen(temp_value) >= COFFE_MAX_STRLEN) error = 0;
     if (error == 1) strcpy(value, temp_value);
-    if (safe == COFFE_TRUE){
+    if (safe == COFFE_TRUE || config_lookup(conf, setting) != NULL){
         if (error != 1){
             fprintf(stderr,
                 "ERROR: cannot parse value of setting %s\n", setting);
@@ -152,6 +152,10 @@ static int parse_string_array(
         print_error(PROG_NULL_PARAM);
         return EXIT_FAILURE;
     }
+    if (!config_setting_is_array(type) && !config_setting_is_list(type)){
+        print_error_verbose(PROG_VALUE_ERROR, setting);
+        exit(EXIT_FAILURE);
+    }
     *values_len = (size_t)config_setting_length(type);
 
     *values = (char **)malloc(sizeof(char *) * *values_len);
@@ -196,7 +200,7 @@ static int parse_int_array(
     /* a single number is an array with one element */
     const int is_scalar = config_setting_is_number(type);
     *values_len = is_scalar ? 1 : (size_t)config_setting_length(type);
-    if (!*values_len){
+    if (!*values_len || config_setting_is_group(type)){
         print_error_verbose(PROG_VALUE_ERROR, setting);
         exit(EXIT_FAILURE);
     }
@@ -236,7 +240,7 @@ static int parse_double_array(
     /* a single number is an array with one element */
     const int is_scalar = config_setting_is_number(type);
     *values_len = is_scalar ? 1 : (size_t)config_setting_length(type);
-    if (!*values_len){
+    if (!*values_len || config_setting_is_group(type)){
         print_error_verbose(PROG_VALUE_ERROR, setting);
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From 044d2dc0590c1b83a72e926efa84c41c5b8d8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:26 +0000
Subject: [PATCH 48/53] fix: a table which holds nan or infinity is damaged

---
 src/common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 6232b01..370e18f 100644
--- a/src/common.c
+++ b/src/common.c
@@ -24,6 +24,7 @@
 #include <stdarg.h>
 #include <math.h>
 #include <gsl/gsl_version.h>
+#include <gsl/gsl_math.h>
 #include <gsl/gsl_interp.h>
 #include <gsl/gsl_interp2d.h>
 #include <gsl/gsl_integration.h>
@@ -155,7 +156,11 @@ static int read_columns(
             char *end;
             (*values[i])[counter] = strtod(current, &end);
             /* every column must be a number, up to the next separator */
-            if (end == current || strchr(",\t: \r\n", *end) == NULL)
+            if (
+                end == current ||
+                strchr(",\t: \r\n", *end) == NULL ||
+                !gsl_finite((*values[i])[counter])
+            )
                 error = PROG_READ_ERROR;
             else
                 current = end + strspn(end, ",\t: \r\n");
-- 
2.43.0


From 13e1616059d598af45d25015124bafa14595d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:31 +0000
Subject: [PATCH 49/53] fix: refuse samplings of the biases and the power
 spectrum which are not finite

---
 python/coffe/coffe.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 613e232..7378e2d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -184,6 +184,8 @@ def _check_spline_sampling(x_values, y_values, interp1d_type):
         raise ValueError(
             f'At least {size} points are needed for the interpolation, got {len(x_values)}'
         )
+    if not np.all(np.isfinite(x_values)) or not np.all(np.isfinite(y_values)):
+        raise ValueError('The input arrays must only contain finite values')
     if not all(x_values[i] < x_values[i + 1] for i in range(len(x_values) - 1)):
         raise ValueError('The input array must be strictly increasing')
 
-- 
2.43.0


From ff330c1075ff1728c4b7e82a0d8dd0dd38482f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 50/53] fix: refuse lists in a configuration file which are cut
 off or missing

---
 python/coffe/coffe.pyx | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 7378e2d..910cd64 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -61,27 +61,36 @@ class CoffeConfigParser(ConfigParser):
     The custom parser for the configuration file of COFFE
     """
 
+    def get_items(self, section, option):
+        """
+        Splits the value of the option, a list (or the single item of one),
+        into its items
+        """
+        value = self.get(section, option).strip()
+        if value.startswith("[") and value.endswith("]") and len(value) > 1:
+            value = value[1:-1].strip()
+            return [_.strip() for _ in value.split(",")] if value else []
+        if not value or "[" in value or "]" in value:
+            raise ValueError(f"Cannot parse the list '{value}' of option '{option}'")
+        return [_.strip() for _ in value.split(",")]
+
     def getfloat_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of floats
         """
-        value = self.get(section, option).strip("[] ")
-        return [float(_) for _ in value.split(",")] if value else []
+        return [float(_) for _ in self.get_items(section, option)]
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        value = self.get(section, option).strip("[] ")
-        return [int(_) for _ in value.split(",")] if value else []
+        return [int(_) for _ in self.get_items(section, option)]
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of strings
         """
-        return [
-            str(_.strip(' "')) for _ in self.get(section, option).strip("[]").split(",")
-        ]
+        return [_.strip(' "') for _ in self.get_items(section, option)]
 
 
 
@@ -808,7 +817,7 @@ cdef class Coffe:
                     )
                 elif (
                     f"{bias}_bias{population}_redshifts" in config
-                    and f"{bias}_bias{population}_values" in config
+                    or f"{bias}_bias{population}_values" in config
                 ):
                     getattr(cosmo, f"set_{bias}_bias{population}")(
                         config.getfloat_array(f"{bias}_bias{population}_redshifts"),
@@ -835,7 +844,7 @@ cdef class Coffe:
                 )
             elif (
                 f"galaxy_bias{population}_redshifts" in config
-                and f"galaxy_bias{population}_values" in config
+                or f"galaxy_bias{population}_values" in config
             ):
                 getattr(cosmo, f"set_galaxy_bias{population}")(
                     config.getfloat_array(f"galaxy_bias{population}_redshifts"),
-- 
2.43.0


From ccb723a258fadc2d1fe15d9986a26046f7fcbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 51/53] fix: windowed covariance used the pixel size of the
 first bin for every bin

---
 src/covariance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 467f176..f10b5e7 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -522,9 +522,11 @@ int coffe_covariance_init(
         double *separations = (double *)coffe_malloc(sizeof(double) * par->sep_len);
         for (size_t i = 0; i < par->sep_len; ++i)
             separations[i] = par->sep[i];
+        /* with the window function, the integrals depend on the pixel size of the bin */
+        const int one_per_bin = par->pk_type || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? par->z_mean_len : 1;
+            one_per_bin ? par->z_mean_len : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -996,7 +998,7 @@ int coffe_covariance_init(
                        *(par->pk_type ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
-                            par->pk_type
+                            one_per_bin
                             ?
                             integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
@@ -1013,7 +1015,7 @@ int coffe_covariance_init(
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-                            par->pk_type
+                            one_per_bin
                             ?
                             integral_pk2[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
-- 
2.43.0


From 1e4fb639129fb2a80857698008593b3a59362fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:43 +0000
Subject: [PATCH 52/53] fix: averaged covariance counted its bins, and took
 their redshifts, from z_mean

---
 src/covariance.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index f10b5e7..7628d3d 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -526,7 +526,7 @@ int coffe_covariance_init(
         const int one_per_bin = par->pk_type || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            one_per_bin ? par->z_mean_len : 1;
+            one_per_bin ? par->density1_len : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -569,7 +569,11 @@ int coffe_covariance_init(
                     pk_type,
 
                     /* trigraph */
-                    par->pk_type ? par->z_mean[index_redshift] : 0,
+                    par->pk_type ? (
+                        par->output_type == COVARIANCE_MULTIPOLES ?
+                        par->z_mean[index_redshift] :
+                        (par->zmin[index_redshift] + par->zmax[index_redshift]) / 2.
+                    ) : 0,
                     ((struct nonlinear *)par->class_struct.nonlinear)->index_pk_total,
                     pk,
                     NULL
-- 
2.43.0


From 902cd8745a89068d6251d4b468ad6d2849336780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 53/53] fix: the environment could change the random numbers of
 the Monte Carlo integrals

---
 src/common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 370e18f..e6d1d02 100644
--- a/src/common.c
+++ b/src/common.c
@@ -1122,9 +1122,9 @@ double coffe_integrate_multidimensional(
     integrand.f = func;
     integrand.dim = dims;
     integrand.params = (void *)parameters;
-    gsl_rng_env_setup();
-    const gsl_rng_type *rng = gsl_rng_default;
-    gsl_rng *random = gsl_rng_alloc(rng);
+    /* always the same sequence, whatever GSL_RNG_TYPE and GSL_RNG_SEED say */
+    gsl_rng *random = gsl_rng_alloc(gsl_rng_mt19937);
+    gsl_rng_set(random, 0);
     double lower[dims];
     double upper[dims];
     double error;
-- 
2.43.0

