From fbd75f63ebf43e9ed15d8f3c3dffd50fcfdeb71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 01/25] fix: no out-of-bounds access at the equatorward
 boundary row of the momentum flux

ep3 at j=jb+1 read uref(0,k), and the block after the latitude loop wrote
ep2/ep3(i,jb,k), i.e. row 0 when jb=0 (the pole of the level below).
---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 519c4db..801eccd 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -149,7 +149,11 @@ SUBROUTINE compute_flux_dirinv_nshem( &
         ! meridional eddy momentum flux one grid north and south
         if (is_nhem) then
           ep2(i,j,k) = (uu(i,j+nd,k)-uref(j-jb+1,k))*cosp*cosp * vv(i,j+nd,k)
-          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          if (j.gt.jstart) then
+            ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          else  ! uref is not defined equatorward of the boundary latitude: one-sided difference
+            ep3(i,j,k) = (uu(i,j+nd-1,k)-uref(j-jb,k))*cos0*cos0 * vv(i,j+nd-1,k)
+          endif
         else
           ! TODO: double check.
           ep2(i,j,k) = (uu(i,j+1,k)-uref(j+1,k))*cosp*cosp * vv(i,j+1,k)
@@ -170,12 +174,6 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           ep4(i,j) = ep41*(ep42+ep43)   ! low-level heat flux
         endif
       enddo
-      phip = dp*jb
-      phi0 = dp*(jb-1)
-      cosp = cos(phip)          ! cosine for one grid north
-      cos0 = cos(phi0)          ! cosine for latitude grid
-      ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
-      ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
     enddo
   enddo
 
-- 
2.43.0


From eecff559dfe8a261e311c63650201ac2aedb2a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 02/25] fix: QGFieldNHN22 Southern Hemisphere reference states
 use SH vorticity sign and mean temperature

The SH call passed absolute vorticity without the sign change applied to PV,
and the upward sweep used the NH mean potential temperature for both hemispheres.
---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 82aadbb..93b4adf 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1800,7 +1800,7 @@ class QGFieldNHN22(QGFieldBase):
                 self._compute_reference_states_nhn22_hemispheric_wrapper(
                     qgpv=-self._interpolated_field_storage.qgpv[:, ::-1, :],
                     u=self._interpolated_field_storage.interpolated_u[:, ::-1, :],
-                    avort=self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
+                    avort=-self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
                     theta=self._interpolated_field_storage.interpolated_theta[:, ::-1, :],
                     t0=self._domain_average_storage.ts0,
                     static_stability=self._domain_average_storage.static_stability_s)
@@ -1875,7 +1875,7 @@ class QGFieldNHN22(QGFieldBase):
             sjk=sjk,
             tjk=tjk,
             ckref=ckref,
-            tb=self._domain_average_storage.tn0,
+            tb=t0,
             qref_over_cor=qref_over_sin,
             a=self.planet_radius,
             om=self.omega,
-- 
2.43.0


From fbee85d650941c1fcb5cdf6a3a7371fc5f5b062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 03/25] fix: top boundary condition of the direct solver takes
 the temperature gradient at its own latitude

tbar starts at the equator, so row jj (not jj-jb) belongs to phi0.
---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 41de5f2..5c5e236 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -169,7 +169,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     cos0 = cos(phi0)
     sin0 = sin(phi0)
     tjk(j-1,kmax-1) = -dz*rr*cos0*exp(-z(kmax-1)*rkappa/h)
-    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(j+1,kmax)-tbar(j-1,kmax))
+    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(jj+1,kmax)-tbar(jj-1,kmax))
     tjk(j-1,kmax-1) = tjk(j-1,kmax-1)/(4.*omega*sin0*dphi*h*a)
     sjk(j-1,j-1,kmax-1) = 1.
   enddo
-- 
2.43.0


From 37e357ee5fdf549fd54b5384e38c616bdc300364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 04/25] fix: publish the boundary wind of the direct inversion
 at the equatorward boundary latitude

u(1,k) was never assigned in upward_sweep, so Uref was 0 there while the
inversion had used the Kelvin circulation of the boundary latitude.
---
 src/falwa/f90_modules/upward_sweep.f90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index e4e4c7d..1e4fb49 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -43,6 +43,9 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
   ! *** Corner boundary conditions ***
   u(1,1) = 0.
   u(jd,1) = 0.
+  do k = 2,kmax-1  ! boundary value used in matrix_b4_inversion
+    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  enddo
   !        u(1,kmax) = ubar(1+jb,kmax)*cos(dp*float(jb))
   u(1,kmax) = ckref(1+jb,kmax)/(2.*pi*a)-om*a*cos(dp*float(jb))
   u(jd,kmax) = 0.
-- 
2.43.0


From 1d2bc5f3067eedae9609429bf924497fc4ac2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 05/25] fix: interpolated fields and QGPV are readable with
 northern_hemisphere_results_only on grids without the equator

These fields always cover the globe, but were interpolated back to the input
latitudes as if they covered the Northern Hemisphere only (ValueError).
---
 src/falwa/oopinterface.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 93b4adf..fcb0699 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -373,7 +373,7 @@ class QGFieldBase(ABC):
                 fill_value='extrapolate'
             )(interp_to)
 
-    def _return_interp_variables(self, variable, interp_axis):
+    def _return_interp_variables(self, variable, interp_axis, northern_hemisphere_results_only=None):
         """
         Private function to return interpolated variables from odd grid back to even grid if originally
         the data was given on an odd grid.
@@ -384,15 +384,17 @@ class QGFieldBase(ABC):
 
             interp_axis(int): the index of axis for interpolation
 
-            northern_hemisphere_results_only(bool): whether only to return northern hemispheric results.
-                Will be deprecated in upcoming release.
+            northern_hemisphere_results_only(bool): whether the variable covers the Northern Hemisphere only.
+                If None, the setting of the instance is used.
 
         Returns
         -------
             The interpolated variable(numpy.ndarray)
         """
+        if northern_hemisphere_results_only is None:
+            northern_hemisphere_results_only = self.northern_hemisphere_results_only
         if self.need_latitude_interpolation:
-            if self.northern_hemisphere_results_only:
+            if northern_hemisphere_results_only:
                 return self._interp_back(
                     variable, self._ylat[-(self._nlat_analysis // 2 + 1):],
                     self._input_ylat[-(self.nlat // 2):],
@@ -1226,7 +1228,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.qgpv is None:
             raise ValueError('QGPV field is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.qgpv), interp_axis=1)
+            self._interpolated_field_storage.qgpv), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     def interpolated_u(self):
@@ -1236,7 +1238,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_u is None:
             raise ValueError('interpolated_u is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_u), interp_axis=1)
+            self._interpolated_field_storage.interpolated_u), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     def interpolated_v(self):
@@ -1246,7 +1248,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_v is None:
             raise ValueError('interpolated_v is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_v), interp_axis=1)
+            self._interpolated_field_storage.interpolated_v), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     def interpolated_theta(self):
@@ -1256,7 +1258,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_theta is None:
             raise ValueError('interpolated_theta is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_theta), interp_axis=1)
+            self._interpolated_field_storage.interpolated_theta), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     @abstractmethod
-- 
2.43.0


From c5427378bc44bc3c3c483d063e9ff1940b40b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 06/25] fix: compute_layerwise_lwa_fluxes works on latitude
 grids without the equator

The default ncforce had the input number of latitudes instead of that of the
analysis grid.
---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index fcb0699..ba14221 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1077,7 +1077,7 @@ class QGFieldBase(ABC):
 
         # *** The chunk below has duplication. TODO: think of ways to refactor ***
         if ncforce is None:
-            ncforce = np.zeros((self.nlon, self.nlat, self.kmax))  # fortran indexing
+            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-- 
2.43.0


From 8aa290e673acf7b8b888632ade5ddd3220290376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 07/25] fix: compute_lwa_only stores the Southern Hemisphere
 cyclonic/anticyclonic parts

---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index ba14221..473dbc9 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -688,8 +688,8 @@ class QGFieldBase(ABC):
                     cp=self.cp,
                     prefac=self.prefactor)
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
-            self._layerwise_flux_terms_storage.astar1_baro_shem = np.abs(astar1)
-            self._layerwise_flux_terms_storage.astar2_baro_shem = np.abs(astar2)
+            self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
+            self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
-- 
2.43.0


From 081ca7ed77ad9adc4285d80608fc128149a40fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 08/25] fix: vertical averages sum over the layers their
 normalization is made of

The prefactor sums layers 1 to kmax-2, the average also added the top layer,
so the average of a constant was not that constant, and u_baro differed from
that of compute_lwa_only.
---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 473dbc9..a9d7bf3 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -409,7 +409,7 @@ class QGFieldBase(ABC):
 
         # Build dynamic slicer for var_3d
         slicer = [slice(None)] * var_3d.ndim
-        slicer[height_axis] = slice(lowest_layer_index, None)
+        slicer[height_axis] = slice(lowest_layer_index, self.kmax - 1)  # same layers as in the prefactor
 
         # Build dynamic shape for height broadcasting
         height_shape = [1] * var_3d.ndim
@@ -417,7 +417,7 @@ class QGFieldBase(ABC):
 
         var_baro = np.sum(
             var_3d[tuple(slicer)]
-            * np.exp(-self.height[lowest_layer_index:].reshape(height_shape) / self.scale_height) * dc,
+            * np.exp(-self.height[lowest_layer_index:self.kmax - 1].reshape(height_shape) / self.scale_height) * dc,
             axis=height_axis)
         return var_baro
 
-- 
2.43.0


From 74538e9f8b339b78996fd5f95404c2ee2423ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 09/25] fix: QGDataset labels of hemispheric static stability

QGFieldNHN22.static_stability is (south, north).
---
 src/falwa/xarrayinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55d6442..60377b7 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -488,8 +488,8 @@ class QGDataset:
         elif stability.ndim == 3 and stability.shape[-2] == 2:
             # Two vertical profiles of static stability per field: hemispheric
             return (
-                self.metadata.as_dataarray(stability[:,0,:], "static_stability_n"),
-                self.metadata.as_dataarray(stability[:,1,:], "static_stability_s")
+                self.metadata.as_dataarray(stability[:,1,:], "static_stability_n"),
+                self.metadata.as_dataarray(stability[:,0,:], "static_stability_s")
             )
         else:
             raise ValueError(f"cannot process shape of returned static stability field: {stability.shape}")
-- 
2.43.0


From 29b4f7699d77cdf1c0f1fdccbfbeee91bf3bb4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 10/25] fix: sign of the Northern Hemisphere reference PV in
 eqvlat_hemispheric

The analysis runs on -vort there; qgpv_eqlat_lwa restores the sign.
---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b0d669a..4d06749 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -130,7 +130,7 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     vort2 = -vort[::-1, :]
     qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     return qref
 
-- 
2.43.0


From 2e5ec0610c8b4e68a0242e8e833c0d80b79859c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 11/25] fix: bracket averages use eqvlat_vgrad

eqvlat_fawa has no vgrad argument (TypeError). eqvlat_bracket_hemispheric also
took vgrad of the wrong hemisphere and dropped the sign of its Northern
Hemisphere results.
---
 src/falwa/wrapper.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 4d06749..8b36879 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -177,23 +177,27 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
         n_points = nlat_s
 
     # --- Southern Hemisphere ---
-    qref1, brac1 = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+    qref1, brac1 = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else vgrad[:nlat_s, :])
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+    vgrad2 = None if vgrad is None else -vgrad[::-1, :]
+    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else vgrad2[:nlat_s, :])
 
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
-    brac[:nlat_s] = brac1
-    brac[-nlat_s:] = brac2[::-1]
+    if vgrad is None:
+        brac = None
+    else:
+        brac[:nlat_s] = brac1
+        brac[-nlat_s:] = -brac2[::-1]
 
     return qref, brac
 
@@ -406,7 +410,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
-        qref1, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+        qref1, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad[:nlat_s, :])
@@ -435,7 +439,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
-- 
2.43.0


From f722b28d3c032667f7c414536ec26631a931eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 12/25] fix: barotropic_input_qref_to_compute_lwa returns the
 LWA array as documented

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 8b36879..f14ad28 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -82,7 +82,7 @@ def barotropic_input_qref_to_compute_lwa(ylat, qref, vort, area, dmu, planet_rad
     """
     nlat = vort.shape[0]
     nlon = vort.shape[1]
-    lwa_result = basis.lwa(nlon, nlat, vort, qref, dmu)
+    lwa_result, _ = basis.lwa(nlon, nlat, vort, qref, dmu)
     return lwa_result
 
 
-- 
2.43.0


From 24f50d0beb15b0b1a508b5fcaafaf13633e06036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 13/25] fix: QGDataset.compute_ncforce_from_heating_rate labels
 its global result with the global latitudes

The forcing is computed on all latitudes, also with northern_hemisphere_results_only, where
labelling it with ylat_ref_states raised an AssertionError.
---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 60377b7..1858520 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -229,7 +229,7 @@ _MetadataServiceProvider.register_var("flux_vector_lambda_baro", ("ylat", "xlon"
 _MetadataServiceProvider.register_var("flux_vector_phi_baro", ("ylat", "xlon"), dim_names=("ylat_ref_states", "xlon"))
 # 3-dimensional LWA (full x-y-z fields)
 _MetadataServiceProvider.register_var("lwa", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
+_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"))
 _MetadataServiceProvider.register_var("ua1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ua2", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ep1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-- 
2.43.0


From e3bfcaa72dd73ad6b6ef0a91794162c29f663f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 14/25] fix: QGDataset applies the coordinate reordering of its
 inputs to the heating rate

With ascending pressure or descending latitude the wind and temperature fields were flipped to meet
the requirements of QGField but the heating rate was not.
---
 src/falwa/xarrayinterface.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 1858520..6bbb40e 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -394,6 +394,8 @@ class QGDataset:
         if not _is_descending(plev):
             plev = np.flip(plev)
             flip.append(-3)
+        # Remember the reordering for other inputs on the same coordinates
+        self._flip = flip
         # Ordering of xlon doesn't matter here
         xlon = da_xlon.values
         # Create a QGField object for each combination of timestep, ensemble
@@ -656,7 +658,11 @@ class QGDataset:
         ncforce_input_list = []
 
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate.sel(coord))
+            heating_rate_sliced = heating_rate.sel(coord).values
+            # Apply the reordering of the input fields also here
+            if self._flip:
+                heating_rate_sliced = np.flip(heating_rate_sliced, axis=self._flip)
+            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate_sliced)
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
 
-- 
2.43.0


From 1257b1e0933c0d4263c6a024682d0f15cd53f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 15/25] fix: compute_qgpv_givenvort does not read uninitialised
 memory between the hemispheric domains

With the default nlat_s on an odd number of latitudes the row between the domains was never set.
---
 src/falwa/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 6724dd4..92dc297 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,7 +158,7 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros_like(potential_temp)  # latitudes of neither hemispheric domain stay zero
     dzdiv = np.empty_like(potential_temp)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
-- 
2.43.0


From 54d4e82d194856489c31d0157bd6719294d2d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 16/25] fix: theta_lwa accounts for the northward decrease of
 potential temperature in the Northern Hemisphere

basis.lwa expects a field increasing with latitude.  With theta decreasing northward it counted the
undisturbed air, so that even a zonally symmetric field had large wave activity.
---
 src/falwa/wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index f14ad28..a70a6dc 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -570,9 +570,10 @@ def theta_lwa(ylat, theta, area, dmu, nlat_s=None, n_points=None, planet_radius=
                                area[:nlat_s, :],
                                n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = qref2[::-1]
+    # Potential temperature decreases northward in this hemisphere
     lwa_result[-nlat_s:, :], dummy = basis.lwa(nlon, nlat_s,
-                                               theta[-nlat_s:, :],
-                                               qref[-nlat_s:],
+                                               -theta[-nlat_s:, :],
+                                               -qref[-nlat_s:],
                                                dmu[-nlat_s:])
 
     return qref, lwa_result
-- 
2.43.0


From e0d325e1dc1b7c8bf34ccf0d4f377287b099121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 17/25] fix: height array of the direct inversion has kmax
 elements for every dz

np.arange(0, kmax * dz, dz) returns kmax + 1 elements for some values of dz (rounding), which the
kernel wrapper rejects.
---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index a9d7bf3..73b480e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1844,7 +1844,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(0, self.kmax * self.dz, self.dz),
+                z=np.arange(self.kmax) * self.dz,
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
-- 
2.43.0


From 0237689b451340abc5f022bdd99ce62a4cd29091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 18/25] fix: reading reference states, wave activity or fluxes
 before they are computed raises instead of returning zeros

---
 src/falwa/data_storage.py | 40 ++++++++++++++++++++++-----------------
 src/falwa/oopinterface.py |  2 ++
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/falwa/data_storage.py b/src/falwa/data_storage.py
index 3d4eb88..d248475 100644
--- a/src/falwa/data_storage.py
+++ b/src/falwa/data_storage.py
@@ -28,6 +28,12 @@ class HemisphericProperty:
     def ndim_j(self):
         return len(self.slc_pre)
 
+    def _array_to_fill(self, obj):
+        # Arrays that stay None until computed are allocated at the first assignment
+        if getattr(obj, self.attr) is None:
+            setattr(obj, self.attr, np.zeros(obj.fdim))
+        return getattr(obj, self.attr)
+
 
 class NHemProperty(HemisphericProperty):
 
@@ -42,7 +48,7 @@ class NHemProperty(HemisphericProperty):
     def __set__(self, obj, value):
         jdim = value.shape[self.ndim_j]
         slc = (*self.slc_pre, slice(-jdim, None), *self.slc_post)
-        getattr(obj, self.attr)[slc] = value
+        self._array_to_fill(obj)[slc] = value
 
 
 class SHemProperty(HemisphericProperty):
@@ -59,7 +65,7 @@ class SHemProperty(HemisphericProperty):
             raise InvalidCallOfSHemVariables()
         slc = (*self.slc_pre, slice(None, jdim), *self.slc_post)
         vlc = (*self.slc_pre, slice(None, None, -1), *self.slc_post)
-        getattr(obj, self.attr)[slc] = value[vlc]
+        self._array_to_fill(obj)[slc] = value[vlc]
 
 
 
@@ -159,9 +165,9 @@ class ReferenceStatesStorage(DerivedQuantityStorage):
                  swapaxis_1: int, swapaxis_2: int,
                  northern_hemisphere_results_only: bool):
         super().__init__(pydim, fdim, swapaxis_1, swapaxis_2, northern_hemisphere_results_only)
-        self.qref = np.zeros(self.fdim)  # This is to substitute self._qref_ntemp
-        self.uref = np.zeros(self.fdim)
-        self.ptref = np.zeros(self.fdim)
+        self.qref = None  # This is to substitute self._qref_ntemp
+        self.uref = None
+        self.ptref = None
         kmax, self.nlat = self.pydim
 
     qref_nhem = NHemProperty("qref", (0, 1))
@@ -196,7 +202,7 @@ class LayerwiseFluxTermsStorage(DerivedQuantityStorage):
                  northern_hemisphere_results_only: bool):
         super().__init__(pydim, fdim, swapaxis_1, swapaxis_2, northern_hemisphere_results_only)
         self.nlat = self.fdim[1]
-        self.lwa = np.zeros(self.fdim)    # TODO: lwa = astar1+astar2 - redundant
+        self.lwa = None    # TODO: lwa = astar1+astar2 - redundant
         self.astar1 = np.zeros(self.fdim)
         self.astar2 = np.zeros(self.fdim)
         self.ua1 = np.zeros(self.fdim)
@@ -260,16 +266,16 @@ class OutputBarotropicFluxTermsStorage(DerivedQuantityStorage):
                  northern_hemisphere_results_only: bool):
         super().__init__(pydim, fdim, swapaxis_1, swapaxis_2, northern_hemisphere_results_only)
         # *** variables below are computed all at once after getting flux terms above?
-        self.adv_flux_f1 = np.zeros(self.pydim)
-        self.adv_flux_f2 = np.zeros(self.pydim)
-        self.adv_flux_f3 = np.zeros(self.pydim)
+        self.adv_flux_f1 = None
+        self.adv_flux_f2 = None
+        self.adv_flux_f3 = None
         self.zonal_adv_flux = np.zeros(self.pydim)
-        self.convergence_zonal_advective_flux = np.zeros(self.pydim)
-        self.divergence_eddy_momentum_flux = np.zeros(self.pydim)
-        self.meridional_heat_flux = np.zeros(self.pydim)
+        self.convergence_zonal_advective_flux = None
+        self.divergence_eddy_momentum_flux = None
+        self.meridional_heat_flux = None
         self.ncforce_baro = np.zeros(self.pydim)
-        self.flux_vector_lambda_baro = np.zeros(self.pydim)
-        self.flux_vector_phi_baro = np.zeros(self.pydim)
+        self.flux_vector_lambda_baro = None
+        self.flux_vector_phi_baro = None
 
 
 class BarotropicFluxTermsStorage(DerivedQuantityStorage):
@@ -289,9 +295,9 @@ class BarotropicFluxTermsStorage(DerivedQuantityStorage):
         self.ep2baro = np.zeros(self.fdim)
         self.ep3baro = np.zeros(self.fdim)
         self.ep4 = np.zeros(self.fdim)
-        self.ncforce_baro = np.zeros(self.fdim)
-        self.u_baro = np.zeros(self.fdim)
-        self.lwa_baro = np.zeros(self.fdim)  # This is barotropic LWA (astarbaro)
+        self.ncforce_baro = None
+        self.u_baro = None
+        self.lwa_baro = None  # This is barotropic LWA (astarbaro)
         self.astar1_baro = np.zeros(self.fdim)
         self.astar2_baro = np.zeros(self.fdim)
 
diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 73b480e..4f227cd 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -391,6 +391,8 @@ class QGFieldBase(ABC):
         -------
             The interpolated variable(numpy.ndarray)
         """
+        if variable is None:
+            raise ValueError('The requested variable is not computed yet.')
         if northern_hemisphere_results_only is None:
             northern_hemisphere_results_only = self.northern_hemisphere_results_only
         if self.need_latitude_interpolation:
-- 
2.43.0


From 1c2bbe42fa53004487ceed72ff62050d3451b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 19/25] fix: a temperature field that merely broadcasts to the
 expected shape is refused

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 4f227cd..ad5f0a1 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -142,7 +142,7 @@ class QGFieldBase(ABC):
         expected_dimension = (self.nlev, self.nlat, self.nlon)
         self._check_dimension_of_fields(field=u_field, field_name='u_field', expected_dim=expected_dimension)
         self._check_dimension_of_fields(field=v_field, field_name='v_field', expected_dim=expected_dimension)
-        self._check_dimension_of_fields(field=theta_field, field_name='theta_field', expected_dim=expected_dimension)
+        self._check_dimension_of_fields(field=t_field, field_name='t_field', expected_dim=expected_dimension)
 
         # === Do Interpolation on latitude grid if needed ===
         if self.need_latitude_interpolation:
-- 
2.43.0


From cc7a91cf457d45932462129dc13b168c87841432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 20/25] fix: compute_layerwise_lwa_fluxes is refused without
 converged reference states, as the barotropic fluxes are

---
 src/falwa/oopinterface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index ad5f0a1..39c21c2 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1072,6 +1072,12 @@ class QGFieldBase(ABC):
         ----------
         ncforce : np.ndarray of dimension (kmax, nlat, nlon) which is output from self.compute_ncforce_from_heating_rate
         """
+        # Check if previous steps have been done.
+        if self._nonconvergent_uref:
+            raise ValueError("Uref was not properly solved. This method cannot be called.")
+        if not self._reference_states_computed:
+            raise ValueError("Reference states have not been computed yet.")
+
         # Turn qref back to correct unit
         ylat_input, qref_correct_unit = self._prepare_coordinates_and_ref_states(
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
-- 
2.43.0


From 520df0cc80fb63870ceeda5f5c172286bbd23472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 21/25] fix: the tuple of barotropic fluxes holds the published
 quantities

On a grid without equator the fields of the named tuple returned by
compute_lwa_and_barotropic_fluxes were the arrays on the internal analysis
grid, with other latitudes (and shape) than documented and published by the
properties of the same names.
---
 src/falwa/oopinterface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 39c21c2..9e13d4c 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -954,15 +954,15 @@ class QGFieldBase(ABC):
                 ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
                  'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa'])
             lwa_and_fluxes = LWA_and_fluxes(
-                self._output_barotropic_flux_terms_storage.adv_flux_f1,
-                self._output_barotropic_flux_terms_storage.adv_flux_f2,
-                self._output_barotropic_flux_terms_storage.adv_flux_f3,
-                self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
-                self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
-                self._output_barotropic_flux_terms_storage.meridional_heat_flux,
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.lwa_baro),
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.u_baro),
-                self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa))
+                self.adv_flux_f1,
+                self.adv_flux_f2,
+                self.adv_flux_f3,
+                self.convergence_zonal_advective_flux,
+                self.divergence_eddy_momentum_flux,
+                self.meridional_heat_flux,
+                self.lwa_baro,
+                self.u_baro,
+                self.lwa)
             return lwa_and_fluxes
 
     def _compute_flux_vector_phi_baro(self):
-- 
2.43.0


From 83b6fddb411c6fdcef68946dd81a36fcb279f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 22/25] fix: zonal derivative of v in the QGPV kernels uses the
 longitude spacing

compute_qgpv and compute_qgpv_direct_inv divided the zonal difference of v by the
latitude spacing pi/(nlat-1), which is the longitude spacing only if
nlon = 2*(nlat-1).
---
 src/falwa/f90_modules/compute_qgpv.f90            | 9 +++++----
 src/falwa/f90_modules/compute_qgpv_direct_inv.f90 | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qgpv.f90 b/src/falwa/f90_modules/compute_qgpv.f90
index 1cbebfb..a626d28 100644
--- a/src/falwa/f90_modules/compute_qgpv.f90
+++ b/src/falwa/f90_modules/compute_qgpv.f90
@@ -16,12 +16,13 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
     REAL ::  st(nlon,nlat),zmst(nlat)
     REAL ::  zmav(nlat,kmax)
     REAL ::  zmpv(nlat,kmax)
-    REAL :: rkappa, pi, dphi
+    REAL :: rkappa, pi, dphi, dlambda
 
 
     rkappa = rr/cp
     pi = acos(-1.)
     dphi = pi/float(nlat-1)
+    dlambda = 2.*pi/float(nlon)
 
     !  **** compute zonal mean ****
     tz = 0.
@@ -67,17 +68,17 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
 
             do i = 2,nlon-1
                 av1 = 2.*omega*sin(phi0)
-                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
                 av3 = -(ut(i,j+1,kk)*cos(phip)-ut(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
                 avort(i,j,kk) = av1+av2+av3
             enddo
 
             av1 = 2.*omega*sin(phi0)
-            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av3 = -(ut(1,j+1,kk)*cos(phip)-ut(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
             avort(1,j,kk) = av1+av2+av3
             av4 = 2.*omega*sin(phi0)
-            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av6 =   & 
             -(ut(nlon,j+1,kk)*cos(phip)-ut(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
             avort(nlon,j,kk) = av4+av5+av6
diff --git a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90 b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
index e53da8c..dd29944 100644
--- a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
+++ b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
@@ -19,6 +19,7 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
    rkappa = rr/cp
    pi = acos(-1.)
    dphi = pi/float(nlat-1)
+   dlambda = 2.*pi/float(nlon)
 
   write(6,*) 'nlon, nlat, kmax, jd'
   write(6,*) nlon, nlat, kmax, jd
@@ -33,17 +34,17 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
 
       do i = 2,nlon-1
         av1 = 2.*omega*sin(phi0)
-        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
         av3 = -(uq(i,j+1,kk)*cos(phip)-uq(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
         avort(i,j,kk) = av1+av2+av3
       enddo
 
       av1 = 2.*omega*sin(phi0)
-      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av3 = -(uq(1,j+1,kk)*cos(phip)-uq(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(1,j,kk) = av1+av2+av3
       av4 = 2.*omega*sin(phi0)
-      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av6 =   &
       -(uq(nlon,j+1,kk)*cos(phip)-uq(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(nlon,j,kk) = av4+av5+av6
-- 
2.43.0


From 1f32baa3d8b35e01e725c1ec51f77adfe171a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 23/25] fix: length of the budget interval in seconds for every
 resolution of the time axis

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 6bbb40e..e36e96c 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -737,7 +737,7 @@ def integrate_budget(ds, var_names=None):
     attrs = dict(ds.attrs)
     attrs["integration_start"] = str(start)
     attrs["integration_stop"] = str(stop)
-    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1000000000)
+    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1, "s")
     return xr.Dataset(data_vars, ds.coords, attrs)
 
 
-- 
2.43.0


From 910f014b786bbab2fa9bee76ac524e7f76f9d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 24/25] fix: spherical operators and compute_qgpv_givenvort no
 longer truncate results for integer-typed input arrays

---
 src/falwa/utilities.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 92dc297..5cef6ee 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -152,14 +152,14 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         nlat_s = nlat // 2
 
     # --- Next, calculate PV ---
-    qgpv = np.empty_like(potential_temp)  # av1+av2+av3+dzdiv
+    qgpv = np.empty_like(potential_temp, dtype=np.result_type(potential_temp, 1.0))  # av1+av2+av3+dzdiv
 
     av1 = np.ones((kmax, nlat, nlon)) * \
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.zeros_like(potential_temp)  # latitudes of neither hemispheric domain stay zero
-    dzdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros_like(potential_temp, dtype=np.result_type(potential_temp, 1.0))  # latitudes of neither hemispheric domain stay zero
+    dzdiv = np.empty_like(potential_temp, dtype=np.result_type(potential_temp, 1.0))
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
             potential_temp[kk, :nlat_s, :] - t0_cs[kk]
@@ -219,7 +219,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    zonal_diff = np.zeros_like(field)
+    zonal_diff = np.zeros_like(field, dtype=np.result_type(field, 1.0))
     zonal_diff[:, 1:-1] = field[:, 2:] - field[:, :-2]
     zonal_diff[:, 0] = field[:, 1] - field[:, -1]
     zonal_diff[:, -1] = field[:, 0] - field[:, -2]
@@ -266,7 +266,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    meridional_diff = np.zeros_like(field)
+    meridional_diff = np.zeros_like(field, dtype=np.result_type(field, 1.0))
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
     meridional_diff[0, :] = field[1, :] * clat[1] - field[0, :] * clat[0]
     meridional_diff[-1, :] = field[-1, :] * clat[-1] - field[-2, :] * clat[-2]
@@ -286,7 +286,7 @@ def curl_2d(ufield, vfield, clat, dlambda, dphi, planet_radius=6.378e+6):
     of velocity on a pressure level in spherical coordinates.
     """
 
-    ans = np.zeros_like(ufield)
+    ans = np.zeros_like(ufield, dtype=np.result_type(ufield, vfield, 1.0))
     ans[1:-1, 1:-1] = (vfield[1:-1, 2:] - vfield[1:-1, :-2])/(2.*dlambda) - \
                       (ufield[2:, 1:-1] * clat[2:, np.newaxis] -
                        ufield[:-2, 1:-1] * clat[:-2, np.newaxis])/(2.*dphi)
-- 
2.43.0


From fd2d20cec17fddb0dc2477e19610f79138c10474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:51 +0000
Subject: [PATCH 25/25] fix: recomputing the reference state clears an earlier
 non-convergence flag

---
 src/falwa/oopinterface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 9e13d4c..d3fc2c9 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -604,6 +604,7 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
+        self._nonconvergent_uref = False  # The outcome of an earlier call does not count
         self._compute_reference_states()
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
-- 
2.43.0

