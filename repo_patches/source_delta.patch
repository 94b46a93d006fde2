From 7f9e4544d5bc0caab398d060b85ca18bd7016c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 01/54] fix: do not reverse the caller's direction vector in
 place in Arc.transform

---
 welleng/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ef36bdc..a7d4c66 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -592,7 +592,7 @@ class Arc:
         if vec is None:
             vec = np.array([0., 0., 1.])
         if target:
-            vec *= -1
+            vec = vec * -1
         inc, azi = get_angles(vec, nev=True).reshape(2)
         angles = [
             toolface,
-- 
2.43.0


From bbbe0e6a54b3b7cd673ea0f5e8c64fa7ad843e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 02/54] fix: do not count start_xyz as well as start_nev in
 Survey.pos_nev

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 454a7f1..a6359b9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -859,7 +859,7 @@ class Survey:
         self.dls = mc.dls
         self.pos_xyz = mc.poss
         self.pos_nev = (
-            get_nev(self.pos_xyz)
+            get_nev(self.pos_xyz, start_xyz=self.start_xyz)
             * np.full_like(
                 self.pos_xyz,
                 np.array([
-- 
2.43.0


From 2e800603276e59a8688639f97c90e4c090c08c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 03/54] fix: interpolating a survey must not switch its header
 to grid azimuths

---
 welleng/survey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a6359b9..65b7b6f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1497,7 +1497,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = self.header
+        sh = copy(self.header)
         sh.azi_reference = 'grid'
 
         # Create a new Survey instance
@@ -1889,7 +1889,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = survey.header
+    sh = copy(survey.header)
     sh.azi_reference = 'grid'
 
     s = Survey(
-- 
2.43.0


From d9d31915f83cbbfd9f0acecb752f8762c59db1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 04/54] fix: surveys rebuilt from grid azimuths get a grid
 header of their own

---
 welleng/clearance.py    | 12 +++++++-----
 welleng/exchange/wbp.py |  5 ++---
 welleng/survey.py       | 23 +++++++++++++++--------
 welleng/torque_drag.py  |  5 ++---
 4 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 8de993c..94924de 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -14,7 +14,10 @@ from scipy.spatial import KDTree
 from scipy.spatial.distance import cdist
 
 from .mesh import WellMesh, to_trimesh
-from .survey import Survey, _interpolate_survey, _interpolate_pos_nev, slice_survey
+from .survey import (
+    Survey, _get_grid_header, _interpolate_survey, _interpolate_pos_nev,
+    slice_survey
+)
 from .utils import NEV_to_HLA
 
 
@@ -197,7 +200,7 @@ class Clearance:
                 tvd=self.reference.tvd[self.kop_index:],
                 vec=self.reference.vec_nev[self.kop_index:],
                 radius=self.reference.radius[self.kop_index:],
-                header=self.reference.header,
+                header=_get_grid_header(self.reference.header),
                 cov_nev=cov_nev,
                 cov_hla=cov_hla,
                 error_model=None,
@@ -531,8 +534,7 @@ class IscwsaClearance(Clearance):
 
                 node = self.ref.interpolate_md(md)
 
-                sh = self.ref.header
-                sh.azi_reference = 'grid'
+                sh = _get_grid_header(self.ref.header)
 
                 survey = Survey(
                     md=np.insert(
@@ -700,7 +702,7 @@ class IscwsaClearance(Clearance):
             n=n,
             e=e,
             tvd=tvd,
-            header=self.offset.header,
+            header=_get_grid_header(self.offset.header),
             error_model=None,
             cov_hla=cov_hla,
             cov_nev=cov_nev,
diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 0a781e4..2c31d08 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -12,7 +12,7 @@ from ..connector import (
     # interpolate_well,
     # get_survey
 )
-from ..survey import from_connections
+from ..survey import _get_grid_header, from_connections
 
 try:
     import utm
@@ -779,8 +779,7 @@ def strip_duplicates(survey):
         else:
             temp.append(s)
 
-    sh = survey.header
-    sh.azi_reference = 'grid'
+    sh = _get_grid_header(survey.header)
 
     md, inc, azi, radius = np.array(temp).reshape(-1, 4).T
 
diff --git a/welleng/survey.py b/welleng/survey.py
index 65b7b6f..30b6670 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1497,8 +1497,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = copy(self.header)
-        sh.azi_reference = 'grid'
+        sh = _get_grid_header(self.header)
 
         # Create a new Survey instance
         survey = Survey(
@@ -1889,8 +1888,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = copy(survey.header)
-    sh.azi_reference = 'grid'
+    sh = _get_grid_header(survey.header)
 
     s = Survey(
         md=np.array(
@@ -2103,7 +2101,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         n=n,
         e=e,
         tvd=tvd,
-        header=survey.header,
+        header=_get_grid_header(survey.header),
         radius=survey.radius[start:stop],
         cov_hla=cov_hla,
         cov_nev=cov_nev,
@@ -2387,6 +2385,15 @@ def get_unit(unit):
         return None
 
 
+def _get_grid_header(header):
+    """A copy of a header for survey data with azimuths in the grid reference.
+    """
+    sh = copy(header)
+    sh.azi_reference = 'grid'
+
+    return sh
+
+
 def make_survey_header(data):
     """
     Takes a dictionary of survey header data with the same keys as the
@@ -2594,7 +2601,7 @@ def func(x0, survey, dls_cont, tolerance):
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=survey.header
+        header=_get_grid_header(survey.header)
     )
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
@@ -2911,7 +2918,7 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=survey.header
+        header=_get_grid_header(survey.header)
     )
 
     return s_interp
@@ -3058,7 +3065,7 @@ def project_to_target(
     survey_to_target = from_connections(
         connectors,
         step=step,
-        survey_header=survey.header,
+        survey_header=_get_grid_header(survey.header),
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
         depth_unit=survey.header.depth_unit,
diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6524a19..acabb6d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     PLOTLY = False
 
-from .survey import interpolate_md, Survey
+from .survey import _get_grid_header, interpolate_md, Survey
 from .units import ureg
 
 
@@ -136,8 +136,7 @@ class TorqueDrag:
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-        sh = self.survey_original.header
-        sh.azi_reference = 'grid'
+        sh = _get_grid_header(self.survey_original.header)
 
         self.survey = Survey(
             md=md, inc=inc, azi=azi, header=sh, deg=False
-- 
2.43.0


From 54b5b316111acaf6f721088d0957f93b0f72043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 05/54] fix: misalignment singularity uses true azimuths
 whatever the survey reference

---
 welleng/errors/tool_errors.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ea036c2..b99db9c 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -937,16 +937,12 @@ def CNA(
         e_NEV = error._e_NEV(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         v = np.zeros_like(n)
@@ -962,16 +958,12 @@ def CNA(
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         e_NEV_star_sing = np.vstack(
-- 
2.43.0


From 9faa94db5bed39fe0ed9aace3916c96c4f2936da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 06/54] fix: vertical section projects the displacement and
 leaves the azimuths alone

---
 welleng/survey.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 30b6670..4e3e48c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1308,13 +1308,9 @@ class Survey:
             self,
             f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
         )
-        azi_temp[np.where(self.inc_rad == 0.0)] = (
-            vertical_section_azimuth
-        )
-        result = np.cos(
-            vertical_section_azimuth
-            - (azi_temp[1:] + azi_temp[:-1]) / 2
-        ) * self.hypot
+        # the displacements are in grid coordinates
+        azi = vertical_section_azimuth - (azi_temp[0] - self.azi_grid_rad[0])
+        result = np.diff(self.n) * np.cos(azi) + np.diff(self.e) * np.sin(azi)
 
         result = np.cumsum(np.hstack(([0.0], result)))
 
-- 
2.43.0


From 1a853c70019b8d942d01ecdea9eea63b88b82b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 07/54] fix: set_vertical_section stores the header azimuth in
 radians

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 4e3e48c..2c4de7e 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1332,7 +1332,10 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
-        self.header.vertical_section_azimuth = vertical_section_azimuth
+        self.header.vertical_section_azimuth = (
+            math.radians(vertical_section_azimuth) if deg
+            else vertical_section_azimuth
+        )
         self.vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
-- 
2.43.0


From 9e2a659e7f09e7ded654a11a6c50dbac4f95d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 08/54] fix: surveys with magnetic azimuths or without
 covariance can be spliced

---
 welleng/survey.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 2c4de7e..078c136 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3094,7 +3094,7 @@ class SurveyData:
         self.md = survey.md
         self.inc = survey.inc_rad
         self.azi = getattr(
-            survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
+            survey, f"azi_{survey.azi_ref_lookup[self.header.azi_reference]}_rad"
         )
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
@@ -3117,22 +3117,26 @@ class SurveyData:
             (
                 self.azi,
                 getattr(
-                    survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
+                    survey,
+                    f"azi_{survey.azi_ref_lookup[self.header.azi_reference]}_rad"
                 )[1:]
             )
         )
-        self.cov_nev = np.hstack(
-            (
-                self.cov_nev.reshape(-1),
-                survey.cov_nev[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
-        self.cov_hla = np.hstack(
-            (
-                self.cov_hla.reshape(-1),
-                survey.cov_hla[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
+        if self.cov_nev is None or survey.cov_nev is None:
+            self.cov_nev, self.cov_hla = None, None
+        else:
+            self.cov_nev = np.hstack(
+                (
+                    self.cov_nev.reshape(-1),
+                    survey.cov_nev[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
+            self.cov_hla = np.hstack(
+                (
+                    self.cov_hla.reshape(-1),
+                    survey.cov_hla[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
         self.radius = np.hstack((self.radius, survey.radius[1:]))
 
     def get_survey(self):
-- 
2.43.0


From ee39f18c87dc028bb019b100c9c36bbe073347fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 09/54] fix: surveys derived from a survey in feet keep its
 unit

---
 welleng/clearance.py    |  3 ++-
 welleng/exchange/wbp.py |  1 +
 welleng/survey.py       | 16 +++++++++++-----
 welleng/torque_drag.py  |  3 ++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 94924de..3884118 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -558,7 +558,8 @@ class IscwsaClearance(Clearance):
                     radius=np.insert(
                         self.ref.radius, i, self.ref.radius[i]
                     ),
-                    header=sh
+                    header=sh,
+                    unit=self.ref.unit
                 )
 
                 self.ref = survey
diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 2c31d08..d9ea947 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -791,6 +791,7 @@ def strip_duplicates(survey):
         start_nev=survey.start_nev,
         radius=radius,
         header=sh,
+        unit=survey.unit,
     )
 
     return survey_stripped
diff --git a/welleng/survey.py b/welleng/survey.py
index 078c136..a6a0d7c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1505,7 +1505,8 @@ class Survey:
             azi=survey_new[:, 2],
             header=sh,
             start_xyz=self.start_xyz,
-            start_nev=self.start_nev
+            start_nev=self.start_nev,
+            unit=self.unit
         )
 
         # Update the interpolated property to keep track of the original survey
@@ -2600,7 +2601,8 @@ def func(x0, survey, dls_cont, tolerance):
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=_get_grid_header(survey.header)
+        header=_get_grid_header(survey.header),
+        unit=survey.unit
     )
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
@@ -2774,7 +2776,8 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         step=step,
         start_xyz=survey.start_xyz,
         survey_header=survey.header,
-        error_model=None
+        error_model=None,
+        depth_unit=survey.unit
     )
 
     survey_interpolated.interpolated = [
@@ -2917,7 +2920,8 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=_get_grid_header(survey.header)
+        header=_get_grid_header(survey.header),
+        unit=survey.unit
     )
 
     return s_interp
@@ -3098,6 +3102,7 @@ class SurveyData:
         )
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
+        self.unit = survey.unit
         self.cov_nev = survey.cov_nev
         self.cov_hla = survey.cov_hla
         self.radius = survey.radius
@@ -3158,7 +3163,8 @@ class SurveyData:
             cov_nev=self.cov_nev,
             cov_hla=self.cov_hla,
             radius= self.radius,
-            header=self.header
+            header=self.header,
+            unit=self.unit
         )
         return survey
 
diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index acabb6d..dbfa72d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -139,7 +139,8 @@ class TorqueDrag:
         sh = _get_grid_header(self.survey_original.header)
 
         self.survey = Survey(
-            md=md, inc=inc, azi=azi, header=sh, deg=False
+            md=md, inc=inc, azi=azi, header=sh, deg=False,
+            unit=self.survey_original.unit
         )
 
     def get_buoyancy_factors(self):
-- 
2.43.0


From 3cde4b05dbcf3a92bfdb3b7a819f5b048531e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 10/54] fix: interpolating by vertical depth keeps the start
 position

---
 welleng/survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index a6a0d7c..a58189d 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2921,6 +2921,8 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         interpolated=interpolated,
         deg=False,
         header=_get_grid_header(survey.header),
+        start_nev=survey.start_nev,
+        start_xyz=survey.start_xyz,
         unit=survey.unit
     )
 
-- 
2.43.0


From d25b9e0d6650de75b4e491f922dc0c99373d4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:04 +0000
Subject: [PATCH 11/54] fix: decimal2dms keeps the sign of angles between -1
 and 0 degrees

---
 welleng/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index a7d4c66..88e354c 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -709,13 +709,15 @@ def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
     _decimal = float(_decimal)
     minutes, seconds = divmod(abs(_decimal) * 3600, 60)
     _, minutes = divmod(minutes, 60)
+    # int() loses the sign of values between -1 and 0, so keep a signed zero
+    degrees = int(_decimal) or np.copysign(0., _decimal)
 
     return np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits)
     ]) if direction is None else np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits),
         direction
-- 
2.43.0


From 39eadef0d1226f56d53543ed9d11acd72dcd07d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 12/54] fix: a node without a direction has all four angle
 attributes

---
 welleng/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/node.py b/welleng/node.py
index cc1c9cb..6142367 100644
--- a/welleng/node.py
+++ b/welleng/node.py
@@ -97,7 +97,7 @@ class Node:
             self.inc_rad = None
             self.inc_deg = None
             self.azi_rad = None
-            self.azi_rad = None
+            self.azi_deg = None
             return
         elif vec is None:
             assert inc is not None and azi is not None, (
-- 
2.43.0


From d17880622548cc0f253e1a0898e1d0239633e9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 13/54] fix: projecting a survey in feet to the bit continues
 its curvature

---
 welleng/survey.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a58189d..141f403 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1205,7 +1205,8 @@ class Survey:
         node: welleng.node.Node object
         """
         if dls is None:
-            dls = self.dls[-1]
+            # project_ahead works per 30 units of length
+            dls = self.dls[-1] * (1 if self.unit == 'meters' else 30 / 100)
         if toolface is None:
             toolface = self.toolface[-1]
 
@@ -3036,7 +3037,8 @@ def project_to_target(
             pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1]
         )
     if dls is None:
-        dls = survey.dls[-1]
+        # project_ahead works per 30 units of length
+        dls = survey.dls[-1] * (1 if survey.unit == 'meters' else 30 / 100)
     if toolface is None:
         toolface = survey.toolface[-1]
     if survey.cov_nev is not None:
-- 
2.43.0


From 2689a6cd8c62a8c4c764fe6590014b9b9698795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 14/54] fix: sections added bottom-up by top or by default, and
 clipped ones, get a consistent length

---
 welleng/architecture.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index f626079..1e2988f 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -49,7 +49,11 @@ class String:
                     if k not in ['top', 'bottom', 'length', 'buoyancy_factor']
             }
             string_new.add_section(
-                length=self.sections[section]['length'], **params
+                length=(
+                    self.sections[section]['bottom']
+                    - self.sections[section]['top']
+                ),
+                **params
             )
             if string_new.sections[0]['top'] == self.top:
                 reached_top = True
@@ -141,12 +145,10 @@ class String:
             top = bottom - kwargs.get('length')
             if top < self.top:
                 top = self.top
-                length = bottom - top
         elif bool(kwargs.get('top')):
-            length = bottom - kwargs.get('top')
+            top = kwargs.get('top')
         else:
             top = self.top
-            length = self.sections[0]['top']
 
         self.sections[temp] = {}
         self.sections[temp]['top'] = top
@@ -155,6 +157,7 @@ class String:
         # add the section to the sections dict
         for k, v in kwargs.items():
             self.sections[temp][k] = v
+        self.sections[temp]['length'] = bottom - top
 
         # sort the dict on depth of tops
         self.sections = {
-- 
2.43.0


From d59c0e6ebdcd609ca7b0b8fb7eda51a450c9928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 15/54] fix: a refused section is not left in the string

---
 welleng/architecture.py | 48 ++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 1e2988f..3c02431 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -80,31 +80,33 @@ class String:
         Sections built from the top down until the bottom of the bottom section
         is equal to the defined string bottom.
         """
-        if bool(self.sections) is False:
+        # work on a copy, so that a refused section is not left in the string
+        sections = dict(self.sections)
+        if bool(sections) is False:
             temp = 0
             top = self.top
         else:
-            temp = len(self.sections)
-            top = self.sections[temp - 1]['bottom']
+            temp = len(sections)
+            top = sections[temp - 1]['bottom']
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
+        sections[temp] = {}
+        sections[temp]['top'] = top
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['top']
+                sections.items(), key=lambda item: item[1]['top']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -113,7 +115,7 @@ class String:
                 assert v['top'] == self.top
             else:
                 assert v['top'] == temp[k - 1]['bottom']
-            assert v['bottom'] <= self.bottom
+            assert v['top'] <= v['bottom'] <= self.bottom
 
         if temp[len(temp) - 1]['bottom'] == self.bottom:
             self.complete = True
@@ -134,12 +136,14 @@ class String:
         -----------
 
         """
-        if bool(self.sections) is False:
+        # work on a copy, so that a refused section is not left in the string
+        sections = dict(self.sections)
+        if bool(sections) is False:
             temp = 0
             bottom = self.bottom
         else:
-            temp = len(self.sections)
-            bottom = self.sections[0]['top']
+            temp = len(sections)
+            bottom = sections[0]['top']
 
         if bool(kwargs.get('length')):
             top = bottom - kwargs.get('length')
@@ -150,26 +154,26 @@ class String:
         else:
             top = self.top
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
-        self.sections[temp]['bottom'] = bottom
+        sections[temp] = {}
+        sections[temp]['top'] = top
+        sections[temp]['bottom'] = bottom
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
-        self.sections[temp]['length'] = bottom - top
+            sections[temp][k] = v
+        sections[temp]['length'] = bottom - top
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['bottom']
+                sections.items(), key=lambda item: item[1]['bottom']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -179,7 +183,7 @@ class String:
                 assert v['bottom'] == self.bottom
             else:
                 assert v['bottom'] == temp[k + 1]['top']
-            assert v['top'] >= self.top
+            assert self.top <= v['top'] <= v['bottom']
 
         if temp[0]['top'] == self.top:
             self.complete = True
-- 
2.43.0


From e6bf59c4456a3d2b9aa3bd33d5d3ffab167c4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 16/54] fix: torque and drag runs, with radii and azimuth
 changes of the right interval

---
 welleng/torque_drag.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index dbfa72d..068720d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -117,7 +117,9 @@ class TorqueDrag:
                 ))
 
         for k, v in self.string.sections.items():
-            if v['bottom'] in self.survey_original.md:
+            if v['bottom'] in self.survey_original.md or any(
+                v['bottom'] == station.md[-1] for station in q
+            ):
                 continue
             else:
                 q.append(interpolate_md(
@@ -171,7 +173,8 @@ class TorqueDrag:
         self.azi_delta = np.zeros_like(self.survey.azi_grid_rad)
         self.azi_delta[1:] = (
             self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
-        )
+            + np.pi
+        ) % (2 * np.pi) - np.pi
 
     def get_characteristic_od(self, section):
         """Return the effective outer diameter for a string section.
@@ -196,7 +199,7 @@ class TorqueDrag:
     def get_weight_buoyed_and_radius(self):
         """Calculate buoyed weight and contact radius for each survey interval."""
         sections = self.string.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         delta_mds = self.survey.delta_md[1:]
         mask = mds <= self.string.bottom
@@ -212,7 +215,7 @@ class TorqueDrag:
     def get_coeff_friction_sliding(self):
         """Build an array of sliding friction coefficients mapped to survey stations."""
         sections = self.wellbore.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         mask = mds <= self.wellbore.bottom
         mds = mds[mask]
@@ -255,7 +258,7 @@ class TorqueDrag:
             self.azi_delta[:self.index][::-1],
             self.weight_buoyed[::-1],
             self.coeff_friction_sliding[:self.index][::-1],
-            self.radius
+            self.radius[::-1]
         ):
             (
                 inc_average, inc_delta, azi_delta, weight_buoyed,
-- 
2.43.0


From 372b3fff6e76ac319049999114fced24737d725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 17/54] fix: the reference volumes of a fluid add up to its
 density

---
 welleng/fluid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index b33ae53..ce9ab9a 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -130,7 +130,10 @@ class Fluid:
         volume_weighting_material = (
             self.density_fluid_reference
             - self.base_fluid_density_reference
-        ) / self.density_weighting_material
+        ) / (
+            self.density_weighting_material
+            - self.density_fluid_reference
+        )
 
         volume_total = 1 + volume_weighting_material
 
-- 
2.43.0


From 381c53dda014d4f70673ad651d2480f7d2200cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 18/54] fix: error models of wells in pads, floating-rig gyros
 and inclination-only tools could not be evaluated

---
 welleng/errors/tool_errors.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index b99db9c..226274e 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -18,7 +18,7 @@ _JSON_PROP_TO_LEGACY = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
@@ -173,7 +173,10 @@ class ToolError:
         # default), so we walk the iscwsa_json/ tree looking at both
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
-        json_filename = _resolve_json_model(model)
+        json_filename = (
+            _resolve_json_model(model)
+            or _resolve_json_model(error.error_model)
+        )
 
         self._json_path = None
         if os.path.isfile(yaml_filename):
@@ -204,6 +207,12 @@ class ToolError:
             # be the case
             # TODO use pint to handle this string inputs
             self.tortuosity = (np.radians(1.) / 100) * 3.281
+        elif any(
+            v['function'] in ('XCL', 'XCLA', 'XCLH')
+            for v in self.em['codes'].values()
+        ):
+            # the header doesn't always state it
+            self.tortuosity = (np.radians(1.) / 100) * 3.281
         else:
             self.tortuosity = None
 
-- 
2.43.0


From b4efdeda321f3cc377a6d701bc82d8ca8f7b3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 19/54] fix: vertical-singular error terms dropped the last
 station and depended on the azimuth of a vertical well

---
 welleng/error.py              |  7 ++--
 welleng/errors/tool_errors.py | 73 ++++++++++++++++++-----------------
 2 files changed, 41 insertions(+), 39 deletions(-)

diff --git a/welleng/error.py b/welleng/error.py
index 28a8154..a96009b 100644
--- a/welleng/error.py
+++ b/welleng/error.py
@@ -517,9 +517,10 @@ class ErrorModel():
         survey2 is current survey station
         survey3 is next survey station (with inc and azi in radians)
         '''
-        md1, inc1, azi1 = np.array(survey[:-2]).T
-        md2, inc2, azi2 = np.array(survey[1:-1]).T
-        md3, inc3, azi3 = np.array(survey[2:]).T
+        md1, inc1, azi1 = np.array(survey[:-1]).T
+        md2, inc2, azi2 = np.array(survey[1:]).T
+        # nothing follows the last station
+        md3 = np.append(md2[1:], md2[-1])
         double_delta_md = md3 - md1
         delta_md = md2 - md1
 
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 226274e..cd2a4b7 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -591,14 +591,13 @@ def ABIXY_TI2(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
 
         e_NEV_sing[1, 1] = (
             (
-                error.survey.md[2]
+                error.survey.md[:3][-1]
                 + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
@@ -620,8 +619,7 @@ def ABIXY_TI2(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
 
@@ -677,14 +675,13 @@ def ABXY_TI2(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
             e_NEV_sing[1, 1] = (
                 (
-                    error.survey.md[2]
+                    error.survey.md[:3][-1]
                     + error.survey.md[1]
                     - 2 * error.survey.md[0]
                 ) / 2
@@ -706,8 +703,7 @@ def ABXY_TI2(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
@@ -958,8 +954,7 @@ def CNA(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -978,8 +973,7 @@ def CNA(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1401,8 +1395,7 @@ def XYM3(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -1414,8 +1407,7 @@ def XYM3(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1430,7 +1422,7 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     coeff[1:-1] = np.amax(np.stack((
         coeff[1:-1],
         sqrt(
-            10 / error.drdp_sing['delta_md']
+            10 / error.drdp_sing['delta_md'][:-1]
         )
     ), axis=-1), axis=-1)
     coeff[-1] = np.amax(np.stack((
@@ -1441,8 +1433,8 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     ), axis=-1), axis=-1)
 
     dpde = np.zeros((len(error.survey.md), 3))
-    dpde[1:, 1] = np.absolute(
-        cos(error.survey.inc_rad[1:])
+    dpde[1:, 1] = (
+        np.absolute(cos(error.survey.inc_rad[1:]))
         * cos(error.survey.azi_true_rad[1:])
         * coeff[1:]
     )
@@ -1472,12 +1464,19 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     else:
         e_NEV = error._e_NEV(e_DIA)
         e_NEV_sing = np.zeros_like(e_NEV)
-        e_NEV_sing[:, 0] = e_NEV[:, 0]
-        e_NEV[sing] = e_NEV_sing[sing]
+        e_NEV_sing[1:, 0] = (
+            0.5 * coeff[1:] * error.drdp_sing['double_delta_md'] * mag
+        )
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV_star)
-        e_NEV_star_sing[:, 0] = e_NEV_star[:, 0]
+        e_NEV_star_sing[1:, 0] = (
+            0.5 * coeff[1:] * error.drdp_sing['delta_md'] * mag
+        )
+        if error.error_model.lower().split()[-1] != 'rev4':
+            e_NEV_sing[1, 0] += e_NEV_star_sing[1, 0]
+            e_NEV_star_sing[1, 0] *= 2
+        e_NEV[sing] = e_NEV_sing[sing]
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
@@ -1519,8 +1518,7 @@ def XYM4(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -1532,8 +1530,7 @@ def XYM4(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1548,7 +1545,7 @@ def XYM4E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     coeff[1:-1] = np.amax(np.stack((
         coeff[1:-1],
         sqrt(
-            10 / error.drdp_sing['delta_md']
+            10 / error.drdp_sing['delta_md'][:-1]
         )
     ), axis=-1), axis=-1)
     coeff[-1] = np.amax(np.stack((
@@ -1784,9 +1781,9 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             * mag
         )
         e_NEV_sing[1, 0] = (
-            coeff[1]
+            coeff[0]
             * (
-                error.survey.md[2] + error.survey.md[1]
+                error.survey.md[:3][-1] + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
             * mag
@@ -1805,7 +1802,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 0] = (
-            (
+            coeff
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
@@ -1814,7 +1812,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         # Rev 5.11 "funny stuff": at SING station 1 the workbook uses the full
         # first interval, not the halved value (see ABXY precedent at line ~409).
         e_NEV_star_sing[1, 0] = (
-            (error.survey.md[1] - error.survey.md[0])
+            coeff[0]
+            * (error.survey.md[1] - error.survey.md[0])
             * mag
         )
 
@@ -1879,7 +1878,7 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_sing[1, 1] = (
             coeff[1]
             * (
-                error.survey.md[2] + error.survey.md[1]
+                error.survey.md[:3][-1] + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
             * mag
@@ -1898,14 +1897,16 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 1] = (
-            (
+            coeff[1:]
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
             * mag
         )
         e_NEV_star_sing[1, 1] = (
-            (
+            coeff[1]
+            * (
                 error.survey.md[1]
                 - error.survey.md[0]
             )
-- 
2.43.0


From b66590709e037653d7e25a3e186e0e966835dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 20/54] fix: doubled weights of the first interval applied to
 one axis only

---
 welleng/error.py              |  4 +++-
 welleng/errors/tool_errors.py | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/welleng/error.py b/welleng/error.py
index a96009b..a865c2a 100644
--- a/welleng/error.py
+++ b/welleng/error.py
@@ -347,6 +347,8 @@ class ErrorModel():
 
         if self.error_model.lower().split()[-1] != 'rev4':
             N[0] *= 2
+            E[0] *= 2
+            V[0] *= 2
 
         return np.vstack(
             (
@@ -489,7 +491,7 @@ class ErrorModel():
         result[1:, 4] = half_dmd * ci[1:] * sa[1:]
         result[1:, 5] = -half_dmd * si[1:]
         if self.error_model.lower().split()[-1] != 'rev4':
-            result[1, 3] *= 2
+            result[1, 3:6] *= 2
 
         # drk_dAz: rows 1..n-1 (wrt azi at station i+1)
         result[1:, 6] = -half_dmd * si[1:] * sa[1:]
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index cd2a4b7..f4871fe 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -595,6 +595,15 @@ def ABIXY_TI2(
             )
         )
 
+        e_NEV_sing[1, 0] = (
+            (
+                error.survey.md[:3][-1]
+                + error.survey.md[1]
+                - 2 * error.survey.md[0]
+            ) / 2
+            * mag * -sin(error.survey.azi_true_rad[1])
+            / error.survey.header.G
+        )
         e_NEV_sing[1, 1] = (
             (
                 error.survey.md[:3][-1]
@@ -623,6 +632,14 @@ def ABIXY_TI2(
             )
         )
 
+        e_NEV_star_sing[1, 0] = (
+            (error.survey.md[1] - error.survey.md[0])
+            * mag
+            * (
+                -sin(error.survey.azi_true_rad[1])
+                / error.survey.header.G
+            )
+        )
         e_NEV_star_sing[1, 1] = (
             (error.survey.md[1] - error.survey.md[0])
             * mag
@@ -679,6 +696,15 @@ def ABXY_TI2(
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
+            e_NEV_sing[1, 0] = (
+                (
+                    error.survey.md[:3][-1]
+                    + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag * -sin(error.survey.azi_true_rad[1])
+                / error.survey.header.G
+            )
             e_NEV_sing[1, 1] = (
                 (
                     error.survey.md[:3][-1]
@@ -707,6 +733,14 @@ def ABXY_TI2(
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
+            e_NEV_star_sing[1, 0] = (
+                (error.survey.md[1] - error.survey.md[0])
+                * mag
+                * (
+                    -sin(error.survey.azi_true_rad[1])
+                    / error.survey.header.G
+                )
+            )
             e_NEV_star_sing[1, 1] = (
                 (error.survey.md[1] - error.survey.md[0])
                 * mag
-- 
2.43.0


From 6877b1cb09a794a2c4d0fd1d051e380247fb0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 21/54] fix: interpreted error terms singular at the vertical
 gave infinite covariances there

---
 welleng/errors/tool_errors.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index f4871fe..61b9aa0 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -367,7 +367,40 @@ class ToolError:
         unit = term.get("units") or term.get("unit") or "-"
         scale = _MAG_UNIT_TO_BASE.get(unit, 1.0)
         e_DIA = dpde * (mag * scale)
-        return self.e._generate_error(code, e_DIA, propagation, NEV=True)
+
+        sing = np.where(survey.inc_rad < survey.header.vertical_inc_limit)
+        weights = [
+            term.get(f"{k}_singularity") for k in ("north", "east", "vertical")
+        ]
+        if len(sing[0]) < 1 or weights == [None, None, None]:
+            return self.e._generate_error(code, e_DIA, propagation, NEV=True)
+
+        # the formulas are singular at the vertical, where their published
+        # replacement is used
+        e_DIA = np.nan_to_num(e_DIA, posinf=0.0, neginf=0.0)
+        try:
+            weights = np.column_stack([
+                np.broadcast_to(evaluate_formula(w or 0, bindings), (n,))
+                for w in weights
+            ])[1:] * (mag * scale)
+        except NameError:
+            # not evaluable, see above
+            weights = np.zeros((n - 1, 3))
+        e_NEV_sing, e_NEV_star_sing = (
+            np.vstack((
+                np.zeros((1, 3)),
+                0.5 * self.e.drdp_sing[k].reshape(-1, 1) * weights
+            ))
+            for k in ('double_delta_md', 'delta_md')
+        )
+        e_NEV = self.e._e_NEV(e_DIA)
+        e_NEV[sing] = e_NEV_sing[sing]
+        e_NEV_star = self.e._e_NEV_star(e_DIA)
+        e_NEV_star[sing] = e_NEV_star_sing[sing]
+
+        return self.e._generate_error(
+            code, e_DIA, propagation, True, e_NEV, e_NEV_star
+        )
 
     def _initiate_func_dict(self):
         """
-- 
2.43.0


From 4c681e61500cb1b04b99a3227160ee702cb3a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 22/54] fix: covariances of a survey were along true north axes
 and its positions along grid axes

---
 welleng/survey.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 141f403..a7eb2c8 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -953,11 +953,15 @@ class Survey:
                 error_model=self.error_model
             )
             self.cov_hla = self.err.errors.cov_HLAs
-            self.cov_nev = self.err.errors.cov_NEVs
-            self.cov_nev_random = self.err.errors.cov_NEVs_random
-            self.cov_nev_systematic = self.err.errors.cov_NEVs_systematic
-            self.cov_nev_global = self.err.errors.cov_NEVs_global
-            self.cov_nev_within_pad = self.err.errors.cov_NEVs_within_pad
+            # the error model works in true north axes, the survey in grid
+            for k in ('', '_random', '_systematic', '_global', '_within_pad'):
+                setattr(self, f'cov_nev{k}', HLA_to_NEV(
+                    self.survey_rad,
+                    NEV_to_HLA(
+                        self.err.survey_rad,
+                        getattr(self.err.errors, f'cov_NEVs{k}')
+                    )
+                ))
         else:
             if self.cov_nev is not None and self.cov_hla is None:
                 self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
@@ -970,7 +974,7 @@ class Survey:
             self.start_cov_nev is not None
             and self.cov_nev is not None
         ):
-            self.cov_nev += self.start_cov_nev
+            self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
     def _curvature_to_rate(self, curvature):
-- 
2.43.0


From ea91d3ddd7002325c4ae1f37f64e9cd3914ea5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 23/54] fix: ABIZ azimuth error was multiplied by gravity
 instead of divided by it

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 61b9aa0..f5964ae 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -521,7 +521,7 @@ def DST(
 def ABIZ(
     code, error, mag=0.0040, propagation='systematic', NEV=True, **kwargs
 ):
-    denom = _funky_denominator(error) / error.survey.header.G
+    denom = _funky_denominator(error) * error.survey.header.G
     denom = np.where(denom > ACCURACY, denom, ACCURACY)
 
     dpde = np.zeros((len(error.survey_rad), 3))
-- 
2.43.0


From b128ee1bcc81fa76bafd184d4a6ff015ffbf575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 24/54] fix: a gyro model could be read from the definition of
 its floating-rig variant

Both share the model id; which was found first depended on the order of
the directory listing.
---
 welleng/errors/tool_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index f5964ae..cd5ba03 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -174,8 +174,8 @@ class ToolError:
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
         json_filename = (
-            _resolve_json_model(model)
-            or _resolve_json_model(error.error_model)
+            _resolve_json_model(error.error_model)
+            or _resolve_json_model(model)
         )
 
         self._json_path = None
-- 
2.43.0


From 67d202c5fb4e2bc91800517189b210635b3a3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 25/54] fix: a node taken from a survey had a zero covariance

Survey.interpolate_md returned a Node without the interpolated covariance,
and the clearance scan used that zero for the reference well's uncertainty
at an interpolated minimum separation factor.
---
 welleng/survey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index a7eb2c8..a681606 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1805,6 +1805,10 @@ def get_node(survey, idx, interpolated=False):
         md=survey.md[idx],
         unit=survey.unit,
         nev=True,
+        cov_nev=(
+            None if survey.cov_nev is None
+            else np.array(survey.cov_nev[idx]).reshape(1, 3, 3)
+        ),
         interpolated=interpolated
     )
     return node
-- 
2.43.0


From 30645cd62b61acd034ee4ccdd543b2a2d390dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 26/54] fix: covariance below the kick-off point was along true
 north axes in the clearance scan

---
 welleng/clearance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 3884118..93845b8 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -18,7 +18,7 @@ from .survey import (
     Survey, _get_grid_header, _interpolate_survey, _interpolate_pos_nev,
     slice_survey
 )
-from .utils import NEV_to_HLA
+from .utils import HLA_to_NEV, NEV_to_HLA
 
 
 class Clearance:
@@ -168,7 +168,11 @@ class Clearance:
                         - error.cov_NEV[ki:ki + 1]
                     )
 
-        return cov_below  # (n_below, 3, 3)
+        # the error model works in true north axes, the survey in grid
+        return HLA_to_NEV(
+            self.reference.survey_rad[ki:],
+            NEV_to_HLA(self.reference.err.survey_rad[ki:], cov_below)
+        )  # (n_below, 3, 3)
 
     def _get_ref(self):
         if self.kop_index == 0:
-- 
2.43.0


From 7a9976f5bb41bf400397f1b4e716fb997fc226b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 27/54] fix: an EDM record was matched before all of its
 attributes were compared

---
 welleng/exchange/edm.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index fe17ccf..6d88392 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -63,15 +63,15 @@ class EDM:
                             booleans.append(True)
                         else:
                             booleans.append(False)
-                        if bool(booleans):
-                            if (
-                                logic == 'AND' and all(booleans)
-                                or logic == 'OR' and any(booleans)
-                            ):
-                                try:
-                                    data[child.tag].append(child.attrib)
-                                except KeyError:
-                                    data[child.tag] = [child.attrib]
+                    if bool(booleans):
+                        if (
+                            logic == 'AND' and all(booleans)
+                            or logic == 'OR' and any(booleans)
+                        ):
+                            try:
+                                data[child.tag].append(child.attrib)
+                            except KeyError:
+                                data[child.tag] = [child.attrib]
                 else:
                     try:
                         data[child.tag].append(child.attrib)
-- 
2.43.0


From da21430a7e7c2e84cc14901deee62328971c904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 28/54] fix: the parents of a wellbore accumulated over
 successive calls

---
 welleng/exchange/edm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 6d88392..59b207c 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -174,7 +174,9 @@ class EDM:
 
         return attributes
 
-    def get_parents(self, wellbore_id, predecessors=[]):
+    def get_parents(self, wellbore_id, predecessors=None):
+        if predecessors is None:
+            predecessors = []
         for child in self.root:
             if (
                 child.tag == "CD_WELLBORE"
@@ -399,7 +401,9 @@ class Well:
                 survey[item[0]] = sorted(survey[item[0]], key=lambda k: float(k['md']))
         case.survey = survey
 
-    def get_parent_surveys(self, survey_header_id, data=OrderedDict()):
+    def get_parent_surveys(self, survey_header_id, data=None):
+        if data is None:
+            data = OrderedDict()
         for sh in self.well_data['CD_SURVEY_HEADER']:
             if (
                 sh['survey_header_id'] == survey_header_id
-- 
2.43.0


From 544d88f7193a24c171253a319dd11afa1c9b6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 29/54] fix: the well and datum of a wellbore without a parent
 were listed twice

---
 welleng/exchange/edm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 59b207c..3ca8ac4 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -170,7 +170,7 @@ class EDM:
             additional = self.get_attributes(
                 tags=tags, attributes={'wellbore_id': predecessors}
             )
-        attributes = self.add_attributes(attributes, additional)
+            attributes = self.add_attributes(attributes, additional)
 
         return attributes
 
-- 
2.43.0


From 5b18194aac48efb658ec2dc29368621b59fc3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 30/54] fix: a loaded well plan without a sidetrack id could
 not be exported

---
 welleng/exchange/wbp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index d9ea947..6ac4cb4 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -480,6 +480,7 @@ def add_header(doc, data):
     ignored_integer_2 = " 123"
     plan_name = "" if data.plan_name is None else data.plan_name
     parent_name = "" if data.parent_name is None else data.parent_name
+    sidetrack_id = "" if data.sidetrack_id is None else data.sidetrack_id
     doc.append((
         f"W:"
         f"{get_key(d['type'], data.location_type)}"
@@ -488,7 +489,7 @@ def add_header(doc, data):
         f"{get_key(d['dirty_flag'], data.dirty_flag)}"
         f"{ignored_integer_1}"
         f"{ignored_integer_2}"
-        f" {data.sidetrack_id:>7}"
+        f" {sidetrack_id:>7}"
         f" {plan_name:<60}"
         f" {parent_name:<60}"
         f" {data.dls:>6.2f}"
-- 
2.43.0


From f9325f926f3b437b08e29e5ad5177860b848d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 31/54] fix: the targets of a well plan shared one geometry

---
 welleng/exchange/wbp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 6ac4cb4..a50e2c2 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 import os
 import yaml
 from ..survey import (
@@ -55,7 +56,7 @@ class Target:
     ):
         self.name = name
         self.location = location
-        self.geometry = geometry
+        self.geometry = deepcopy(geometry)
 
 
 class SurveyPoint:
-- 
2.43.0


From 8d79faa1b772d727c99f04de6fa3a28f0070ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 32/54] fix: stations of equal inclination were stripped as
 duplicates from a plan's survey

---
 welleng/exchange/wbp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index a50e2c2..8a4b8f6 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -775,8 +775,7 @@ def strip_duplicates(survey):
         if i == 0:
             temp.append(s)
             continue
-        # if s == temp[-1]:
-        if s[1] == temp[-1][1]:
+        if s == temp[-1]:
             continue
         else:
             temp.append(s)
-- 
2.43.0


From 3e41e40d2f9a886cf8b2fde1768c08be9c03794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 33/54] fix: a survey could not be made from a well plan

---
 welleng/exchange/wbp.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 8a4b8f6..1558331 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -718,11 +718,6 @@ def wbp_to_survey(
 
     start_nev = np.array(pos[0])
 
-    survey_data = from_connections(
-        connections,
-        step=step
-    )
-
     lat, lon = utm.to_latlon(
         start_nev[1],
         start_nev[0],
@@ -739,9 +734,9 @@ def wbp_to_survey(
     )
 
     survey = from_connections(
-        survey_data,
+        connections,
+        step=step,
         survey_header=sh,
-        start_nev=start_nev,
         radius=radius,
         deg=False
     )
-- 
2.43.0


From 499e80dae9c2a4ad0d4d4ea9c7e056776b312c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 34/54] fix: the geometry of a well plan's target could not be
 read

---
 welleng/exchange/wbp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 1558331..188254b 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -297,9 +297,9 @@ class WellPlan:
 
     def _add_target_geometry(self, data):
         tg = self.targets[-1].geometry
-        tg.type = self.wbp_dict['TARGETS']['type'][data[2]]
-        tg.locked = data[3]
-        tg.offset = [float(data[4:13], float(data[13:23]))]
+        tg['type'] = self.wbp_dict['TARGETS']['type'][data[2]]
+        tg['locked'] = data[3]
+        tg['offset'] = [float(data[4:13]), float(data[13:23])]
 
     def _add_target_color(self, data):
         tgc = self.targets[-1].geometry['color']
-- 
2.43.0


From 043afbf7af87c774a093e33780d5f1c3248117e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 35/54] fix: the local coordinates of a well plan mixed
 northing and easting

---
 welleng/exchange/wbp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 188254b..f76b89a 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -224,12 +224,12 @@ class WellPlan:
             for line in self.parent_data:
                 if "L:" in line:
                     code, e, n, v = line.split()
-                    self.surface_datum = np.array([e, n, v]).astype(np.float)
+                    self.surface_datum = np.array([e, n, v]).astype(float)
                     break
         else:
             self.surface_datum = np.array([
-                self.survey.n,
                 self.survey.e,
+                self.survey.n,
                 self.survey.tvd
             ]).T[0]
 
-- 
2.43.0


From ecb7c4b784f748a24d8a8bd2868b727d97fa7f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 36/54] fix: the default method of a sliced mesh was not a
 valid one

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 0d5080e..44a17ba 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -431,7 +431,7 @@ def sliced_mesh(
     start=0,
     stop=-1,
     step=1,
-    method="mesh_ellipse",
+    method="ellipse",
 ):
     """
     Generates a list of mesh objects of a user defined length.
-- 
2.43.0


From 6c7998c377647fe5e202758a3bfffb1fab818053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 37/54] fix: a connection to a target twice the radius to the
 side was straight

---
 welleng/connector.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ff4bb2c..62249ba 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1435,7 +1435,7 @@ def minimize_target_pos_and_vec_defined(
             assert c.radius_critical >= 0
 
         c.tangent_length, c.dogleg = min_dist_to_target(
-            radius_effective1, c.distances1
+            radius_effective1, c.distances1, beside=False
         )
         c.dogleg = check_dogleg(c.dogleg)
         c.dist_curve, c.func_dogleg = get_curve_hold_data(
@@ -1463,7 +1463,7 @@ def minimize_target_pos_and_vec_defined(
             assert c.radius_critical2 >= 0
 
         c.tangent_length2, c.dogleg2 = min_dist_to_target(
-            radius_effective2, c.distances2
+            radius_effective2, c.distances2, beside=False
         )
         c.dogleg2 = check_dogleg(c.dogleg2)
         c.dist_curve2, c.func_dogleg2 = get_curve_hold_data(
@@ -1797,7 +1797,7 @@ def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
     }
 
 
-def min_dist_to_target(radius, distances):
+def min_dist_to_target(radius, distances, beside=True):
     """Computes tangent length and dogleg for a curve-hold section to a target.
 
     Parameters
@@ -1807,6 +1807,10 @@ def min_dist_to_target(radius, distances):
     distances : tuple
         Tuple of (dist_to_target, dist_perp_to_target,
         dist_norm_to_target) geometric distances.
+    beside : bool
+        If False, leaves the dogleg to a target ahead and twice the radius
+        to the side as it comes out (the curve-hold-curve iteration is
+        seeded with such targets).
 
     Returns
     -------
@@ -1826,10 +1830,18 @@ def min_dist_to_target(radius, distances):
         - 2 * radius * dist_norm_to_target
     ) ** 0.5
 
-    # determine the dogleg angle of the curve section
+    # determine the dogleg angle of the curve section: with the target ahead
+    # and twice the radius to the side, both terms of the usual form vanish
+    beside = beside & np.logical_and(
+        np.abs(2 * radius - dist_norm_to_target) < 1e-6 * radius,
+        np.asarray(dist_perp_to_target) > 0
+    )
     dogleg = 2 * np.arctan2(
-        (dist_perp_to_target - tangent_length),
-        (
+        np.where(
+            beside, dist_norm_to_target, dist_perp_to_target - tangent_length
+        ),
+        np.where(
+            beside, dist_perp_to_target + tangent_length,
             2 * radius - dist_norm_to_target
         )
     )
-- 
2.43.0


From 9d1653d670fef673181edcfdad84910468e178e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 38/54] fix: a connection's nearby target far from the origin
 was taken as its start

---
 welleng/connector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 62249ba..4b2c381 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1287,7 +1287,7 @@ class Connector:
             vec_temp = vec_temp / np.linalg.norm(vec_temp)
         if np.array_equal(vec1, vec_temp):
             self._mod_pos(pos_target)
-        if np.allclose(pos1, pos_target):
+        if np.allclose(pos_target - pos1, 0):
             return (0, 0, 0)
 
         else:
-- 
2.43.0


From a14a0704713fb318cdd543a38f0c99a1b9911af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 39/54] fix: a connection to a target straight ahead, with part
 of a direction, moved the target at random

---
 welleng/connector.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index 4b2c381..0538202 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -532,6 +532,18 @@ class Connector:
         else:
             self.method = self.initial_method
 
+        # a target straight ahead needs no curve, whatever direction was asked
+        # for in part
+        if self.method == 'curve_hold' and np.allclose(
+            self.vec1,
+            (self.pos_target - self.pos1)
+            / np.linalg.norm(self.pos_target - self.pos1)
+        ):
+            self.method = 'hold'
+            self.inc_target, self.azi_target, self.vec_target = (
+                self.inc1, self.azi1, self.vec1
+            )
+
     def _get_initial_methods(self):
         # TODO: probably better to load this in from a yaml file
         # [md2, inc2, azi2, pos2, vec2] forms the booleans
-- 
2.43.0


From 5a9f5ccc04dbfb9b41f69367c4b017ede033fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 40/54] fix: a connection in feet reported its dogleg severity
 per 30 feet

---
 welleng/connector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 0538202..0e5db04 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -453,7 +453,9 @@ class Connector:
         self.md2 = self.md1 + abs(self.dist_curve)
         self.md_target = self.md2 + self.tangent_length
         self.vec2 = self.vec_target
-        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * 30
+        self.dls = (
+            np.degrees(self.dogleg) / abs(self.dist_curve) * self.denom
+        )
 
     def _min_curve_to_target(self):
         (
@@ -475,7 +477,7 @@ class Connector:
         )
         self._get_angles_target()
         self._get_md_target()
-        self.dls = np.degrees(self.dogleg) / self.dist_curve * 30
+        self.dls = np.degrees(self.dogleg) / self.dist_curve * self.denom
 
     def _use_method(self):
         if self.method == 'hold':
@@ -1514,11 +1516,11 @@ def minimize_target_pos_and_vec_defined(
         c.dls = max(
             np.radians(dls_from_radius(c.radius_design)),
             np.radians(dls_from_radius(c.radius_critical))
-        )
+        ) * c.denom / 30
         c.dls2 = max(
             np.radians(dls_from_radius(c.radius_design2)),
             np.radians(dls_from_radius(c.radius_critical2))
-        )
+        ) * c.denom / 30
 
         if c.error:
             break
-- 
2.43.0


From 08e5a69d18035dae6931d644016e7ecb17494e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:42 +0000
Subject: [PATCH 41/54] fix: a connection to a direction did not report its
 dogleg severity

---
 welleng/connector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index 0e5db04..41c281f 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -683,6 +683,10 @@ class Connector:
                     self.dist_curve,
                     self.func_dogleg
                 ).reshape(3)
+        self.dls = (
+            0.0 if self.dist_curve == 0 else
+            np.degrees(self.dogleg) / abs(self.dist_curve) * self.denom
+        )
 
     def _hold(self):
         if self.pos_target is None:
-- 
2.43.0


From cf5a424bebb5d716a92e4a2e04d6534e063d4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 42/54] fix: the closest approach to a target inside the
 tightest arc was undefined

---
 welleng/connector.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 41c281f..b5e9add 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -586,17 +586,14 @@ class Connector:
 
     def _closest_approach(self):
         vec_pos1_pos_target = self.pos_target - self.pos1
-        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
 
-        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
-        cross_product /= np.linalg.norm(cross_product)
-
-        factor = cross_product / vec_pos1_pos_target
-        factor /= abs(factor)
-
-        cc = (
-            self.pos1 + cross_product * factor * self.radius_design
+        # the center of the arc is to the side on which the target lies
+        vec_pos1_cc = vec_pos1_pos_target - (
+            np.dot(vec_pos1_pos_target, self.vec1) * self.vec1
         )
+        vec_pos1_cc = vec_pos1_cc / np.linalg.norm(vec_pos1_cc)
+
+        cc = self.pos1 + vec_pos1_cc * self.radius_design
 
         cc_pos_target = self.pos_target - cc
         cc_pos_target /= np.linalg.norm(cc_pos_target)
-- 
2.43.0


From 7bd3309f7a378fe0e2586783bf4dc2d4b9cce2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:08 +0000
Subject: [PATCH 43/54] fix: an arc of more than 180 degrees was interpolated
 the other way round

---
 welleng/connector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index b5e9add..577ebf1 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2090,6 +2090,8 @@ def interpolate_curve(
         vec = np.tile(vec1, (len(md), 1))
     else:
         rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
+        if dogleg > np.pi:
+            rot_axis = -rot_axis               # more than half way round
         in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
         vec = (
             np.cos(dogleg_interp) * vec1
-- 
2.43.0


From d01d2a9d640bf6ccb5744700ccb4b27c9e2897db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 44/54] fix: a plan could not be made of a survey

---
 welleng/connector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 577ebf1..1bc485b 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2510,10 +2510,12 @@ def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
 def _get_section(
     survey, start, tolerance, dls_design=1., md=0., node=None
 ):
+    from .survey import from_connections
+
     idx = start + 2
     nev = survey.get_nev_arr()
 
-    if idx > len(nev):
+    if idx >= len(nev):
         idx = len(nev) - 1
 
     if node is None:
@@ -2539,7 +2541,7 @@ def _get_section(
             node2=node_2,
             dls_design=dls_design
         )
-        s = c.survey(step=1.)
+        s = from_connections(c, step=1.)
         if c_old is None:
             c_old = deepcopy(c)
         nev_new = s.get_nev_arr()
-- 
2.43.0


From c5ca549d479e2e57f87fcdaf5bcb8811e2a64564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 45/54] fix: points could not be connected with a whole number
 as the dogleg severity

---
 welleng/connector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 1bc485b..3a5acb1 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2420,10 +2420,7 @@ def connect_points(
         vec_nev = np.zeros_like(pos_nev)
         vec_nev[0] = get_nev(vec_start)
 
-    if type(dls_design) is float:
-        dls = np.full(len(pos_nev), dls_design)
-    else:
-        dls = np.array(dls_design).reshape(-1, 1)
+    dls = np.broadcast_to(np.ravel(dls_design), len(pos_nev))
 
     connections = []
     for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
-- 
2.43.0


From 854ea38e8b1d626cebf289f80dc64717850a7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 46/54] fix: the decimals for duplicate stations of connections
 were ignored

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a681606..c6a02e6 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2688,7 +2688,7 @@ def from_connections(
     ]).T
 
     # remove duplicates
-    md, inc, azi = _remove_duplicates(md, inc, azi)
+    md, inc, azi = _remove_duplicates(md, inc, azi, decimals)
 
     if survey_header is None:
         survey_header = SurveyHeader(
-- 
2.43.0


From f42a545b88ecbf364825a69ab061b9c1f86f01f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 47/54] fix: the tortuosity index of a survey in feet was taken
 as in metres

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c6a02e6..679aff4 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1592,7 +1592,8 @@ def tortuosity_index(survey, rtol=0.01, dls_tol=None, data=False, **kwargs):
     by Pradeep Ashok et al.
     """
     # set default params
-    coeff = kwargs.get('coeff', 0.3048)  # for testing dimensionlessness
+    # for testing dimensionlessness, lengths are taken in feet
+    coeff = kwargs.get('coeff', 0.3048 if survey.unit == 'meters' else 1.0)
     kappa = kwargs.get('kapa', 1e7)
 
     continuous, starts, mds, locs, n_sections, n_sections_arr = _get_ti_data(
-- 
2.43.0


From eecbb9b93d8eb5dc803dbc26272ee711bfce31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 48/54] fix: the difficulty index of a survey in feet was taken
 as in metres

---
 welleng/survey.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 679aff4..555d57b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1656,18 +1656,19 @@ def directional_difficulty_index(survey, **kwargs):
     data: (n) array of floats
         The ddi for each survey station.
     """
+    unit = ureg(survey.unit)
     with np.errstate(divide='ignore', invalid='ignore'):
         ddi = np.nan_to_num(np.log10(
             (
-                (survey.md * ureg.meters).to('ft').m
+                (survey.md * unit).to('ft').m
                 * (
                     np.linalg.norm(
                         (survey.n, survey.e), axis=0
-                    ) * ureg.meters
+                    ) * unit
                 ).to('ft').m
                 * np.cumsum(np.degrees(survey.dogleg))
             )
-            / (survey.tvd * ureg.meters).to('ft').m
+            / (survey.tvd * unit).to('ft').m
         ), nan=0.0, posinf=0.0, neginf=0.0)
 
     return ddi
-- 
2.43.0


From a9700bc1f2478a1da4e7b3c31f3d69f560e0e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 49/54] fix: the maximum curvature of a survey in feet used
 radii for metres

---
 welleng/survey.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 555d57b..a9f7f9f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1455,8 +1455,9 @@ class Survey:
         ----------
         survey: welleng.survey.Survey object
         dls_noise: float
-            The additional Dog Leg Severity (DLS) in deg/30m used to calculate
-            the curvature for the initial section of the survey interval.
+            The additional Dog Leg Severity (DLS) in deg/30m (or deg/100ft for
+            a survey in feet) used to calculate the curvature for the initial
+            section of the survey interval.
 
         Returns
         -------
@@ -1468,6 +1469,9 @@ class Survey:
 
         dls_effective = self.dls + dls_noise
         radius_effective = radius_from_dls(dls_effective)
+        if self.unit != 'meters':
+            # the severities of a survey in feet are in deg/100ft
+            radius_effective = radius_effective * 100 / 30
 
         dogleg1 = (
             (self.delta_md / radius_effective) / 2
-- 
2.43.0


From fd3b1f9a216ae42668bf8c01eb00dc3eb67cc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:11 +0000
Subject: [PATCH 50/54] fix: the maximum curvature from a vertical station
 headed north

---
 welleng/survey.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a9f7f9f..6f45b53 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1483,10 +1483,17 @@ class Survey:
             radius_effective
         )
 
+        # a vertical direction has lost the azimuth its toolface refers to
+        toolfaces = self.toolface + np.where(
+            self.inc_rad == 0,
+            self.azi_grid_rad - get_angles(self.vec_nev, nev=True)[:, 1],
+            0
+        )
+
         arc1 = [
             get_arc(dogleg, _radius_effective, toolface, vec=vec)
             for dogleg, _radius_effective, toolface, vec in zip(
-                dogleg1[1:], radius_effective[1:], self.toolface[:-1],
+                dogleg1[1:], radius_effective[1:], toolfaces[:-1],
                 self.vec_nev[:-1]
             )
         ]
-- 
2.43.0


From d2744a0a234f9d66da5eb628daed47ba3f688853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 51/54] fix: the tortuosity index ignored the tolerance on the
 severity

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 6f45b53..55ec48a 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1431,7 +1431,7 @@ class Survey:
         """
 
         return tortuosity_index(
-            self, rtol=rtol, dls_tol=None, data=data, **kwargs
+            self, rtol=rtol, dls_tol=dls_tol, data=data, **kwargs
         )
 
     def directional_difficulty_index(self, **kwargs):
-- 
2.43.0


From 8b977552cc0588c407541e692b78f6cac84eeb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 52/54] fix: the way to the bit bent at the design severity of
 the target

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 55ec48a..65b1bb8 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3078,8 +3078,9 @@ def project_to_target(
             survey.md[-1]
         )
         node_bit.pos_nev, node_bit.pos_xyz = None, None
+        # the curve to the bit is that of the projection, not of the design
         connectors.append(
-            Connector(node_start, node_bit, dls_design=dls_design)
+            Connector(node_start, node_bit, dls_design=dls or dls_design)
         )
         node_bit = connectors[-1].node_end
     else:
-- 
2.43.0


From d6d657c44767e19ebec7cb4e4ba6afb05fd386fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 53/54] fix: magnitudes published in deg.nT were not converted
 to radians

---
 welleng/errors/tool_errors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index cd5ba03..08d407c 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -36,6 +36,7 @@ _MAG_UNIT_TO_BASE = {
     "deg":     np.pi / 180.0,  # angle: degrees -> radians
     "deg/hr":  np.pi / 180.0,  # gyro rate: deg/hr -> rad/hr
     "deg/nT":  np.pi / 180.0,  # B-field-coupled angle gradient
+    "deg.nT":  np.pi / 180.0,  # B-field-scaled angle (as published, DBH)
     "-":       1.0,            # dimensionless (scale factors)
     "":        1.0,            # missing unit treated as dimensionless
 }
-- 
2.43.0


From a5bb64b1325d1ec4d5ad97360cdc296d05af804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:39 +0000
Subject: [PATCH 54/54] fix: drop_off could not build to a higher inclination

---
 welleng/connector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 3a5acb1..5f68f81 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2634,7 +2634,8 @@ def drop_off(
         [0, min(2 * np.pi, max_dogleg)],
         [-np.pi, np.pi]
     ]
-    x0 = [bounds[0][1] / 2, np.pi]
+    delta_inc = np.radians(target_inc) - node.inc_rad
+    x0 = [min(abs(delta_inc), bounds[0][1]), 0 if delta_inc > 0 else np.pi]
     result = minimize(
         _drop_off, x0, args=args, bounds=bounds,
         method="SLSQP"
-- 
2.43.0

