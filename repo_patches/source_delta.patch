From c05755643bb7f06679580c163f03b6c4b85753f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 01/29] fix: repeated or interrupted create_ils no longer mixes
 positions and results

---
 src/pycba/inf_lines.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index c1c061d..d30e647 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -66,7 +66,10 @@ class InfluenceLines:
         -------
         None.
         """
-        self.vResults = []  # reset
+        # Built locally and published together on completion, so repeating or
+        # interrupting the traverse never leaves mismatched positions/results.
+        pos_list = []
+        results = []
 
         if step is None:
             step = self.L / 100
@@ -76,7 +79,7 @@ class InfluenceLines:
         for i in range(npts):
             # load position
             pos = i * step
-            self.pos.append(pos)
+            pos_list.append(pos)
             # locate load on span
             ispan, pos_in_span = self.ba.beam.get_local_span_coords(pos)
             if ispan == -1:
@@ -88,7 +91,10 @@ class InfluenceLines:
             if out != 0:
                 raise ValueError("IL analysis did not succeed")
                 return
-            self.vResults.append(self.ba.beam_results)
+            results.append(self.ba.beam_results)
+
+        self.pos = pos_list
+        self.vResults = results
 
     def get_il(self, poi: float, load_effect: str) -> (np.ndarray, np.ndarray):
         """
-- 
2.43.0


From edf0a17851e5bd8598d37c3751544f9ecd409540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 02/29] fix: load cases and patterns keep the template's
 elastic foundation

---
 src/pycba/load_cases.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index c30c5ed..ce26ee5 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -868,6 +868,7 @@ def build_pycba_model(
         eletype=list(beam.mbr_eletype),
         D=list(beam.prescribed_displacements),
         GAv=list(getattr(beam, "mbr_GAv", [])) or None,
+        kf=list(beam.mbr_kf) or None,
     )
 
 
-- 
2.43.0


From 9362284cf7a8bbdfc75b91eddc89ba57be6fb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 03/29] fix: a moving-load run that cannot start no longer
 leaves shear points armed

---
 src/pycba/bridge.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3d00c78..ce5f197 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -246,9 +246,8 @@ class BridgeAnalysis:
             The `pycba.Beamresults` object containing the analysis results.
         """
         self._check_objects()
-        self._apply_shear_points(shear_points, dv)
-
         try:
+            self._apply_shear_points(shear_points, dv)
             out = self._single_analysis(pos)
             if out != 0:
                 raise ValueError("Bridge analysis did not succeed")
@@ -412,7 +411,6 @@ class BridgeAnalysis:
         self._check_objects()
         self.pos = []
         self.vResults = []
-        self._apply_shear_points(shear_points, dv)
 
         if pos_start is None:
             pos_start = 0.0
@@ -425,6 +423,7 @@ class BridgeAnalysis:
             fig, axs = plt.subplots(2, 1, sharex=True, figsize=(10, 6))
 
         try:
+            self._apply_shear_points(shear_points, dv)
             for i in range(npts):
                 # load position
                 pos = pos_start + i * step
@@ -544,7 +543,6 @@ class BridgeAnalysis:
         self._check_objects()
         self.pos = []
         self.vResults = []
-        self._apply_shear_points(shear_points, dv)
 
         length = self.ba.beam.length
         if pos_start is None:
@@ -555,6 +553,7 @@ class BridgeAnalysis:
         npts = round((pos_end - pos_start) / step) + 1
 
         try:
+            self._apply_shear_points(shear_points, dv)
             for i in range(npts):
                 pos = pos_start + i * step
                 self.pos.append(pos)
-- 
2.43.0


From 538990e2734fd515b0420b6cac10530057991eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 04/29] fix: vehicle loads no longer stay on the bridge model
 after a moving-load run

---
 src/pycba/bridge.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index ce5f197..1c03abf 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -252,13 +252,18 @@ class BridgeAnalysis:
             if out != 0:
                 raise ValueError("Bridge analysis did not succeed")
         finally:
-            self.ba.shear_points = None
+            self._release_bridge()
 
         if plotflag:
             self.plot_static(pos)
 
         return self.ba.beam_results
 
+    def _release_bridge(self):
+        """Return the bridge to its permanent state: no shear points, no vehicle."""
+        self.ba.shear_points = None
+        self.ba.set_loads(self.static_LM)
+
     def _apply_shear_points(self, shear_points, dv):
         """
         Resolve and arm shear-point sections on the underlying beam analysis.
@@ -436,7 +441,7 @@ class BridgeAnalysis:
                     plt.pause(0.01)
                 self.vResults.append(self.ba.beam_results)
         finally:
-            self.ba.shear_points = None
+            self._release_bridge()
 
         env = Envelopes(self.vResults)
 
@@ -584,7 +589,7 @@ class BridgeAnalysis:
                     raise ValueError(f"Bridge analysis did not succeed at {pos=}")
                 self.vResults.append(self.ba.beam_results)
         finally:
-            self.ba.shear_points = None
+            self._release_bridge()
 
         env = Envelopes(self.vResults)
 
@@ -831,7 +836,10 @@ class BridgeAnalysis:
         fig = None
         if own_fig:
             self._check_objects()
-            self._single_analysis(pos)
+            try:
+                self._single_analysis(pos)
+            finally:
+                self._release_bridge()
             fig, axs = plt.subplots(
                 3,
                 1,
-- 
2.43.0


From 0713e89440073bd17c24d4c9b50e31588f7adce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 05/29] fix: a rejected add_span leaves the beam unchanged

---
 src/pycba/beam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 062f631..a363c26 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -224,6 +224,7 @@ class Beam:
         None.
 
         """
+        eletype = MemberType.coerce(eletype)  # reject before anything is stored
         if isinstance(EI, SectionEI):
             # A non-prismatic section must span the full member length so its
             # piecewise EI(x) covers the element exactly.
@@ -235,7 +236,7 @@ class Beam:
         self.mbr_EIs.append(EI)
         self.mbr_GAv.append(GAv)
         self.mbr_kf.append(kf)
-        self.mbr_eletype.append(MemberType.coerce(eletype))
+        self.mbr_eletype.append(eletype)
         self._no_spans = len(self.mbr_lengths)
         self._length += L
         self._terminal_coords.append(self._terminal_coords[-1] + L)
-- 
2.43.0


From ce10ce0c7d83bcdc5a23059349c1d1f0ba54f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 06/29] fix: models built from one load matrix no longer share
 its list

---
 src/pycba/beam.py   | 4 ++--
 src/pycba/bridge.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index a363c26..933b035 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -150,7 +150,7 @@ class Beam:
             else:
                 self._prescribed_displacements = [None] * len(R)
         if LM is not None:
-            self.LM = LM
+            self.LM = list(LM)
 
     @staticmethod
     def _broadcast_GAv(GAv, n_spans: int) -> list:
@@ -303,7 +303,7 @@ class Beam:
         None
 
         """
-        self.LM = LM
+        self.LM = list(LM)
         self.no_loads = len(self.LM)
 
     def add_load(self, load: LoadType):
diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 1c03abf..19fd8ce 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -263,6 +263,7 @@ class BridgeAnalysis:
         """Return the bridge to its permanent state: no shear points, no vehicle."""
         self.ba.shear_points = None
         self.ba.set_loads(self.static_LM)
+        self.static_LM = self.ba.beam.loads
 
     def _apply_shear_points(self, shear_points, dv):
         """
-- 
2.43.0


From f72943e34b4dd5f3ea0b23eb6b7d4e4f20cdbcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 07/29] fix: an interrupted pattern analysis leaves the beam
 model untouched

---
 src/pycba/pattern.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pycba/pattern.py b/src/pycba/pattern.py
index 844785c..8e392c8 100644
--- a/src/pycba/pattern.py
+++ b/src/pycba/pattern.py
@@ -118,12 +118,14 @@ class LoadPattern:
         for load_case in self.to_load_cases():
             model = build_pycba_model(self.ba, load_case)
             model.analyze(npts if npts is not None else self.ba.npts)
-            self.ba.set_loads(_load_case_loads(load_case))
-            self.ba.npts = model.npts
-            self.ba._beam_results = model.beam_results
             results.append(model.beam_results)
 
-        return Envelopes(results)
+        envelopes = Envelopes(results)
+        # The last pattern is left on the beam model once the run is complete
+        self.ba.set_loads(_load_case_loads(load_case))
+        self.ba.npts = model.npts
+        self.ba._beam_results = model.beam_results
+        return envelopes
 
     def to_load_cases(self) -> LoadCases:
         """
-- 
2.43.0


From c8c59ad3a682fb01d809f593ce65f8ff62d44158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 08/29] fix: a failed analysis no longer changes the number of
 evaluation points

---
 src/pycba/analysis.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index addedb1..aa25288 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -441,8 +441,7 @@ class BeamAnalysis:
             structure is geometrically unstable (see :meth:`_check_stability`
             and :meth:`_solver`).
         """
-        if npts and npts > 3:
-            self.npts = npts
+        n_eval = npts if npts and npts > 3 else self.npts
 
         restraints = self._beam.restraints
         d_presc = self._beam.prescribed_displacements
@@ -460,9 +459,9 @@ class BeamAnalysis:
         d = self._solver(ksys, f)
         r, rs = self._reactions(ksysU, d, fU)
 
-        self._beam_results = BeamResults(
-            self._beam, d, r, self.npts, rs, self.shear_points
-        )
+        beam_results = BeamResults(self._beam, d, r, n_eval, rs, self.shear_points)
+        self._beam_results = beam_results
+        self.npts = n_eval
         return 0
 
     def modal(self, mass, n_modes: int = 10, nseg: int = 12):
-- 
2.43.0


From 0d1ac5f50e3fe53093246497e43f85591631f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 09/29] fix: a Vehicle owns its axle arrays instead of sharing
 the library's

---
 src/pycba/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index f0796cd..3f4c13e 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -39,8 +39,8 @@ class Vehicle:
         None.
 
         """
-        self.axs = np.asarray(axle_spacings)
-        self.axw = np.asarray(axle_weights)
+        self.axs = np.array(axle_spacings)
+        self.axw = np.array(axle_weights)
 
         if len(self.axs) + 1 != len(self.axw):
             raise ValueError("Inconsistent axle spacing and weight counts")
-- 
2.43.0


From 015e73d04a5df5fa55156fee3661a404f49154c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 10/29] fix: in-place vehicle reversal is seen by trains,
 copies and a second reversal

---
 src/pycba/vehicle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index 3f4c13e..0b52a7d 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -71,7 +71,9 @@ class Vehicle:
 
         """
         if in_place:
-            self.axle_coords = +self.L - self.axle_coords
+            self.axs = self.axs[::-1].copy()
+            self.axw = self.axw[::-1].copy()
+            self.axle_coords = self.L - self.axle_coords[::-1]
         else:
             return Vehicle(np.copy(self.axs[::-1]), np.copy(self.axw[::-1]))
 
-- 
2.43.0


From 6c31a4740c0650a38d06ec48ebeb120c85bc0f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 11/29] fix: a rejected load no longer leaves an empty load
 case behind

---
 src/pycba/load_cases.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index ce26ee5..cbbcf2f 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -463,6 +463,14 @@ class LoadCases:
 
         return self.case(load_case).add_load(load)
 
+    def _add_rows(self, load_case: str, rows: LoadMatrix) -> LoadCase:
+        """Append already-validated load rows to a case, creating it if needed."""
+
+        case = self.case(load_case)
+        for row in rows:
+            case.add_load(row)
+        return case
+
     def add_udl(self, load_case: str, i_span: int, w: float) -> LoadCase:
         """Append a full-span UDL to a named load case."""
 
@@ -490,7 +498,8 @@ class LoadCases:
         UDL rows as required.
         """
 
-        return self.case(load_case).add_segment_udl(self.beam_model, x0, x1, w)
+        staged = LoadCase(load_case).add_segment_udl(self.beam_model, x0, x1, w)
+        return self._add_rows(load_case, staged.loads)
 
     def add_all_spans_udl(self, load_case: str, w: float) -> LoadCase:
         """
@@ -536,12 +545,14 @@ class LoadCases:
     ) -> LoadCase:
         """Append a full-span or partial trapezoidal load to a named load case."""
 
-        return self.case(load_case).add_trap(i_span, w1, w2, a=a, c=c)
+        rows = LoadCase(load_case).add_trap(i_span, w1, w2, a=a, c=c).loads
+        return self._add_rows(load_case, rows)
 
     def add_ic(self, load_case: str, i_span: int, kappa) -> LoadCase:
         """Append an imposed-curvature load to a named load case."""
 
-        return self.case(load_case).add_ic(i_span, kappa)
+        rows = LoadCase(load_case).add_ic(i_span, kappa).loads
+        return self._add_rows(load_case, rows)
 
     def response_matrix(self, response: str = "M") -> tuple[np.ndarray, np.ndarray]:
         """Analyse all cases and return the common station vector and matrix."""
-- 
2.43.0


From 74e654b6bbbb4c5b41a96b0959a51ceb375f98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 12/29] fix: an interrupted envelope augment or sum leaves its
 target unchanged

---
 src/pycba/results.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index cba6398..59dc193 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -12,6 +12,7 @@ from .section import SectionEI
 from .types import MemberResults
 from .load import LoadMaMb, LoadCNL, LoadIC
 from copy import deepcopy
+from functools import wraps
 
 
 # Relative half-spacing of the paired "shear point" stations placed either side
@@ -375,6 +376,25 @@ class BeamResults:
         return path
 
 
+def _all_or_nothing(method):
+    """
+    Restore the object's attributes if the in-place operation does not complete.
+
+    Suited to methods that rebind attributes rather than modify arrays in place.
+    """
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        before = dict(vars(self))
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            vars(self).update(before)
+            raise
+
+    return wrapper
+
+
 class Envelopes:
     """
     Envelopes load effects from a vector of BeamResults.
@@ -649,6 +669,7 @@ class Envelopes:
             )
         return cls([beam_results])
 
+    @_all_or_nothing
     def augment(self, env: Envelopes):
         """
         Augments this set of envelopes with another compatible set, making this the
@@ -707,6 +728,7 @@ class Envelopes:
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
+    @_all_or_nothing
     def sum(self, env: Envelopes):
         """
         Adds another compatible set of envelopes to this one element-wise. This is
-- 
2.43.0


From d65aff44df79720ab08b1a7235988aa535293371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 13/29] fix: TikZ files are written in UTF-8, the encoding they
 declare

---
 src/pycba/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index cefdece..2905f8d 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1003,7 +1003,7 @@ class BeamPlotter:
         if path.suffix != ".tex":
             path = path.with_suffix(".tex")
         opts.pop("standalone", None)
-        path.write_text(self.render_tikz(standalone=True, **opts))
+        path.write_text(self.render_tikz(standalone=True, **opts), encoding="utf-8")
         if not compile:
             return path
 
-- 
2.43.0


From 4e7770dcb7bc06d49664991808d42f980185d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 14/29] fix: a PDF left by an earlier compilation is not
 returned as the new one

---
 src/pycba/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 2905f8d..d01d452 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1014,13 +1014,14 @@ class BeamPlotter:
                 "distribution that provides the 'stanli' package, or call "
                 "save_tikz(..., compile=False) to emit the .tex only."
             )
+        pdf = path.with_suffix(".pdf")
+        pdf.unlink(missing_ok=True)  # only a PDF of this run counts
         proc = subprocess.run(
             [exe, "-interaction=nonstopmode", "-halt-on-error", path.name],
             cwd=str(path.parent),
             capture_output=True,
             text=True,
         )
-        pdf = path.with_suffix(".pdf")
         if proc.returncode != 0 or not pdf.exists():
             raise RuntimeError(
                 "pdflatex failed to compile the figure. Tail of the log:\n"
-- 
2.43.0


From 13a390e834720c7820cb66baffe466d1f932615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 15/29] fix: undecodable compiler output no longer fails a TikZ
 compilation

---
 src/pycba/render.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index d01d452..2b50681 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1021,6 +1021,7 @@ class BeamPlotter:
             cwd=str(path.parent),
             capture_output=True,
             text=True,
+            errors="replace",  # compiler logs are not always valid text
         )
         if proc.returncode != 0 or not pdf.exists():
             raise RuntimeError(
-- 
2.43.0


From d3259cf0949f0cb89bc8700ecebfcc9ad814c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 16/29] fix: a beam keeps its own copies of load rows,
 restraints and support movements

---
 src/pycba/beam.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 933b035..14ec640 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -1,6 +1,7 @@
 """
 PyCBA - Beam Class definition
 """
+from copy import copy
 from typing import Optional, Sequence, Union
 import numpy as np
 from scipy import integrate
@@ -138,7 +139,7 @@ class Beam:
             if R is None:
                 raise ValueError("Provide support conditions via R or supports.")
             if len(R) == 2 * len(L) + 2:
-                self._restraints = R
+                self._restraints = copy(R)
             else:
                 raise ValueError("Insufficient restraints defined")
             if D is not None:
@@ -146,11 +147,11 @@ class Beam:
                     raise ValueError(
                         f"D must have same length as R ({len(R)}), got {len(D)}"
                     )
-                self._prescribed_displacements = D
+                self._prescribed_displacements = copy(D)
             else:
                 self._prescribed_displacements = [None] * len(R)
         if LM is not None:
-            self.LM = list(LM)
+            self.LM = [copy(load) for load in LM]
 
     @staticmethod
     def _broadcast_GAv(GAv, n_spans: int) -> list:
@@ -303,7 +304,7 @@ class Beam:
         None
 
         """
-        self.LM = list(LM)
+        self.LM = [copy(load) for load in LM]
         self.no_loads = len(self.LM)
 
     def add_load(self, load: LoadType):
@@ -320,7 +321,7 @@ class Beam:
         None
         """
 
-        self.LM.append(load)
+        self.LM.append(copy(load))
         self.no_loads = len(self.LM)
 
     def _set_loads(self):
@@ -372,7 +373,7 @@ class Beam:
         None
 
         """
-        self._restraints = r
+        self._restraints = copy(r)
         self._structure_version += 1
 
     @property
@@ -418,7 +419,7 @@ class Beam:
             raise ValueError(
                 f"D must have same length as R ({len(self._restraints)}), got {len(d)}"
             )
-        self._prescribed_displacements = d
+        self._prescribed_displacements = copy(d)
         self._structure_version += 1
 
     def _set_element_type(self, i_span):
-- 
2.43.0


From cc7fa3ba4a6e38dafa2edf3f3767a8a1d8a08c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 17/29] fix: a beam keeps its own copy of a section object

---
 src/pycba/beam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 14ec640..527f2c6 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -1,7 +1,7 @@
 """
 PyCBA - Beam Class definition
 """
-from copy import copy
+from copy import copy, deepcopy
 from typing import Optional, Sequence, Union
 import numpy as np
 from scipy import integrate
@@ -230,9 +230,11 @@ class Beam:
             # A non-prismatic section must span the full member length so its
             # piecewise EI(x) covers the element exactly.
             EI.validate_length(L)
+            EI = deepcopy(EI)  # later segments of the caller's section are not ours
         if isinstance(GAv, SectionEI):
             # A variable shear rigidity must likewise cover the full member.
             GAv.validate_length(L)
+            GAv = deepcopy(GAv)
         self.mbr_lengths.append(L)
         self.mbr_EIs.append(EI)
         self.mbr_GAv.append(GAv)
-- 
2.43.0


From 4e2337b4ce41322c1f90b6955697ff23f52b5e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 18/29] fix: a span whose length is refused is no longer half
 added

---
 src/pycba/beam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 527f2c6..df7d64a 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -235,14 +235,16 @@ class Beam:
             # A variable shear rigidity must likewise cover the full member.
             GAv.validate_length(L)
             GAv = deepcopy(GAv)
+        length = self._length + L
+        end = self._terminal_coords[-1] + L
         self.mbr_lengths.append(L)
         self.mbr_EIs.append(EI)
         self.mbr_GAv.append(GAv)
         self.mbr_kf.append(kf)
         self.mbr_eletype.append(eletype)
         self._no_spans = len(self.mbr_lengths)
-        self._length += L
-        self._terminal_coords.append(self._terminal_coords[-1] + L)
+        self._length = length
+        self._terminal_coords.append(end)
         self._structure_version += 1
         self._found_cache = {}  # invalidate foundation super-elements
 
-- 
2.43.0


From 6e5bd028d96ae30a764776e19614a1f98c385ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 19/29] fix: a refused batch of load cases is no longer partly
 added

---
 src/pycba/load_cases.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index cbbcf2f..f3fd171 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -440,28 +440,38 @@ class LoadCases:
     def extend(self, load_cases: Sequence[LoadCase]) -> None:
         """Append several load cases."""
 
-        for load_case in load_cases:
-            self.append(load_case)
+        first = len(self._cases)
+        try:
+            for load_case in load_cases:
+                self.append(load_case)
+        except BaseException:
+            del self._cases[first:]  # all of them or none
+            raise
 
     def add_span_udl(self, w: float) -> list[LoadCase]:
         """Add one full-span UDL case per span."""
 
         added = []
-        for i, _ in enumerate(_beam_spans(self.beam_model)):
-            added.append(
-                self.add(
-                    name=f"UDL on span {i + 1}",
-                    loads=[[i + 1, 1, w]],
-                    loaded_spans=(i,),
-                    metadata={"type": "span_udl", "span": i, "w": w},
+        first = len(self._cases)
+        try:
+            for i, _ in enumerate(_beam_spans(self.beam_model)):
+                added.append(
+                    self.add(
+                        name=f"UDL on span {i + 1}",
+                        loads=[[i + 1, 1, w]],
+                        loaded_spans=(i,),
+                        metadata={"type": "span_udl", "span": i, "w": w},
+                    )
                 )
-            )
+        except BaseException:
+            del self._cases[first:]  # all of them or none
+            raise
         return added
 
     def add_load(self, load_case: str, load: list) -> LoadCase:
         """Append one raw load row to a named load case."""
 
-        return self.case(load_case).add_load(load)
+        return self._add_rows(load_case, LoadCase(load_case).add_load(load).loads)
 
     def _add_rows(self, load_case: str, rows: LoadMatrix) -> LoadCase:
         """Append already-validated load rows to a case, creating it if needed."""
-- 
2.43.0


From 407c21594b410ff531d693d63877768f66cc5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 20/29] fix: nonlinear results keep their own node and support
 coordinates

---
 src/pycba/nonlinear.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d7feb32..d1fa5e9 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -936,10 +936,10 @@ class NonlinearBeamAnalysis:
                     lam - dl,
                     True,
                     hinge_events,
-                    self.node_coords,
+                    self.node_coords.copy(),
                     moments,
                     R_elem.copy(),
-                    self.support_coords,
+                    self.support_coords.copy(),
                     lam_hist,
                     mom_hist,
                     u_total,
@@ -956,10 +956,10 @@ class NonlinearBeamAnalysis:
                     lam,
                     True,
                     hinge_events,
-                    self.node_coords,
+                    self.node_coords.copy(),
                     moments,
                     R_elem.copy(),
-                    self.support_coords,
+                    self.support_coords.copy(),
                     lam_hist,
                     mom_hist,
                     u_total,
@@ -973,10 +973,10 @@ class NonlinearBeamAnalysis:
             lam,
             False,
             hinge_events,
-            self.node_coords,
+            self.node_coords.copy(),
             moments,
             R_elem.copy(),
-            self.support_coords,
+            self.support_coords.copy(),
             lam_hist,
             mom_hist,
             u_total,
@@ -1155,5 +1155,13 @@ class NonlinearBeamAnalysis:
     def _mr(self, x, coll, he, mom, R, lh, mh):
         """Package analysis state into a :class:`NonlinearResult`."""
         return NonlinearResult(
-            x, coll, he, self.node_coords, mom, R.copy(), self.support_coords, lh, mh
+            x,
+            coll,
+            he,
+            self.node_coords.copy(),
+            mom,
+            R.copy(),
+            self.support_coords.copy(),
+            lh,
+            mh,
         )
-- 
2.43.0


From 2f263c4869a7a9b66d009243ae72f1084c1cdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 21/29] fix: a load case keeps its own copy of the rows it is
 built from

---
 src/pycba/load_cases.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index f3fd171..4d8ec67 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -46,6 +46,10 @@ class LoadCase:
     loaded_spans: tuple[int, ...] = ()
     metadata: Optional[dict] = None
 
+    def __post_init__(self):
+        # the caller's rows stay the caller's: the helpers below extend our own
+        self.loads = deepcopy(self.loads)
+
     def add_load(self, load: list) -> LoadCase:
         """Append one raw PyCBA load-matrix row."""
 
-- 
2.43.0


From 620fabfa7dc2aeda0d8b7f23cada375532481bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 22/29] fix: a refused LoadCases.set leaves the stored case
 unchanged

---
 src/pycba/load_cases.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 4d8ec67..aaae56e 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -421,9 +421,11 @@ class LoadCases:
         except KeyError:
             return self.add(name, loads, loaded_spans=loaded_spans, metadata=metadata)
 
-        case.loads = deepcopy(loads)
+        loads = deepcopy(loads)  # copy all of it before anything is replaced
+        metadata = deepcopy(metadata) if metadata is not None else None
+        case.loads = loads
         case.loaded_spans = loaded_spans
-        case.metadata = deepcopy(metadata) if metadata is not None else None
+        case.metadata = metadata
         return case
 
     def append(self, load_case: LoadCase) -> LoadCase:
-- 
2.43.0


From dfc8bf988fc9b2a0498c4d56c5050bfb4252f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 23/29] fix: a refused set_bridge keeps the bridge that was set

---
 src/pycba/bridge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 19fd8ce..de1d8a9 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -170,8 +170,9 @@ class BridgeAnalysis:
         None.
 
         """
+        static_LM = ba.beam.loads  # reject before anything is stored
         self.ba = ba
-        self.static_LM = self.ba.beam.loads
+        self.static_LM = static_LM
 
     def add_vehicle(self, axle_spacings: np.ndarray, axle_weights: np.ndarray):
         """
-- 
2.43.0


From e284b58cfe592e5d4b71d27d6d887380da2459b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 24/29] fix: a refused row helper of LoadCases leaves no empty
 case behind

---
 src/pycba/load_cases.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index aaae56e..3acb4fa 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -482,27 +482,28 @@ class LoadCases:
     def _add_rows(self, load_case: str, rows: LoadMatrix) -> LoadCase:
         """Append already-validated load rows to a case, creating it if needed."""
 
+        rows = deepcopy(rows)  # what cannot be copied must not leave an empty case
         case = self.case(load_case)
-        for row in rows:
-            case.add_load(row)
+        case.loads.extend(rows)
         return case
 
     def add_udl(self, load_case: str, i_span: int, w: float) -> LoadCase:
         """Append a full-span UDL to a named load case."""
 
-        return self.case(load_case).add_udl(i_span, w)
+        return self._add_rows(load_case, LoadCase(load_case).add_udl(i_span, w).loads)
 
     def add_pl(self, load_case: str, i_span: int, p: float, a: float) -> LoadCase:
         """Append a point load to a named load case."""
 
-        return self.case(load_case).add_pl(i_span, p, a)
+        return self._add_rows(load_case, LoadCase(load_case).add_pl(i_span, p, a).loads)
 
     def add_pudl(
         self, load_case: str, i_span: int, w: float, a: float, c: float
     ) -> LoadCase:
         """Append a partial UDL to a named load case."""
 
-        return self.case(load_case).add_pudl(i_span, w, a, c)
+        rows = LoadCase(load_case).add_pudl(i_span, w, a, c).loads
+        return self._add_rows(load_case, rows)
 
     def add_segment_udl(
         self, load_case: str, x0: float, x1: float, w: float
@@ -543,12 +544,13 @@ class LoadCases:
         :meth:`add_span_udl` (one separate case per span).
         """
 
-        return self.case(load_case).add_all_spans_udl(self.beam_model, w)
+        staged = LoadCase(load_case).add_all_spans_udl(self.beam_model, w)
+        return self._add_rows(load_case, staged.loads)
 
     def add_ml(self, load_case: str, i_span: int, m: float, a: float) -> LoadCase:
         """Append a concentrated moment load to a named load case."""
 
-        return self.case(load_case).add_ml(i_span, m, a)
+        return self._add_rows(load_case, LoadCase(load_case).add_ml(i_span, m, a).loads)
 
     def add_trap(
         self,
-- 
2.43.0


From 7ab0f48ee277e02d0a5a56dfcb8defe9da204f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 25/29] fix: an envelope keeps its own list of results

---
 src/pycba/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index 59dc193..d7a2cd1 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -437,7 +437,7 @@ class Envelopes:
         None.
 
         """
-        self.vResults = vResults
+        self.vResults = vResults = list(vResults)
         self.x = vResults[0].results.x
         self.npts = len(self.x)
         self.nres = len(vResults)
-- 
2.43.0


From 88760bb3ed8ebd7d15f9a8ebf48b3c69481d11e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 26/29] fix: factors of a combination are handed out as a copy

---
 src/pycba/load_cases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 3acb4fa..3d9f429 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -643,7 +643,7 @@ class LoadCases:
                 out[idx] = value
             return out
 
-        out = np.asarray(factors, dtype=float)
+        out = np.array(factors, dtype=float)
         if out.ndim == 1 and out.shape[0] != len(self._cases):
             raise ValueError(f"Need {len(self._cases)} factors, got {out.shape[0]}.")
         if out.ndim == 2 and out.shape[1] != len(self._cases):
-- 
2.43.0


From 9ce6a9add9ba164374279fdf841c1597d1da9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:49 +0000
Subject: [PATCH 27/29] fix: a nonlinear beam keeps its own copies of the
 arrays it is given

---
 src/pycba/nonlinear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d1fa5e9..db48c4b 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -595,7 +595,7 @@ class NonlinearBeamAnalysis:
         q: float = 0.0,
         mesh_size: float = 0.5,
     ):
-        self.span_L = np.atleast_1d(np.asarray(L, dtype=float))
+        self.span_L = np.atleast_1d(np.array(L, dtype=float))
         self.n_spans = len(self.span_L)
         self.total_length = float(np.sum(self.span_L))
         self.span_R = list(R)
@@ -620,7 +620,7 @@ class NonlinearBeamAnalysis:
         _as = (
             lambda v, n: np.full(n, float(v))
             if isinstance(v, (int, float))
-            else np.atleast_1d(np.asarray(v, dtype=float))
+            else np.atleast_1d(np.array(v, dtype=float))
         )
         self.span_EI = _as(EI, self.n_spans)
         self.span_Mp = _as(Mp, self.n_spans)
-- 
2.43.0


From 1a50eaa3452583d09ab9ea0373fea47b9213ba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:52 +0000
Subject: [PATCH 28/29] fix: a foundation member's stiffness is handed out as a
 copy

---
 src/pycba/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index df7d64a..621a14b 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -895,7 +895,7 @@ class Beam:
         # Winkler foundation: the span is a condensed beam-on-elastic-foundation
         # super-element (see :meth:`_foundation`).
         if i_span < len(self.mbr_kf) and self.mbr_kf[i_span] is not None:
-            return self._foundation(i_span).k
+            return self._foundation(i_span).k.copy()
 
         # Shear-deformable (Timoshenko) member: opt-in via a finite ``GAv``.  A
         # variable EI and/or GAv goes through the flexibility integrator; the
-- 
2.43.0


From 070bff2cb8ed760247722a1525609d51f4659ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:44 +0000
Subject: [PATCH 29/29] fix: a mixed merge hands out no reaction history later
 either

Once envelopes with different numbers of results had been merged, the
reaction history was zeroed, but the next merge with an envelope of the
first's number of results put that one's history alone in its place.
---
 src/pycba/results.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index d7a2cd1..2fe5e9d 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -442,6 +442,7 @@ class Envelopes:
         self.npts = len(self.x)
         self.nres = len(vResults)
         self.nsup = len(vResults[0].R)
+        self._has_history = True  # Rmax/Rmin are the reaction histories
 
         (
             self.Vmax,
@@ -580,6 +581,7 @@ class Envelopes:
             zero_env.Rmin[i] = np.zeros(env.nres)
         zero_env.Rmaxval = np.zeros(env.nsup)
         zero_env.Rminval = np.zeros(env.nsup)
+        zero_env._has_history = True
         return zero_env
 
     @classmethod
@@ -720,11 +722,12 @@ class Envelopes:
         self.Rmaxval = np.maximum(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.minimum(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        if self.nres == env.nres and self._has_history and env._has_history:
             self.Rmax = np.maximum(self.Rmax, env.Rmax)
             self.Rmin = np.minimum(self.Rmin, env.Rmin)
         else:
-            # Ensure no misleading results returned
+            # Ensure no misleading results returned, now or from a later merge
+            self._has_history = False
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
@@ -767,11 +770,12 @@ class Envelopes:
         self.Rmaxval = np.add(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.add(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        if self.nres == env.nres and self._has_history and env._has_history:
             self.Rmax = np.add(self.Rmax, env.Rmax)
             self.Rmin = np.add(self.Rmin, env.Rmin)
         else:
-            # Ensure no misleading results returned
+            # Ensure no misleading results returned, now or from a later merge
+            self._has_history = False
             self.Rmax = np.zeros((self.nsup, self.nres))
             self.Rmin = np.zeros((self.nsup, self.nres))
 
-- 
2.43.0

