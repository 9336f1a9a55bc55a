From 397dfaf921e1e6a4817ec45b65638f164947f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 01/49] fix: answer a request at the lowest advertised
 reference frequency

The time found by interpolation for the frequency at the edge of the range
could fall outside the range by a rounding error, after which the request was
refused.
---
 gw_eccentricity/eccDefinition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 977294e..edf6297 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3335,6 +3335,12 @@ class eccDefinition:
                                   self.t_for_omega_gw_average,
                                   spline_kwargs=self.general_interp_kwargs,
                                   check_kwargs=False)
+            # Rounding errors in the interpolation can put the time for an
+            # fref at the edge of the allowed range slightly outside the times
+            # used for omega_gw_average.
+            tref_in = np.clip(tref_in,
+                              self.t_for_omega_gw_average[0],
+                              self.t_for_omega_gw_average[-1])
             # check if tref_in is monotonically increasing
             if any(np.diff(tref_in) <= 0):
                 debug_message(f"tref_in from fref_in using method {method} is"
-- 
2.43.0


From 6b106371bc8ff8e8bad02607e866da0629f0ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 02/49] fix: make the reference frequency segment independent
 of the time origin

The secular trend fit used for use_only_these_many_orbits with fref_in assumed
that the merger is at t=0, and failed for other conventions.
---
 gw_eccentricity/eccDefinition.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index edf6297..d64b9bf 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1983,11 +1983,14 @@ class eccDefinition:
             step = len(time) // 1000
             time = time[::step]
             omega = omega[::step]
-        # get the secular trend
-        secular_trend = QusicircularFitForMappingFrequencyToTime(time, omega)
+        # get the secular trend. The fit assumes that the merger is at t=0.
+        time_to_merger = time - self.t_merger
+        secular_trend = QusicircularFitForMappingFrequencyToTime(
+            time_to_merger, omega)
         res = secular_trend.least_square_fit()
         # get the location where the secular trend crosses omega_ref
-        idx = np.argmin(np.abs(secular_trend.model(time, *res.x) - omega_ref))
+        idx = np.argmin(np.abs(secular_trend.model(time_to_merger, *res.x)
+                               - omega_ref))
         return time[idx]
         
     def get_amp_phase_omega_gw_segments(self):
-- 
2.43.0


From 8d0ee5494efbe2c3b984a43827f22882ec1cc1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 03/49] fix: let FrequencyFits converge in units where the
 frequency is small

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 959b610..6551bbd 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -67,6 +67,11 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         # This would ensure that any modification of data_for_finding_extrema
         # does not modify omega_gw.
         self.data_for_finding_extrema = self.omega_gw.copy()
+        # In units where omega_gw is very small (MKS units, large total mass)
+        # the envelope fitting does not converge. Scale the data to be of
+        # order one, as is done for the AmplitudeFits method.
+        self.data_for_finding_extrema /= np.max(
+            np.abs(self.data_for_finding_extrema))
         self.method = "FrequencyFits"
         # Get dictionary of kwargs to be used for Fits methods.
         self.kwargs_for_fits_methods = check_kwargs_and_set_defaults(
-- 
2.43.0


From 80177ac846050b235601743f90057a1bcd372a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 04/49] fix: do not shift the time array provided by the user
 in the Fits methods

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 6551bbd..e948da4 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -187,7 +187,10 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         # axis such that merger occurs at t=0.
         # After the peaks are found, the time is reshifted to to its original
         # values at the end of this function so the merger is again at t_merger.
-        self.t -= self.t_merger
+        # Use a new array for the shifted times to avoid modifying the time
+        # array provided by the user.
+        t_original = self.t
+        self.t = t_original - self.t_merger
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
@@ -455,7 +458,7 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
 
         # Now that we are done with finding peaks, we shift the time axis to
         # it's original values
-        self.t += self.t_merger
+        self.t = t_original
         return np.array(extrema)
 
         # Procedure:
-- 
2.43.0


From acb8413383efa24af690edc968d83e9a05d39067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 05/49] fix: do not truncate the omegalm modes in the dict
 provided by the user

---
 gw_eccentricity/eccDefinition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index d64b9bf..91c9645 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -645,7 +645,10 @@ class eccDefinition:
         amp_phase_omega_dict.update(self.get_phaselm_from_dataDict(dataDict))
         # add omegalm
         if "omegalm" in dataDict:
-            amp_phase_omega_dict.update({"omegalm": dataDict["omegalm"]})
+            # make a copy to avoid modifying the dict provided by the user when
+            # the modes are truncated
+            amp_phase_omega_dict.update(
+                {"omegalm": dict(dataDict["omegalm"])})
         else:
             # compute it from phaselm that is already in amp_phase_omega_dict
             amp_phase_omega_dict.update(
-- 
2.43.0


From 747da6b6e8022d446fed2066d342164196bb9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 06/49] fix: transform amplm/phaselm data to the coprecessing
 frame without modifying the input

---
 gw_eccentricity/eccDefinition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 91c9645..bc33878 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -959,7 +959,9 @@ class eccDefinition:
             phaselm_dict = self.get_phaselm_from_dataDict(data_dict)
             # combine amplm and phaselm to get hlm
             hlm_dict = self.get_hlm_from_amplm_phaselm(amplm_dict, phaselm_dict)
-            data_dict.update(hlm_dict)
+            # Add only the modes for this tag, and add them to a new dict to
+            # avoid modifying the dict provided by the user.
+            data_dict = {**data_dict, "hlm" + tag: hlm_dict["hlm" + tag]}
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
             debug_message(
                 f"Removing the input inertial frame {'amplm' + tag}, "
-- 
2.43.0


From 0c55230261f5e5e2b6501c65b08ed7868f0ef5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 07/49] fix: do not modify the extra_kwargs provided by the
 user for precessing systems

---
 gw_eccentricity/eccDefinition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index bc33878..a16eaeb 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -477,8 +477,9 @@ class eccDefinition:
         if self.precessing:
             # set extra_kwargs to empty dict if it is None to avoid issues when
             # trying to access or set keys in extra_kwargs.
-            if extra_kwargs is None:
-                extra_kwargs = {}
+            # Use a copy to avoid modifying the dict provided by the user.
+            extra_kwargs = {} if extra_kwargs is None \
+                else deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
             filter_kwargs = check_kwargs_and_set_defaults(
-- 
2.43.0


From 8096c8b310ac28f48b19c83fbc359e0ac6f33123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 08/49] fix: guard against the extrapolated zeroecc region and
 add the residual diagnostic plots

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index a16eaeb..6b1f624 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2446,8 +2446,8 @@ class eccDefinition:
                 "pericenters/apocenters.")
         # check that tref_out is within t_zeroecc_shifted to make sure that
         # the output is not in the extrapolated region.
-        if "hlm_zeroecc" in self.dataDict and (self.tref_out[-1]
-                                               > self.t_zeroecc_shifted[-1]):
+        if hasattr(self, "t_zeroecc_shifted") and (
+                max(self.tref_out) > self.t_zeroecc_shifted[-1]):
             raise Exception("tref_out is in extrapolated region.\n"
                             f"Last element in tref_out = {self.tref_out[-1]}\n"
                             "Last element in t_zeroecc = "
@@ -3524,7 +3524,7 @@ class eccDefinition:
                          self.plot_decc_dt,
                          self.plot_phase_diff_ratio_between_extrema,
                          self.plot_omega_gw_average]
-        if "hlm_zeroecc" in self.dataDict:
+        if hasattr(self, "res_amp_gw"):
             # add residual amp_gw plot
             if self.method != "ResidualAmplitude":
                 list_of_plots.append(self.plot_residual_amp_gw)
-- 
2.43.0


From 9b20997ba985ee55ef1c229227293b232008811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 09/49] fix: do not require spin-induced oscillations in
 precessing data

---
 gw_eccentricity/spin_filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 1ae3066..1b0f1f1 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -184,6 +184,12 @@ def check_filter_requirement(t, data_copr_22, data_copr_2m2,
     secular_trend = _pn_fit_for_secular_trend(t, data_copr_22, data_type, t_merger)
     residual = data_copr_22 - secular_trend(t)
 
+    # If the asymmetry does not oscillate about zero, for example, when the
+    # modes are symmetric as in the nonprecessing limit, there are no
+    # spin-induced oscillations to filter.
+    if np.count_nonzero(np.diff(np.sign(asymmetry))) < 2:
+        return False
+
     # find an estimate of distance between the peaks
     _, _, delta_T = _find_intersection_points(
         t, data_copr_22, combination_sign * data_copr_2m2)
-- 
2.43.0


From 4f65907f0b77423f56475525960bfbaea2c78442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 10/49] fix: drop the extremum before a jump near the start of
 the data

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 6b1f624..b99a855 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1388,8 +1388,8 @@ class eccDefinition:
         if len(idx_too_small_ratio) > 0 and (idx_too_small_ratio[-1]
                                              < mid_index):
             last_idx = idx_too_small_ratio[-1]
-            last_pair_indices = [extrema_location[last_idx+1],
-                                 extrema_location[last_idx+2]]
+            last_pair_indices = [extrema_location[last_idx],
+                                 extrema_location[last_idx+1]]
             last_pair_times = [self.t[last_pair_indices[0]],
                                self.t[last_pair_indices[1]]]
             phase_diff_current = delta_phase_gw_extrema[last_idx+1]
@@ -1408,7 +1408,7 @@ class eccDefinition:
                 f"{last_pair_times[-1]} are therefore dropped.",
                 self.debug_level, important=False)
             extrema_location = extrema_location[extrema_location >=
-                                                extrema_location[last_idx]]
+                                                extrema_location[last_idx+1]]
         return extrema_location
 
     def drop_extrema_if_too_close(self, extrema_location,
-- 
2.43.0


From 435d412cf27855f8d3f5ca72e16979ed9c520357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 11/49] fix: drop both extrema when a pair is too close near
 the start of the data

---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index b99a855..d308b71 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1459,7 +1459,7 @@ class eccDefinition:
             if idx_too_close[-1] < mid_index:
                 last_index = idx_too_close[-1]
                 last_pair = [extrema_location[last_index],
-                             extrema_location[last_index-1]]
+                             extrema_location[last_index+1]]
                 last_pair_times = self.t[last_pair]
                 debug_message(
                     f"At least a pair of {extrema_type} are too close to "
@@ -1468,12 +1468,12 @@ class eccDefinition:
                     " Last pair of such extrema is located in the first half"
                     f" of the {extrema_type} locations between {last_pair},"
                     f"i.e., t={last_pair_times}.\n"
-                    f" {extrema_type} before {extrema_location[last_index]}"
-                    f" i.e., t < {self.t[extrema_location[last_index]]} "
+                    f" {extrema_type} before {extrema_location[last_index+1]}"
+                    f" i.e., t < {self.t[extrema_location[last_index+1]]} "
                     "are dropped.",
                     self.debug_level, important=False)
                 extrema_location = extrema_location[
-                    extrema_location >= extrema_location[last_index]]
+                    extrema_location >= extrema_location[last_index+1]]
         return extrema_location
 
     def get_good_extrema(self, pericenters, apocenters,
-- 
2.43.0


From 3baddd15678f0850dadfefb965fadde15004bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 12/49] fix: use the earliest and latest reference points to
 select the waveform segment

With use_only_these_many_orbits the first and the last reference time
or frequency of the array were used, which for an unsorted array selects
a segment that does not contain all of them (or an empty one).
---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index d308b71..e8d4e9b 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2030,7 +2030,7 @@ class eccDefinition:
           reference time.
 
         - Array of reference frequencies:
-          We obtain the reference times associated with the first and last
+          We obtain the reference times associated with the lowest and highest
           frequencies in the array using
           `get_approximate_tref_for_fref_using_secular_trend`, defining
           `t_left` and `t_right`. The data segment is then selected using
@@ -2059,13 +2059,13 @@ class eccDefinition:
     def _get_reference_bounds(self):
         """Get t_left and t_right depending on domain (time or frequency)."""
         if self.domain == "time":
-            t_left, t_right = self.tref_in[0], self.tref_in[-1]
+            t_left, t_right = min(self.tref_in), max(self.tref_in)
         else:
             t_left = self.get_approximate_tref_for_fref_using_secular_trend(
-                self.fref_in[0])
+                min(self.fref_in))
             if len(self.fref_in) > 1:
                 t_right = self.get_approximate_tref_for_fref_using_secular_trend(
-                    self.fref_in[-1])
+                    max(self.fref_in))
             else:
                 t_right = t_left
         return t_left, t_right
-- 
2.43.0


From 2c19d476f3cfa01094f39b1d5ca884ef4f95cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 13/49] fix: suppress the zero eccentricity warning when
 debug_level is -1

---
 gw_eccentricity/eccDefinition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index e8d4e9b..0a0ae18 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1858,7 +1858,8 @@ class eccDefinition:
                     "Instead the eccentricity and mean anomaly will be set to "
                     "zero.",
                     important=True,
-                    debug_level=0)
+                    # Issue only a warning, unless it is to be suppressed.
+                    debug_level=min(self.debug_level, 0))
             else:
                 recommended_methods = ["ResidualAmplitude", "AmplitudeFits"]
                 if self.method not in recommended_methods:
-- 
2.43.0


From 651328b5b8d66b3166ac58f7fb390f360335268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 14/49] fix: do not print rational fit iterations when
 debug_level is -1

---
 gw_eccentricity/eccDefinition.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 0a0ae18..9a35c33 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1219,10 +1219,11 @@ class eccDefinition:
         debugging purpose. These variables may vary from method to method.
         """
         if self.omega_gw_extrema_interpolation_method == "rational_fit":
-            # set verbose to debug_level. If verbose is True, then it prints
-            # information of each iteration for rational fits for a given
-            # degree.
-            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = self.debug_level
+            # set verbose to True if debug_level > 0. If verbose is True, then
+            # it prints information of each iteration for rational fits for a
+            # given degree.
+            if self.debug_level > 0:
+                self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = True
             # keep history of rational fit degree and nonmonotonicity of the
             # corresponding fits
             self.rational_fit_nonmonotonicity_history = {
-- 
2.43.0


From fcf6da6b8c98b79b18fa56a775b7f90187a0367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 15/49] fix: suppress all warnings when debug_level is -1

---
 gw_eccentricity/gw_eccentricity.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/gw_eccentricity.py b/gw_eccentricity/gw_eccentricity.py
index 712252f..60cf8a7 100644
--- a/gw_eccentricity/gw_eccentricity.py
+++ b/gw_eccentricity/gw_eccentricity.py
@@ -30,6 +30,8 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
+import warnings
+from contextlib import ExitStack
 from .eccDefinitionUsingAmplitude import eccDefinitionUsingAmplitude
 from .eccDefinitionUsingFrequency import eccDefinitionUsingFrequency
 from .eccDefinitionUsingAmplitudeFits import eccDefinitionUsingAmplitudeFits
@@ -580,10 +582,16 @@ def measure_eccentricity(tref_in=None,
     available_methods = get_available_methods(return_dict=True)
 
     if method in available_methods:
-        gwecc_object = available_methods[method](
-            dataDict, tref_in, fref_in, num_orbits_to_exclude_before_merger,
-            precessing, frame, debug_level, extra_kwargs)
-        return_dict = gwecc_object.measure_ecc()
+        with ExitStack() as stack:
+            if debug_level == -1:
+                # suppress also the warnings that are not issued using
+                # `debug_message`
+                stack.enter_context(warnings.catch_warnings())
+                warnings.simplefilter("ignore")
+            gwecc_object = available_methods[method](
+                dataDict, tref_in, fref_in, num_orbits_to_exclude_before_merger,
+                precessing, frame, debug_level, extra_kwargs)
+            return_dict = gwecc_object.measure_ecc()
         return_dict.update({"gwecc_object": gwecc_object})
         return return_dict
     else:
-- 
2.43.0


From d126a2f365e11ea125240e6923f4bb1130bac379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 16/49] fix: do not require LaTeX for the debug plots made
 during a measurement

---
 gw_eccentricity/eccDefinition.py | 4 ++--
 gw_eccentricity/spin_filter.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 9a35c33..0c9002c 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2148,7 +2148,7 @@ class eccDefinition:
     def _plot_debug_segment(self, t_left, t_right, t_for_debug, amp_for_debug, omega_for_debug):
         """Plot full waveform vs selected segment for debugging."""
         style = "APS"
-        use_fancy_plotsettings(style=style)
+        use_fancy_plotsettings(usetex=False, style=style)
         nrows = 2
 
         fig, axes = plt.subplots(
@@ -3107,7 +3107,7 @@ class eccDefinition:
                 - omega_gw_average[first_idx])
             if self.debug_plots:
                 style = "APS"
-                use_fancy_plotsettings(style=style)
+                use_fancy_plotsettings(usetex=False, style=style)
                 nrows = 4
                 fig, axes = plt.subplots(
                     nrows=nrows,
diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 1b0f1f1..3f398d1 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -204,7 +204,7 @@ def check_filter_requirement(t, data_copr_22, data_copr_2m2,
     ratio = max_asym_amp / max_res_amp
 
     if debug_plots:
-        use_fancy_plotsettings(style=style)
+        use_fancy_plotsettings(usetex=False, style=style)
         fig, ax = plt.subplots(
             figsize=(figWidthsTwoColDict[style], figHeightsDict[style]))
         ax.plot(t, asymmetry, label="Asymmetry")
-- 
2.43.0


From 3a6ba23bbb0d2ad3ea1229a927ecbd0225825c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 17/49] fix: make the non-monotonic average debug plot for
 every averaging method

---
 gw_eccentricity/eccDefinition.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 0c9002c..5df10ac 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3117,16 +3117,20 @@ class eccDefinition:
                              c=colorsDict["default"])
                 axes[1].plot(np.diff(omega_gw_average), marker=".",
                              c=colorsDict["default"])
-                axes[2].plot(self.t_average_pericenters,
-                             self.orbit_averaged_omega_gw_pericenters,
-                             label=labelsDict["pericenters"],
-                             c=colorsDict["pericenter"],
-                             marker=".")
-                axes[2].plot(self.t_average_apocenters,
-                             self.orbit_averaged_omega_gw_apocenters,
-                             label=labelsDict["apocenters"],
-                             c=colorsDict["apocenter"],
-                             marker=".")
+                # orbit averages are available only for this averaging method
+                if (self.extra_kwargs["omega_gw_averaging_method"]
+                        == "orbit_averaged_omega_gw"):
+                    axes[2].plot(self.t_average_pericenters,
+                                 self.orbit_averaged_omega_gw_pericenters,
+                                 label=labelsDict["pericenters"],
+                                 c=colorsDict["pericenter"],
+                                 marker=".")
+                    axes[2].plot(self.t_average_apocenters,
+                                 self.orbit_averaged_omega_gw_apocenters,
+                                 label=labelsDict["apocenters"],
+                                 c=colorsDict["apocenter"],
+                                 marker=".")
+                    axes[2].legend()
                 axes[3].plot(self.t, self.omega_gw, c=colorsDict["default"])
                 axes[3].plot(self.t_pericenters,
                              self.omega_gw[self.pericenters_location],
@@ -3138,7 +3142,6 @@ class eccDefinition:
                              c=colorsDict["apocenter"],
                              label=labelsDict["apocenters"],
                              marker=".")
-                axes[2].legend()
                 axes[2].set_ylabel(labelsDict["omega_gw_average"])
                 axes[3].legend()
                 axes[3].set_ylim(0,)
-- 
2.43.0


From 47a4e8a9c5e329036eb25f782669ac9aa885a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 18/49] fix: accept 'none' for --fref and --tref as in the
 example scripts

---
 gw_eccentricity/postprocess/postprocess_cli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 76186e5..4edc012 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -51,6 +51,12 @@ def parse_int_or_none(value):
     return int(value)
 
 
+def parse_float_or_none(value):
+    if value is None or (isinstance(value, str) and value.lower() == "none"):
+        return None
+    return float(value)
+
+
 def parse_samples(value):
     """Parse sample selection from CLI into a list of ints or None (= all).
 
@@ -484,8 +490,8 @@ def build_config_from_cli() -> PostProcessConfig:
         metavar="SPEC",
         help="Sample selection: all|none, int, comma list (1,5,9), or range (0:100[:step])",
     )
-    parser.add_argument("--fref", type=float, default=None)
-    parser.add_argument("--tref", type=float, default=None)
+    parser.add_argument("--fref", type=parse_float_or_none, default=None)
+    parser.add_argument("--tref", type=parse_float_or_none, default=None)
     parser.add_argument("--method", default="AmplitudeFits")
     parser.add_argument(
         "--batch-size",
-- 
2.43.0


From 3a343339bbbfbf32eb2da2d3f2ea937fac56b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 19/49] fix: reject batch sizes below one, which made the MPI
 master loop forever

---
 gw_eccentricity/postprocess/postprocess_cli.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 4edc012..297333f 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -51,6 +51,14 @@ def parse_int_or_none(value):
     return int(value)
 
 
+def parse_positive_int(value):
+    number = int(value)
+    if number < 1:
+        raise argparse.ArgumentTypeError(
+            f"must be a positive integer, got {value!r}")
+    return number
+
+
 def parse_float_or_none(value):
     if value is None or (isinstance(value, str) and value.lower() == "none"):
         return None
@@ -495,7 +503,7 @@ def build_config_from_cli() -> PostProcessConfig:
     parser.add_argument("--method", default="AmplitudeFits")
     parser.add_argument(
         "--batch-size",
-        type=int,
+        type=parse_positive_int,
         default=100,
         metavar="N",
         help="Number of samples per batch for MPI communication (default: 100)",
-- 
2.43.0


From dd1190c7ddcb99fc8c3a7c534073ea68c2fc6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 20/49] fix: do not multiply the output rows of samples
 selected more than once

---
 gw_eccentricity/postprocess/postprocess_cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 297333f..59a24ca 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -230,6 +230,9 @@ def save_final(
     results_df["sample_index"] = results_df["sample_index"].astype(int)
     combined = selected_posterior.copy()
     combined["sample_index"] = pd.array(row_indices, dtype=int)
+    # A sample can be selected more than once: one result row per sample, so
+    # that the merge does not multiply the selected rows.
+    results_df = results_df.drop_duplicates(subset="sample_index")
     combined = combined.merge(results_df, on="sample_index", how="left")
 
     n_merged_success = (combined["status"] == "success").sum()
-- 
2.43.0


From 97516bfb4cad077876dd620cd2e1937487e4ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 21/49] fix: write checkpoints and results atomically

---
 gw_eccentricity/postprocess/postprocess_cli.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 59a24ca..861176d 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -5,6 +5,7 @@ import importlib
 import importlib.util
 import json
 import logging
+import os
 import time
 from pathlib import Path
 from typing import TypedDict, Callable
@@ -179,14 +180,21 @@ def extract_batch_data(
 # ---------------------------------------------------------------------------
 
 def write_df(df: pd.DataFrame, path: str, fmt: str) -> None:
+    """Write df to path.
+
+    The data are written to a temporary file which then replaces path, so that
+    an interrupted write never leaves a truncated file at path.
+    """
+    tmp_path = f"{path}.tmp"
     if fmt == "json":
-        df.to_json(path)
+        df.to_json(tmp_path)
     elif fmt == "csv":
-        df.to_csv(path, index=False)
+        df.to_csv(tmp_path, index=False)
     elif fmt == "parquet":
-        df.to_parquet(path)
+        df.to_parquet(tmp_path)
     else:
         raise ValueError(f"Unsupported output format: {fmt!r}")
+    os.replace(tmp_path, path)
 
 
 def load_checkpoint(checkpoint_path: str) -> pd.DataFrame | None:
@@ -200,7 +208,7 @@ def save_checkpoint(results: list, config: PostProcessConfig) -> None:
     """Save results to checkpoint file (parquet format)."""
     results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()
     checkpoint_path = f"{config['output_dir']}/checkpoint.parquet"
-    results_df.to_parquet(checkpoint_path)
+    write_df(results_df, checkpoint_path, "parquet")
     logger.info("Checkpoint saved: %s", checkpoint_path)
 
 
-- 
2.43.0


From fd577da163bbeeb52684dfcdb34df0384a4e7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 22/49] fix: keep the checkpointed results of samples that are
 not selected in a later run

---
 .../postprocess/postprocess_cli.py            | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 861176d..5bff3e9 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -359,20 +359,25 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
     if checkpoint_df is not None or size > 1:
         sample_index_to_pos = {idx: pos for pos, idx in enumerate(row_indices)}
 
-    # Load prior checkpoint rows into the positional ``results`` array.
+    # Load prior checkpoint rows into the positional ``results`` array. Rows of
+    # samples which are not selected now are kept aside, so that they are not
+    # lost from the checkpoint when it is written again.
+    unselected_results = []
     if checkpoint_df is not None and sample_index_to_pos is not None:
         for row_dict in checkpoint_df.to_dict('records'):
             sample_idx = row_dict["sample_index"]
+            res = PostProcessResult(
+                sample_index=int(sample_idx),
+                status=row_dict["status"],
+                egw=row_dict.get("egw"),
+                lgw=row_dict.get("lgw"),
+                error_message=row_dict.get("error_message"),
+            )
             if sample_idx in sample_index_to_pos:
                 pos = sample_index_to_pos[sample_idx]
-                res = PostProcessResult(
-                    sample_index=int(sample_idx),
-                    status=row_dict["status"],
-                    egw=row_dict.get("egw"),
-                    lgw=row_dict.get("lgw"),
-                    error_message=row_dict.get("error_message"),
-                )
                 results[pos] = res
+            else:
+                unselected_results.append(res)
 
     n_to_process = len(to_process)
     logger.info(
@@ -404,11 +409,11 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             progress.tick()
 
             if checkpoint_interval and samples_since_checkpoint >= checkpoint_interval:
-                save_checkpoint(results, config)
+                save_checkpoint(unselected_results + results, config)
                 samples_since_checkpoint = 0
 
         if checkpoint_interval and samples_since_checkpoint > 0:
-            save_checkpoint(results, config)
+            save_checkpoint(unselected_results + results, config)
 
         save_final(results, row_indices, selected_posterior, config)
         return
@@ -442,7 +447,7 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             progress.tick()
 
             if checkpoint_interval and samples_since_checkpoint >= checkpoint_interval:
-                save_checkpoint(results, config)
+                save_checkpoint(unselected_results + results, config)
                 samples_since_checkpoint = 0
 
         # Send next batch to the freed worker
@@ -456,7 +461,7 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             comm.send(_STOP, dest=worker_rank)
 
     if checkpoint_interval and samples_since_checkpoint > 0:
-        save_checkpoint(results, config)
+        save_checkpoint(unselected_results + results, config)
 
     save_final(results, row_indices, selected_posterior, config)
 
-- 
2.43.0


From 2d91a5de7bedeab8d2463512dabd0d4c4aa8321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 23/49] fix: abort all ranks when one fails instead of leaving
 the others waiting

---
 gw_eccentricity/postprocess/postprocess_cli.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 5bff3e9..96c7042 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -591,6 +591,18 @@ def main() -> None:
     # Each rank parses CLI independently — callables cannot be bcast'd.
     config = build_config_from_cli()
 
+    try:
+        run_rank(config)
+    except Exception:
+        if size > 1:
+            # The other ranks would wait forever for this one.
+            logger.exception("Rank %d failed, aborting.", rank)
+            comm.Abort(1)
+        raise
+
+
+def run_rank(config: PostProcessConfig) -> None:
+    """Run the part of this rank."""
     if rank == MASTER:
         if config["posterior_type"] == "bilby":
             posterior = get_bilby_posterior(
-- 
2.43.0


From 5bc42c0bad1b845721818211b5f52f2fb669b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 24/49] fix: keep the result columns when there are no results,
 an empty sample selection failed

---
 gw_eccentricity/postprocess/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index bf2a628..f650ad7 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -1,6 +1,6 @@
 """Core postprocessing functions for measuring eccentricity from waveform modes."""
 from __future__ import annotations
-from dataclasses import dataclass
+from dataclasses import dataclass, fields
 import logging
 import pandas as pd
 from ..gw_eccentricity import measure_eccentricity
@@ -21,7 +21,8 @@ class PostProcessResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of PostProcessResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame([result.__dict__ for result in self.results],
+                            columns=[f.name for f in fields(PostProcessResult)])
 
     def success_only(self) -> list[PostProcessResult]:
         """Filter successful results."""
@@ -53,7 +54,8 @@ class FrefBoundsResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of FrefBoundsResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame([result.__dict__ for result in self.results],
+                            columns=[f.name for f in fields(FrefBoundsResult)])
     
     def success_only(self) -> list[FrefBoundsResult]:
         """Filter successful results."""
-- 
2.43.0


From 1e251480de172ddff999410158b6b7a243578c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 25/49] fix: summarise an empty list of results instead of
 dividing by zero

---
 gw_eccentricity/postprocess/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index f650ad7..20d44ab 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -34,7 +34,7 @@ class PostProcessResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0.0,
             'egw': [r.egw for r in successful],
             'lgw': [r.lgw for r in successful]
         }
@@ -67,7 +67,7 @@ class FrefBoundsResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0.0,
             'fref_min': [r.fref_min for r in successful],
             'fref_max': [r.fref_max for r in successful]
         }
-- 
2.43.0


From bfd87b8c212f9c2e2307f916df88132734b5a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 26/49] fix: make the secular trend fit of the spin filter
 independent of units

With small numbers (strain in SI units) the absolute convergence criterion of
the fit was met at the initial guess, and the amplitude was silently left
unfiltered.
---
 gw_eccentricity/spin_filter.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 3f398d1..9f159f8 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -129,18 +129,26 @@ def _pn_fit_for_secular_trend(t, x, data_type, t_merger):
     # See equations (484), (485) and (521a) in Blanchet, Living Reviews in 
     # Relativity (2024) 27:4, https://doi.org/10.1007/s41114-024-00050-z
     power = -3.0/8.0 if data_type == "omega" else -1.0/4.0
-    A_guess = np.mean(x) # typical amplitude of the data
-    
+    # Fit in dimensionless units, so that the convergence criteria of the fit
+    # do not depend on the units of t and x.
+    t_scale = np.abs(t_merger - t[0])
+    x_scale = np.abs(np.mean(x)) # typical amplitude of the data
+    t_start = t[0]
+    t_fit = (t - t_start) / t_scale
+    x_fit = x / x_scale
+
     def residuals(params):
         t_merger_p, A, power = params
-        model = _pn_model(t, t_merger_p, A, power)
-        return (x - model)
-    
-    initial_guess = [t_merger, A_guess, power]
+        model = _pn_model(t_fit, t_merger_p, A, power)
+        return (x_fit - model)
+
+    initial_guess = [
+        (t_merger - t_start) / t_scale, np.sign(np.mean(x)), power]
     result = least_squares(residuals, initial_guess)
     t_merger_fit, A_fit, power_fit = result.x
 
-    return lambda t: _pn_model(t, t_merger_fit, A_fit, power_fit)
+    return lambda t: x_scale * _pn_model(
+        (t - t_start) / t_scale, t_merger_fit, A_fit, power_fit)
 
 def check_filter_requirement(t, data_copr_22, data_copr_2m2, 
                              t_merger, data_type, threshold=0.2, 
-- 
2.43.0


From 7c2eb1c9aa2dc2474ae09f08c9e5c73ed3b2b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 27/49] fix: do not extrapolate the crossing timescale in the
 spin filter

For eccentric orbits the cubic extrapolation became negative, and the filter
failed on an empty segment.
---
 gw_eccentricity/spin_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 9f159f8..c7f687b 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -60,7 +60,10 @@ def _build_delta_T_interpolant(t_mid, delta_t):
     function
         Interpolant function for delta T.
     """
-    return interp1d(t_mid, delta_t, kind='cubic', fill_value='extrapolate')
+    # Keep the first and last values outside the range of crossings. A cubic
+    # extrapolation may become negative there.
+    return interp1d(t_mid, delta_t, kind='cubic', bounds_error=False,
+                    fill_value=(delta_t[0], delta_t[-1]))
 
 
 def _pn_model(t, t_merger, A, power):
-- 
2.43.0


From 6b33def13a67a3a67533c061e7b3a8ec85d396e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 28/49] fix: spin filter was verbose at debug_level -1

---
 gw_eccentricity/spin_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index c7f687b..7b05304 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -592,7 +592,8 @@ class FilterSpinInducedOscillations:
         # get the cutoff frequency from amplitude spectrum
         f_cutoff, f_ecc, f_spin, freq_spectrum, amp_spectrum = _get_fcut_fecc_fspin(
             t_seg, residual_windowed, f_spin_guess, f_spin_lo_frac,
-            f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac, self.debug_level)
+            f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac,
+            verbose=self.debug_level > 0)
         
         # lowpass filter to remove the faster spin-induced oscillation
         fd = np.fft.rfft(residual_no_window)
-- 
2.43.0


From 7bbc996bfa173efcd8838052a191330dd2474902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 29/49] fix: use the current interface of eccDefinition in
 truncate_waveform_by_flow

---
 gw_eccentricity/truncate_waveform_by_flow.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/gw_eccentricity/truncate_waveform_by_flow.py b/gw_eccentricity/truncate_waveform_by_flow.py
index 87306e1..605c5d3 100644
--- a/gw_eccentricity/truncate_waveform_by_flow.py
+++ b/gw_eccentricity/truncate_waveform_by_flow.py
@@ -73,21 +73,16 @@ def truncate_waveform_by_flow(dataDict=None,
 
     if method in available_methods:
         gwecc_object = available_methods[method](dataDict,
+                                                 tref_in=dataDict["t"],
                                                  extra_kwargs=extra_kwargs)
-        # Get the pericenters
-        pericenters = gwecc_object.find_extrema("pericenters")
-        original_pericenters = pericenters.copy()
-        gwecc_object.check_num_extrema(pericenters, "pericenters")
-        # Get the good pericenters
-        pericenters = gwecc_object.drop_extrema_if_extrema_jumps(
-            pericenters, 1.5, "pericenters")
-        gwecc_object.pericenters_location = gwecc_object.drop_extrema_if_too_close(
-            pericenters, extrema_type="pericenters")
-        # Build the interpolants of omega22 at the extrema
-        gwecc_object.omega22_pericenters_interp = gwecc_object.interp_extrema("pericenters")
+        # Find the good pericenters and build the interpolant of omega22
+        # through these.
+        gwecc_object.measure_ecc()
+        gwecc_object.omega22_pericenters_interp \
+            = gwecc_object.omega_gw_pericenters_interp
     # If m_max is not provided, get the highest available m from the dataDict
     if m_max is None:
-        modes = gwecc_object.dataDict["hlm"].keys()
+        modes = dataDict["hlm"].keys()
         m_max = max([m for (l, m) in modes])
     # Find time where omega22_apocenter_interp(tlow) = 2 * pi * flow
     tmin = gwecc_object.t[gwecc_object.pericenters_location[0]]
-- 
2.43.0


From 3a0d4e5899e3b040961914424371c0aafe5b47c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 30/49] fix: keep frequencies above flow that occur before the
 first pericenter when truncating

---
 gw_eccentricity/truncate_waveform_by_flow.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/truncate_waveform_by_flow.py b/gw_eccentricity/truncate_waveform_by_flow.py
index 605c5d3..2a309ff 100644
--- a/gw_eccentricity/truncate_waveform_by_flow.py
+++ b/gw_eccentricity/truncate_waveform_by_flow.py
@@ -95,7 +95,13 @@ def truncate_waveform_by_flow(dataDict=None,
 
     idx_low = np.where(
         gwecc_object.f22_pericenters_interp * (m_max/2) >= flow)[0][0]
-    tlow = gwecc_object.t_pericenters_interp[idx_low]
+    if idx_low == 0:
+        # flow is below the frequency at the first pericenter. Where the
+        # frequency reaches flow is then before the first pericenter, where the
+        # interpolant is not known, so nothing can be dropped.
+        tlow = gwecc_object.t[0]
+    else:
+        tlow = gwecc_object.t_pericenters_interp[idx_low]
 
     truncatedDict = copy.deepcopy(dataDict)
     for mode in truncatedDict["hlm"]:
-- 
2.43.0


From 319aba78bf5262a024bb33f7d4bef15c5cba0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 31/49] fix: compare mean anomalies on the circle, unwrapping
 gave errors of 2 pi

---
 gw_eccentricity/compare_methods.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gw_eccentricity/compare_methods.py b/gw_eccentricity/compare_methods.py
index 4717f95..f443e5c 100644
--- a/gw_eccentricity/compare_methods.py
+++ b/gw_eccentricity/compare_methods.py
@@ -92,10 +92,11 @@ def compute_errors_between_methods(gwecc_obj1,
     # Compute errors in mean anomaly at common tref_out
     mean_ano_ref_1_common = gwecc_obj1.mean_anomaly[common_idx1]
     mean_ano_ref_2_common = gwecc_obj2.mean_anomaly[common_idx2]
-    # We need to unwrap the mean anomaly since zero and
-    # 2pi should be treated as the same and hence should give zero errors.
-    mean_ano_errors = np.abs(
-        np.unwrap(mean_ano_ref_1_common)
-        - np.unwrap(mean_ano_ref_2_common))
+    # Zero and 2pi should be treated as the same and hence should give zero
+    # errors. Therefore, the error is the shorter of the two arcs between the
+    # mean anomalies on the circle.
+    mean_ano_errors = np.abs(mean_ano_ref_1_common - mean_ano_ref_2_common)
+    mean_ano_errors = np.minimum(mean_ano_errors,
+                                 2 * np.pi - mean_ano_errors)
     return tref_out_1_common, ecc_errors, mean_ano_errors, ecc_ref_1_common,\
         ecc_ref_2_common, mean_ano_ref_1_common, mean_ano_ref_2_common
-- 
2.43.0


From a93f14e1c7d62ee64430bb63e4740693a1d457c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 32/49] fix: quasicircular counterpart of NR data does not need
 a mean anomaly

---
 gw_eccentricity/load_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e2a8a16..c0790ea 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1351,6 +1351,8 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # waveform with approximant provided in nr_dataDict["params_dict"]
     zero_ecc_kwargs = params_dict.copy()
     zero_ecc_kwargs["ecc"] = 0.0
+    # mean anomaly of NR data may not be known and has no meaning for ecc = 0
+    zero_ecc_kwargs["mean_ano"] = 0.0
     zero_ecc_kwargs["include_zero_ecc"] = False  # to avoid double calc
     # calculate the Momega0 so that the length is >= the length of the NR
     # waveform.
-- 
2.43.0


From 6e33d1fe2e1b2e333e076ea2acc6b41f0457ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 33/49] fix: pass the requested mean anomaly to the waveform
 model

---
 gw_eccentricity/load_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index c0790ea..be64852 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -305,6 +305,7 @@ def load_LAL_waveform_using_hack(approximant, q, chi1, chi2, ecc, mean_ano,
     # h = hp -1j * hc
     t, h = generate_LAL_waveform(approximant, q, chi1, chi2,
                                  deltaTOverM, Momega0, eccentricity=ecc,
+                                 meanPerAno=mean_ano,
                                  phi_ref=phi_ref, inclination=inclination,
                                  physicalUnits=physicalUnits, M=M, D=D)
 
-- 
2.43.0


From 363353305372832494b361c5dd46075a70829eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 34/49] fix: counterpart of NR data was cut to its last samples
 when barely longer than the data

---
 gw_eccentricity/load_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index be64852..7799f0d 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1412,8 +1412,8 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # Finally we want to return zeroecc data only about the length of the
     # eccentric waveform and truncate the rest of the waveform to avoid
     # wasting computing resources
-    start_zeroecc_idx = np.argmin(
-        np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10
+    start_zeroecc_idx = max(
+        np.argmin(np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10, 0)
     for key in hlm_zeroecc.keys():
         hlm_zeroecc[key] = hlm_zeroecc[key][start_zeroecc_idx:]
 
-- 
2.43.0


From 97e3f625138a048845790233fedebeb9e87f6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 35/49] fix: default path of circular EMRI data when a
 directory name contains e0

---
 gw_eccentricity/load_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 7799f0d..c01b9be 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1964,9 +1964,11 @@ def load_EMRI_waveform(**kwargs):
 
     if kwargs["include_zero_ecc"]:
         if kwargs["filepath_zero_ecc"] is None:
-            idx = kwargs["filepath"].find("e0")
-            kwargs["filepath_zero_ecc"] = (
-                kwargs["filepath"][:idx] + "e0.000.h5")
+            # look only in the file name, directory names may contain "e0"
+            dirname, basename = os.path.split(kwargs["filepath"])
+            idx = basename.find("e0")
+            kwargs["filepath_zero_ecc"] = os.path.join(
+                dirname, basename[:idx] + "e0.000.h5")
         kwargs_zero_ecc = {
             "filepath": kwargs["filepath_zero_ecc"],
             "include_zero_ecc": False}
-- 
2.43.0


From 7a9ad45fd7e898b306a847f9aa6415007caa494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 36/49] fix: time_deriv_4thOrder truncated the derivative of
 integer data

---
 gw_eccentricity/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index d7f78a7..b962367 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -154,8 +154,8 @@ def time_deriv_4thOrder(y, dt):
     dydt:
         Fourth order time derivative of y.
     """
-    # Use a 5 point stencil
-    res = 0*y
+    # Use a 5 point stencil. The result is not an integer even if y is.
+    res = 0.0*y
     # First do the interior
     res[2:-2] = (y[:-4] - 8*y[1:-3] + 8*y[3:-1] - y[4:])/12.
 
-- 
2.43.0


From c4bee9a4a8ec478a29b674edf4ba0cfdd8f868a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 37/49] fix: interpolation helpers changed the caller's options

---
 gw_eccentricity/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index b962367..1858f8c 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -279,7 +279,8 @@ def get_interpolant(oldX,
     if interpolator == "spline":
         if check_kwargs:
             spline_kwargs = check_kwargs_and_set_defaults(
-                spline_kwargs, get_default_spline_kwargs(), "spline kwargs",
+                dict(spline_kwargs or {}), get_default_spline_kwargs(),
+                "spline kwargs",
                 "utils.get_default_spline_kwargs")
         # check that num of data points > order of spline
         if len(oldX) >= 2:
@@ -292,9 +293,9 @@ def get_interpolant(oldX,
                 kwargs = spline_kwargs.copy()
                 kwargs["k"] = len(oldX) - 1
             else:
-                kwargs = spline_kwargs
+                kwargs = spline_kwargs.copy()
         else:
-            raise Exception("Number of data points is {len(oldX)}."
+            raise Exception(f"Number of data points is {len(oldX)}."
                             " Cannot build an interpolant.")
         # If allowExtrapolation is True but ext=2 then raise a warning
         # and override ext to 0
@@ -337,7 +338,7 @@ def get_rational_fit(x, y, rational_fit_kwargs=None, check_kwargs=True):
     """
     if check_kwargs:
         rational_fit_kwargs = check_kwargs_and_set_defaults(
-            rational_fit_kwargs,
+            dict(rational_fit_kwargs or {}),
             get_default_rational_fit_kwargs(),
             "rational_fit_kwargs",
             "utils.get_default_rational_fit_kwargs"
-- 
2.43.0


From b11424c4928f672799b1ac3b422353b8f085c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 38/49] fix: postprocessing reused checkpointed results
 obtained with other options

---
 gw_eccentricity/postprocess/postprocess_cli.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 96c7042..5f21e1a 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -204,9 +204,17 @@ def load_checkpoint(checkpoint_path: str) -> pd.DataFrame | None:
     return pd.read_parquet(checkpoint_path)
 
 
+def get_checkpoint_settings(config: PostProcessConfig) -> str:
+    """Get the options that determine the values of the results, as text."""
+    keys = ["tref", "fref", "method", "data_dict_generator_extra_kwargs",
+            "gw_eccentricity_kwargs"]
+    return json.dumps({k: config.get(k) for k in keys}, sort_keys=True, default=str)
+
+
 def save_checkpoint(results: list, config: PostProcessConfig) -> None:
     """Save results to checkpoint file (parquet format)."""
     results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()
+    results_df["settings"] = get_checkpoint_settings(config)
     checkpoint_path = f"{config['output_dir']}/checkpoint.parquet"
     write_df(results_df, checkpoint_path, "parquet")
     logger.info("Checkpoint saved: %s", checkpoint_path)
@@ -327,6 +335,15 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
                 sorted(missing_columns), checkpoint_path,
             )
             checkpoint_df = None
+        elif "settings" in checkpoint_df.columns:
+            # results obtained with other options must not be reused
+            other_settings = (set(checkpoint_df["settings"])
+                              - {get_checkpoint_settings(config)})
+            if other_settings:
+                raise ValueError(
+                    f"{checkpoint_path} contains results obtained with other "
+                    f"options: {sorted(map(str, other_settings))}. Use another "
+                    "output directory or remove the checkpoint.")
 
     # Stage 2: select the subset of posterior samples requested by the user.
     samples = config["samples"]
-- 
2.43.0


From 184247c279c7388927ff6bcaea3f3727fe8cb901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 39/49] fix: the convergence criterion of the rational fit
 depended on the units

---
 gw_eccentricity/rational_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/rational_fit.py b/gw_eccentricity/rational_fit.py
index 1759fd7..41fafb6 100644
--- a/gw_eccentricity/rational_fit.py
+++ b/gw_eccentricity/rational_fit.py
@@ -356,7 +356,7 @@ class RationalFit:
             if self.verbose:
                 print(f"Iteration {iteration}: delta_fit = {delta_fit:.2e}, res_norm = {res_norm:.2e}")
 
-            if delta_fit < tol:
+            if delta_fit < tol * np.linalg.norm(self.y):
                 if self.verbose:
                     print(f"Converged at iteration {iteration} (delta_fit={delta_fit:.2e}).")
                 break
-- 
2.43.0


From 9bb2c3bc5581b4dd8fb69ed4deede33d63677c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 40/49] fix: the time estimated for a reference frequency
 depended on the units

---
 gw_eccentricity/eccDefinition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 5df10ac..94b7f9e 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1992,13 +1992,15 @@ class eccDefinition:
             time = time[::step]
             omega = omega[::step]
         # get the secular trend. The fit assumes that the merger is at t=0.
-        time_to_merger = time - self.t_merger
+        # Use units where omega_ref = 1 so that it converges equally well
+        # whatever the units of the input data.
+        time_to_merger = (time - self.t_merger) * omega_ref
         secular_trend = QusicircularFitForMappingFrequencyToTime(
-            time_to_merger, omega)
+            time_to_merger, omega / omega_ref)
         res = secular_trend.least_square_fit()
         # get the location where the secular trend crosses omega_ref
         idx = np.argmin(np.abs(secular_trend.model(time_to_merger, *res.x)
-                               - omega_ref))
+                               - 1))
         return time[idx]
         
     def get_amp_phase_omega_gw_segments(self):
-- 
2.43.0


From 4781cd99b959ea01cf4b81012dee0c5e2ccc89c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 41/49] fix: the Fits methods failed when no orbits before the
 merger are excluded

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index e948da4..c64fd3f 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -242,11 +242,18 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                                           verbose=False)
         # typial scale of data
         f0 = 0.5 * (self.data_for_finding_extrema[0]+self.data_for_finding_extrema[idx_end])
+        # lower bound on the time of the singularity. If the data extend up to
+        # the merger or beyond, for example when
+        # num_orbits_to_exclude_before_merger=None, it has to be after the data
+        T_min = 0.8*self.t[-1] if self.t[-1] < 0 else (
+            self.t[-1] + 0.01*(self.t[-1] - self.t[0]))
         p0 = [f0,  # function value
               -self.nPN*f0/(-fit_center_time),  # func = f0/t0^n*(t)^n -> dfunc/dt (t0) = n*f0/t0
-              0  # singularity in fit is near t=0, since waveform aligned at max(amp_gw)
+              # singularity in fit is near t=0, since waveform aligned at
+              # max(amp_gw), but not within the data
+              max(0, T_min)
               ]
-        bounds0 = [[0., 0., 0.8*self.t[-1]],
+        bounds0 = [[0., 0., T_min],
                    [self.fit_bounds_max_amp_factor*f0,
                     self.fit_bounds_max_nPN_factor*f0/(-fit_center_time),
                     -fit_center_time]]
-- 
2.43.0


From f081361784e9e74b2353a9c4cfaa98d62d67fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 42/49] fix: the interval for refining extrema was not 0.05
 radians of the phase

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index c64fd3f..97290fb 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -984,7 +984,7 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                   "Npoints=", end='')
         for k in range(len(t_extrema)):
             # length of fitting interval = 0.05radians left/right
-            deltaT = 0.05 / data_extrema[k]
+            deltaT = 0.05 / np.interp(t_extrema[k], self.t, self.omega_gw)
             idx_refine = np.abs(self.t - t_extrema[k]) < deltaT
             # number of points to be used in fit
             N_refine = sum(idx_refine)
-- 
2.43.0


From 96f465eff42d142d824d2812885289ba81375b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 43/49] fix: the envelope fit did not converge for large units
 of time

---
 .../eccDefinitionUsingFrequencyFits.py        | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 97290fb..bc869a2 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -281,10 +281,9 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                 label=(f"{self.label_for_fit_to_data_for_finding_extrema}"
                        "(*p_guess)"))
 
-        p_global, pconv = scipy.optimize.curve_fit(
+        p_global = self.fit_envelope(
             f_fit, self.t[:idx_end],
-            self.data_for_finding_extrema[:idx_end], p0=p0,
-            bounds=bounds0)
+            self.data_for_finding_extrema[:idx_end], p0, bounds0)
         if self.verbose:
             print(f"            result p_global={p_global}")
 
@@ -933,9 +932,8 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                     plt.close(fig)
                 return idx_extrema, p, K, idx_ref, [t_extrema, data_extrema,
                                                     phase_gw_extrema]
-            p, pconv = scipy.optimize.curve_fit(f_fit, t_extrema,
-                                                data_extrema, p0=p,
-                                                bounds=bounds, maxfev=10000)
+            p = self.fit_envelope(f_fit, t_extrema, data_extrema, p, bounds,
+                                  maxfev=10000)
             if verbose and False:
                 print("    PRODUCTION FIT: residual="
                       f"{np.linalg.norm(f_fit(t_extrema,*p)-data_extrema)},"
@@ -949,6 +947,23 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                       f" => fit updated to f_fit={f_fit.format(*p)}")
         raise Exception("Should never get here")
 
+    def fit_envelope(self, f_fit, t, data, p0, bounds, **kwargs):
+        """Fit the envelope function f_fit to data at times t.
+
+        The step sizes and tolerances of the optimizer assume parameters of
+        order one. Therefore, optimize (f0, f1, T) in units where the largest
+        frequency is one, so that the fit converges equally well whatever the
+        units of time are.
+
+        Returns the best fit parameters (f0, f1, T).
+        """
+        omega_scale = np.max(np.abs(self.omega_gw))
+        units = np.array([1., omega_scale, 1./omega_scale])
+        params, _ = scipy.optimize.curve_fit(
+            lambda times, *p: f_fit(times, *(p * units)), t, data,
+            p0=p0/units, bounds=np.array(bounds)/units, **kwargs)
+        return params * units
+
     def compute_distance_and_prominence(self, idx_lo, idx_hi, f_fit, p):
         """Compute distance and prominence for current data section."""
         maxdt = np.max(np.diff(self.t[idx_lo:idx_hi]))
-- 
2.43.0


From 30d6b2a061c11c8e37b18aa54766639d582e2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 44/49] fix: diagnostic data of AmplitudeFits contained the
 frequency instead of the amplitude

---
 gw_eccentricity/eccDefinitionUsingAmplitudeFits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py b/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py
index 6d569d6..3189b3e 100644
--- a/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py
+++ b/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py
@@ -40,6 +40,8 @@ class eccDefinitionUsingAmplitudeFits(eccDefinitionUsingFrequencyFits):
         # way to do this but scaling the amp_gw data by its value at the global
         # peak (the merger time) solves this issue.
         self.data_for_finding_extrema /= self.amp_gw_merger
+        if self.return_diagnostic_data:
+            self.diagnostic_data_dict["data"] = self.data_for_finding_extrema
 
     def get_default_kwargs_for_fits_methods(self):
         """Get default fits kwargs.
-- 
2.43.0


From ee39973bf0037002e8212b1a78c068f6808cd16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 45/49] fix: inertial modes were not transformed unless
 precessing was exactly True

---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 94b7f9e..76a4561 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -828,7 +828,7 @@ class eccDefinition:
         # if the system is precessing and the modes are given in the inertial
         # frame, rotate the modes and obtain the corresponding modes in the
         # coprecessing frame
-        if self.precessing is True and self.frame == "inertial":
+        if self.precessing and self.frame == "inertial":
             debug_message(
                 f"The system is precessing but the modes are provided in "
                 f"the {self.frame} frame. Transforming the modes from"
-- 
2.43.0


From d72483b60264aff269d362a473df15fc47478cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 46/49] fix: samples were mixed up when the rows of the
 posterior share labels

---
 gw_eccentricity/postprocess/core.py            | 13 +++++++++++++
 gw_eccentricity/postprocess/postprocess.py     |  5 +++--
 gw_eccentricity/postprocess/postprocess_cli.py |  5 ++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index 20d44ab..dcae59d 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -109,6 +109,19 @@ def filter_posterior_columns(
     return posterior[parameter_columns].copy()
 
 
+def check_row_labels_are_unique(posterior: pd.DataFrame) -> None:
+    """Raise an exception when rows of the posterior share a label.
+
+    The row labels identify the samples. With repeated labels it is not
+    possible to tell which of the rows a sample index refers to.
+    """
+    if not posterior.index.is_unique:
+        duplicates = posterior.index[posterior.index.duplicated()].unique()
+        raise ValueError(
+            "The row labels of the posterior are not unique. Repeated labels: "
+            f"{list(duplicates[:5])}. Use `reset_index` to relabel the rows.")
+
+
 def get_data_dict(
         params: dict,
         data_dict_generator: callable,
diff --git a/gw_eccentricity/postprocess/postprocess.py b/gw_eccentricity/postprocess/postprocess.py
index 7479442..4663084 100644
--- a/gw_eccentricity/postprocess/postprocess.py
+++ b/gw_eccentricity/postprocess/postprocess.py
@@ -10,8 +10,8 @@ from ..plot_settings import (
 )
 from ..gw_eccentricity import measure_eccentricity
 from .core import (
-    get_data_dict, get_fref_bounds_for_sample, postprocess_sample,
-    PostProcessResults, FrefBoundsResults
+    check_row_labels_are_unique, get_data_dict, get_fref_bounds_for_sample,
+    postprocess_sample, PostProcessResults, FrefBoundsResults
 )
 
 
@@ -59,6 +59,7 @@ class PostProcess:
             raise TypeError(
                 f"{self.posterior} should be a pandas DataFrame "
                 f"and not a {type(self.posterior)}.")
+        check_row_labels_are_unique(self.posterior)
         self.postprocess_result = None
         self.fref_bounds = None
         if not callable(data_dict_generator):
diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 5f21e1a..d6dcd8f 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -12,7 +12,9 @@ from typing import TypedDict, Callable
 import pandas as pd
 from mpi4py import MPI
 import bilby
-from gw_eccentricity.postprocess.core import postprocess_sample, PostProcessResults, PostProcessResult
+from gw_eccentricity.postprocess.core import (
+    check_row_labels_are_unique, postprocess_sample, PostProcessResults,
+    PostProcessResult)
 
 logger = logging.getLogger(__name__)
 
@@ -267,6 +269,7 @@ def get_bilby_posterior(posterior_path: str,
     posterior = res.posterior
     if parameter_columns is not None:
         posterior = posterior[parameter_columns]
+    check_row_labels_are_unique(posterior)
     return posterior
 
 
-- 
2.43.0


From 7020f6b782961bc30612cffd2f142966243539d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 47/49] fix: precessing signals failed when no orbits before
 the merger are excluded

---
 gw_eccentricity/spin_filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 7b05304..d6bde2a 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -145,8 +145,12 @@ def _pn_fit_for_secular_trend(t, x, data_type, t_merger):
         model = _pn_model(t_fit, t_merger_p, A, power)
         return (x_fit - model)
 
+    # The model diverges at the merger. The initial guess for the time of merger
+    # has to be later than the last time, which is not the case when no orbits
+    # before the merger are excluded.
+    t_merger_guess = max(t_merger, t[-1] + (t[1] - t[0]))
     initial_guess = [
-        (t_merger - t_start) / t_scale, np.sign(np.mean(x)), power]
+        (t_merger_guess - t_start) / t_scale, np.sign(np.mean(x)), power]
     result = least_squares(residuals, initial_guess)
     t_merger_fit, A_fit, power_fit = result.x
 
-- 
2.43.0


From 9a85e3ba457719372065aacbc3132b7e93cbff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:18 +0000
Subject: [PATCH 48/49] fix: labels for plot_omega_gw_average with the orbit
 averages between extrema

plot_omega_gw_average(plot_orbit_averaged_omega_gw_between_extrema=True)
raised a KeyError because labelsDict had no such labels.
---
 gw_eccentricity/plot_settings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/plot_settings.py b/gw_eccentricity/plot_settings.py
index 4447a3c..bb52fd1 100644
--- a/gw_eccentricity/plot_settings.py
+++ b/gw_eccentricity/plot_settings.py
@@ -197,6 +197,8 @@ labelsDict = {
     "omega_gw_pericenters": r"$\omega^{\mathrm{p}}_{\mathrm{gw}}$",
     "omega_gw_apocenters": r"$\omega^{\mathrm{a}}_{\mathrm{gw}}$",
     "omega_gw_average": r"$\langle\omega_{\mathrm{gw}}\rangle$",
+    "orbit_averaged_omega_gw_pericenters": r"$\langle\omega_{\mathrm{gw}}\rangle^{\mathrm{p}}$",
+    "orbit_averaged_omega_gw_apocenters": r"$\langle\omega_{\mathrm{gw}}\rangle^{\mathrm{a}}$",
     "omega_gw_average_dimless": r"$\langle\omega_{\mathrm{gw}}\rangle$ [rad/$M$]",
     "f_gw_average": r"$\langle f_{\mathrm{gw}}\rangle$",
     "f_gw_average_ref": r"$\langle f_{\mathrm{gw, ref}}\rangle$",
-- 
2.43.0


From 15bab45b250403037dbd7914aea75a2a315baca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:22 +0000
Subject: [PATCH 49/49] fix: plot orbit averages between extrema after
 get_fref_bounds(other method)

get_fref_bounds(method) sets omega_gw_average by another averaging method,
after which plot_omega_gw_average with
plot_orbit_averaged_omega_gw_between_extrema=True raised AttributeError.
---
 gw_eccentricity/eccDefinition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 76a4561..0c0e199 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3967,6 +3967,9 @@ class eccDefinition:
                     label=self.get_label_for_plots("omega"))
         if (self.extra_kwargs["omega_gw_averaging_method"] == "orbit_averaged_omega_gw" and
             plot_orbit_averaged_omega_gw_between_extrema):
+            # omega_gw_average may have been computed using another method
+            if not hasattr(self, "t_average_apocenters"):
+                self.get_omega_gw_average("orbit_averaged_omega_gw")
             ax.plot(self.t_average_apocenters,
                     self.orbit_averaged_omega_gw_apocenters,
                     c=colorsDict["apocenter"],
-- 
2.43.0

