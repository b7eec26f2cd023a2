From eb0a1f3f270f1f970d93be12ed4a3e3df592f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 01/69] fix: estimate_b fails with return_n without return_std

---
 seismostats/analysis/bvalue/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..6d1265a 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -114,6 +114,6 @@ def estimate_b(
             out = (out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*(out if return_std else (out,)), estimator.n)
 
     return out
-- 
2.43.0


From fd1d1bb178bdb83489dd516268b636faf3eefa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 02/69] fix: weighted b-positive estimators raise instead of
 NaN without differences

---
 seismostats/analysis/bvalue/classic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/classic.py b/seismostats/analysis/bvalue/classic.py
index bc37b49..8cac447 100644
--- a/seismostats/analysis/bvalue/classic.py
+++ b/seismostats/analysis/bvalue/classic.py
@@ -12,6 +12,8 @@ def _mle_estimator(magnitudes: np.ndarray,
     Internal function for the classic b-value estimator. For b-value
     estimation use `ClassicBValueEstimator` instead.
     '''
+    if len(magnitudes) == 0:
+        return np.nan
     if delta_m > 0:
         p = 1 + delta_m / np.average(magnitudes - mc, weights=weights)
         beta = 1 / delta_m * np.log(p)
-- 
2.43.0


From 7fe84d306137f4944aff5c022e110000a1b505c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 03/69] fix: b-more-positive fails for continuous magnitudes
 (delta_m=0)

---
 seismostats/analysis/bvalue/more_positive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..749fcd1 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -130,7 +130,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         idx_next_larger = find_next_larger(
             self.magnitudes, self.delta_m, self.dmc)
         mag_diffs = self.magnitudes[idx_next_larger] - self.magnitudes
-        mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
+        if self.delta_m > 0:
+            mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
 
         idx_no_next = idx_next_larger == 0
         self.magnitudes = mag_diffs[~idx_no_next]
-- 
2.43.0


From c648e149b364825c88e3f838d8abc2f660f54688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 04/69] fix: a-positive keeps the times of unused events
 without differences

---
 seismostats/analysis/avalue/positive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/avalue/positive.py b/seismostats/analysis/avalue/positive.py
index 75ae4a7..cd018dc 100644
--- a/seismostats/analysis/avalue/positive.py
+++ b/seismostats/analysis/avalue/positive.py
@@ -134,6 +134,7 @@ class APositiveAValueEstimator(AValueEstimator):
 
         # check if there are enough events
         if len(time_diffs) == 0:
+            self.times = self.times[1:][is_larger]
             if get_option('warnings') is True:
                 warnings.warn('Not enough events to estimate a-value.')
             return np.nan
-- 
2.43.0


From 7b26758b822a48163f8d9ce7a9031f420698c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 05/69] fix: a-more-positive truncates scaled waiting times of
 coarse datetimes

---
 seismostats/analysis/avalue/more_positive.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..2626d98 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -153,10 +153,11 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         total_time = self.times[-1] - self.times[0]
 
         # scale the time
-        tau = time_diffs * 10**(-self.b_value
-                                * (self.magnitudes + self.dmc - self.mc))
+        tau = time_diffs / total_time * 10**(-self.b_value
+                                             * (self.magnitudes + self.dmc
+                                                - self.mc))
 
-        time_factor = sum(tau / total_time)
+        time_factor = sum(tau)
         n_more_pos = sum(~idx_no_next) / time_factor
 
         # make sure that all attributes are consistent
-- 
2.43.0


From b0716d9826eb74eea9243e1cef7a7dd19eb0c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 06/69] fix: uncertainty of an empty weighted sample raises
 instead of NaN

---
 seismostats/analysis/bvalue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index f964169..adc034f 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -87,6 +87,8 @@ def shi_bolt_confidence(
     # is by a factor of sqrt(N) different to the std(x, ddof=1) estimator
     if b_parameter not in ['b_value', 'beta']:
         raise ValueError('b_parameter must be either "b_value" or "beta"')
+    if len(magnitudes) == 0:
+        return np.nan
 
     std_mags = np.sqrt(np.average(np.square(
         magnitudes - np.average(magnitudes, weights=weights)), weights=weights))
-- 
2.43.0


From 62695e69c150e03cab1c2b693da6ba96a147e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 07/69] fix: ks_test_gr result of degenerate samples depends on
 the warnings option

---
 seismostats/analysis/estimate_mc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..66679cf 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -77,16 +77,15 @@ def ks_test_gr(
         ks_ds:      Array of KS distances.
     """
     if get_option("warnings") is True:
-        if np.min(magnitudes) < mc - delta_m / 2:
-            warnings.warn("Sample contains values below mc.")
-
         if len(magnitudes) == 0:
             warnings.warn("No sample given.")
-            return 0, 1, []
-
-        if len(np.unique(magnitudes)) == 1:
+        elif len(np.unique(magnitudes)) == 1:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+        elif np.min(magnitudes) < mc - delta_m / 2:
+            warnings.warn("Sample contains values below mc.")
+
+    if len(np.unique(magnitudes)) <= 1:
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From d690a1888ab02d6cdaae44dcfb74fef4a069c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 08/69] fix: estimate_mc_ks fails when the b-value of a
 candidate is undefined

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 66679cf..34cb237 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -84,7 +84,7 @@ def ks_test_gr(
         elif np.min(magnitudes) < mc - delta_m / 2:
             warnings.warn("Sample contains values below mc.")
 
-    if len(np.unique(magnitudes)) <= 1:
+    if len(np.unique(magnitudes)) <= 1 or np.isnan(b_value):
         return 0, 1, []
 
     beta = b_value_to_beta(b_value)
-- 
2.43.0


From 54a26ad078a1ad83c3ae4ce3b21fe9fcd86ea275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 09/69] fix: ks_test_gr ignores events above the simulated
 magnitude range

---
 seismostats/analysis/estimate_mc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 34cb237..fc72b9c 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -96,6 +96,7 @@ def ks_test_gr(
         # max considered magnitude: less than 1e-3 probability of
         # exceedance within the  samples
         max_considered_mag = 1 / b_value * np.log10(n_sample * n * 1e3) + mc
+        max_considered_mag = max(max_considered_mag, np.max(magnitudes))
 
         x_bins = bin_to_precision(
             np.arange(mc, max_considered_mag + 3
-- 
2.43.0


From f5a5e3f2ed1b2c00904a81d72f9cf3558f4b29f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 10/69] fix: mc estimation misaligns times and weights passed
 on to the b-value estimator

---
 seismostats/analysis/estimate_mc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index fc72b9c..ed8697b 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -268,8 +268,9 @@ def estimate_mc_ks(
 
         # if no b_value is given, estimate b_value
         if b_value is None:
+            # the estimator cuts the sample, together with times and weights
             estimator.calculate(
-                mc_sample, mc=mc, delta_m=delta_m, **kwargs)
+                magnitudes, mc=mc, delta_m=delta_m, **kwargs)
             mc_b_value = estimator.b_value
         else:
             mc_b_value = b_value
@@ -536,7 +537,7 @@ def estimate_mc_b_stability(
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-        estimator.calculate(sample_selected, mc, delta_m, **kwargs)
+        estimator.calculate(magnitudes, mc, delta_m, **kwargs)
         b = estimator.b_value
         std = estimator.std
         b_values_test.append(b)
@@ -545,8 +546,7 @@ def estimate_mc_b_stability(
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
         b_ex = []
         for mc_p in mc_plus:
-            sample_selected = magnitudes[magnitudes >= mc_p - delta_m / 2]
-            estimator.calculate(sample_selected, mc_p, delta_m, **kwargs)
+            estimator.calculate(magnitudes, mc_p, delta_m, **kwargs)
             b_ex.append(estimator.b_value)
         b_avg = np.sum(b_ex) / steps
         diff_b = np.abs(b_avg - b) / std
-- 
2.43.0


From ec77135e7f584355c271438d91e9456c2fc5dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 11/69] fix: estimate_mc_b_stability returns no mc when it is
 zero

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index ed8697b..54824ea 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -578,5 +578,5 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
+    return (bin_to_precision(best_mc, delta_m) if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From e87f27e317ed98fcc5e2655d5e4560f6c10169ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 12/69] fix: estimate_mc_b_stability averages one b-value too
 many for some mcs (rounding)

---
 seismostats/analysis/estimate_mc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 54824ea..e52cf03 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -542,8 +542,7 @@ def estimate_mc_b_stability(
         std = estimator.std
         b_values_test.append(b)
 
-        mc_plus = np.arange(mc, mc + stability_range, delta_m)
-        mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
+        mc_plus = mc + np.arange(steps) * delta_m
         b_ex = []
         for mc_p in mc_plus:
             estimator.calculate(magnitudes, mc_p, delta_m, **kwargs)
-- 
2.43.0


From 0a91a27a8bac5e7c1ecbfef35e7c0951654621ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 13/69] fix: estimate_mc_b_stability drops or adds candidates
 at the upper end

---
 seismostats/analysis/estimate_mc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index e52cf03..89cb99a 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -497,15 +497,17 @@ def estimate_mc_b_stability(
     steps = len(np.arange(0, stability_range, delta_m))
 
     if mcs_test is None:
-        mcs_test = np.arange(np.min(magnitudes), np.max(magnitudes), delta_m)
+        mcs_test = np.arange(
+            np.min(magnitudes), np.max(magnitudes) - delta_m / 2, delta_m)
         mcs_test = bin_to_precision(mcs_test, delta_m)
-        if len(mcs_test) <= steps:
+        if len(mcs_test) < steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
-        mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
+        mcs_test = mcs_test[mcs_test + stability_range
+                            <= np.max(magnitudes) + delta_m * 1e-6]
         if len(mcs_test) < 1:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-- 
2.43.0


From 27ae9e82e2509e51cd23f5f21e03e4914b9a72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 14/69] fix: estimate_mc_b_stability warns although warnings
 are switched off

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 89cb99a..d2bb00b 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -535,7 +535,7 @@ def estimate_mc_b_stability(
 
         sample_selected = magnitudes[magnitudes >= mc - delta_m / 2]
 
-        if len(sample_selected) < 30:
+        if get_option("warnings") is True and len(sample_selected) < 30:
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-- 
2.43.0


From 15b895604acc2a411f5f01a5a43a8cd0bbf7c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 15/69] fix: estimate_mc_b_stability forgets a passing mc after
 an undefined ratio

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index d2bb00b..1766611 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -558,7 +558,7 @@ def estimate_mc_b_stability(
 
         if diff_b <= 1:
             value = True
-            if diff_b == min(diff_bs):
+            if diff_b == np.nanmin(diff_bs):
                 best_mc = mc
                 best_b_value = b_values_test[-1]
             if stop_when_passed:
-- 
2.43.0


From 6710383cc460048614cb81d81867916d84d45811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 16/69] fix: QuakeML text loses whitespace where the XML parser
 splits it

---
 seismostats/io/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..ab870ed 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -230,6 +230,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.text = ''
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -238,6 +239,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.text = ''
+
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -251,6 +254,11 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        text = self.text.strip()
+        self.text = ''
+        if text and self.parent:
+            self.setter(self.parent, text)
+
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -269,8 +277,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        # text can arrive in several pieces, is complete at the end tag
+        self.text += chars
 
     def startDocument(self):
         pass
-- 
2.43.0


From 4b906b664208d84edb5a740302473a89d0000cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 17/69] fix: QuakeML magnitudes without type or identifier make
 parsing fail

---
 seismostats/io/parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index ab870ed..9ab310e 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -67,19 +67,22 @@ def SECONDARY_MAGNITUDE_MAPPINGS(type):
 
 def _select_magnitude_by_id(magnitudes: list, id: str | None) \
         -> tuple[dict, list]:
-    preferred = next((m for m in magnitudes if id
-                     == m['magnitudepublicID']), DUMMY_MAGNITUDE)
+    preferred = next((m for m in magnitudes if id is not None
+                      and id == m.get('magnitudepublicID')), DUMMY_MAGNITUDE)
 
+    # secondary magnitudes without type can not be named
+    magnitudes = [m for m in magnitudes if m.get('magnitudetype') is not None]
     magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+                  != preferred.get('magnitudetype')
+                  or id == m.get('magnitudepublicID')]
 
     return preferred, magnitudes
 
 
 def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
-    preferred = next((o for o in origins if id
-                     == o['originpublicID']), DUMMY_ORIGIN)
-    origins = [o for o in origins if id != o['originpublicID']]
+    preferred = next((o for o in origins if id is not None
+                      and id == o.get('originpublicID')), DUMMY_ORIGIN)
+    origins = [o for o in origins if id != o.get('originpublicID')]
     return preferred, origins
 
 
-- 
2.43.0


From ddbabb6bfe6766d5bda83b69546c8eb4ef70b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 18/69] fix: order of parsed secondary magnitudes depends on
 string hashing

---
 seismostats/io/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 9ab310e..2433a86 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -98,7 +98,8 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
     Returns:
         selected:      The selected magnitudes.
     """
-    magnitude_types = set(m['magnitudetype'] for m in magnitudes)
+    magnitude_types = list(dict.fromkeys(
+        m['magnitudetype'] for m in magnitudes))
 
     # only one magnitude per type, return all magnitudes
     if len(magnitude_types) == len(magnitudes):
-- 
2.43.0


From aa3fc96f7f64e44ff303ccf472155c672c7abf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 19/69] fix: latest secondary magnitude ignores fractions of
 seconds

---
 seismostats/io/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 2433a86..7a9e225 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -122,7 +122,8 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
             datetime.strptime(x[key2[1]][:19], '%Y-%m-%dT%H:%M:%S')
-            if key2[0] else None),
+            if key2[0] else None,
+            x[key2[1]][19:].rstrip('Z') if key2[0] else None),
             reverse=True)
 
         # select magnitude with highest version number and creation time
-- 
2.43.0


From 982690ea4f95e8a9d96fa613fd5b66043eed7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 20/69] fix: non-numeric magnitude version makes QuakeML
 parsing fail

---
 seismostats/io/parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 7a9e225..b50aee0 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -86,6 +86,14 @@ def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
     return preferred, origins
 
 
+def _is_number(value: str) -> bool:
+    try:
+        float(value)
+    except ValueError:
+        return False
+    return True
+
+
 def _select_secondary_magnitudes(magnitudes: list) -> list:
     """
     Check the magnitudes for multiple magnitudes of the same type and
@@ -117,7 +125,7 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         # sort mags array by version number and creation time
         key1 = [False, 'magnitudecreationInfoversion']
         key2 = [False, 'magnitudecreationInfocreationTime']
-        key1[0] = all(key1[1] in m for m in mags)
+        key1[0] = all(_is_number(m.get(key1[1], '')) for m in mags)
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-- 
2.43.0


From 261c83b13d0f00117831b118f1c272447875457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 21/69] fix: truncated QuakeML document is accepted as a part
 of its events

---
 seismostats/io/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index b50aee0..aa65702 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -244,6 +244,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         self.parent = ''
         self.location = ''
         self.text = ''
+        self.empty = True
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -252,6 +253,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.empty = False
         self.text = ''
 
         if tagName in ['event', 'origin', 'magnitude']:
@@ -320,7 +322,8 @@ def parse_quakeml_file(file_path: str,
     try:
         parser.parse(file_path)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        # empty document, no element was started at all
+        if 'no element found' in str(e) and handler.empty:
             return data
         raise e
     return data
@@ -371,7 +374,8 @@ def parse_quakeml_response(response: Response,
     try:
         parser.parse(response.raw)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        # empty document, no element was started at all
+        if 'no element found' in str(e) and handler.empty:
             return data
         raise e
     return data
-- 
2.43.0


From cdd7bf76ff00e0d5061f200d8c456160cc25091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 22/69] fix: to_quakeml writes text without escaping XML
 special characters

---
 .../catalogs/catalog_templates/quakeml.j2     | 47 ++++++++++---------
 seismostats/utils/__init__.py                 |  3 +-
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..0322050 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -1,3 +1,8 @@
+{%- macro element(tag, value, integer=false) -%}
+{%- if value is defined and value is not nan -%}
+<{{ tag }}>{{ value|int if integer else value }}</{{ tag }}>
+{%- endif -%}
+{%- endmacro -%}
 <?xml version="1.0" encoding="UTF-8"?>
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
@@ -14,8 +19,8 @@
                     <author>{{ author }}</author>
                 </creationInfo>
                 <mag>
-                    {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
+                    {{ element('value', event.magnitude) }}
+                    {{ element('uncertainty', event.magnitude_uncertainty) }}
                 </mag>
                 <type>{{ event.magnitude_type }}</type>
                 <originID>{{ event.originID }}</originID>
@@ -28,8 +33,8 @@
                     <author>{{ author }}</author>
                 </creationInfo>
                 <mag>
-                    {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
+                    {{ element('value', magnitude.magnitude) }}
+                    {{ element('uncertainty', magnitude.magnitude_uncertainty) }}
                 </mag>
                 <type>{{ type }}</type>
                 <originID>{{ event.originID }}</originID>
@@ -41,12 +46,12 @@
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
                 <longitude>
-                    {{'<value>{}</value>'.format(event.longitude) if not event.longitude is nan and event.longitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.longitude_uncertainty) if not event.longitude_uncertainty is nan and event.longitude_uncertainty is defined else '' -}}
+                    {{ element('value', event.longitude) }}
+                    {{ element('uncertainty', event.longitude_uncertainty) }}
                 </longitude>
                 <latitude>
-                    {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
+                    {{ element('value', event.latitude) }}
+                    {{ element('uncertainty', event.latitude_uncertainty) }}
                 </latitude>
                 <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
                 <creationInfo>
@@ -54,21 +59,21 @@
                     <author>{{ author }}</author>
                 </creationInfo>
                 <depth>
-                    {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.depth_uncertainty) if not event.depth_uncertainty is nan and event.depth_uncertainty is defined else '' -}}
+                    {{ element('value', event.depth) }}
+                    {{ element('uncertainty', event.depth_uncertainty) }}
                 </depth>
                 <quality>
-                    {{'<associatedPhaseCount>{}</associatedPhaseCount>'.format(event.associatedphasecount|int) if not event.associatedphasecount is nan and event.associatedphasecount is defined else '' -}}
-                    {{'<usedPhaseCount>{}</usedPhaseCount>'.format(event.usedphasecount|int) if not event.usedphasecount is nan and event.usedphasecount is defined else ''-}}
-                    {{'<associatedStationCount>{}</associatedStationCount>'.format(event.associatedstationcount|int) if not event.associatedstationcount is nan and event.associatedstationcount is defined else ''-}}
-                    {{'<usedStationCount>{}</usedStationCount>'.format(event.usedstationcount|int) if not event.usedstationcount is nan and event.usedstationcount is defined else ''-}}
-                    {{'<depthPhaseCount>{}</depthPhaseCount>'.format(event.depthphasecount|int) if not event.depthphasecount is nan and event.depthphasecount is defined else ''-}}
-                    {{'<standardError>{}</standardError>'.format(event.standarderror) if not event.standarderror is nan and event.standarderror is defined else ''-}}
-                    {{'<azimuthalGap>{}</azimuthalGap>'.format(event.azimuthalgap) if not event.azimuthalgap is nan and event.azimuthalgap is defined else ''-}}
-                    {{'<secondaryAzimuthalGap>{}</secondaryAzimuthalGap>'.format(event.secondaryazimuthalgap) if not event.secondaryazimuthalgap is nan and event.secondaryazimuthalgap is defined else ''-}}
-                    {{'<maximumDistance>{}</maximumDistance>'.format(event.maximumdistance) if not event.maximumdistance is nan and event.maximumdistance is defined else ''-}}
-                    {{'<minimumDistance>{}</minimumDistance>'.format(event.minimumdistance) if not event.minimumdistance is nan and event.minimumdistance is defined else ''-}}
-                    {{'<medianDistance>{}</medianDistance>'.format(event.mediandistance) if not event.mediandistance is nan and event.mediandistance is defined else ''-}}
+                    {{ element('associatedPhaseCount', event.associatedphasecount, true) }}
+                    {{ element('usedPhaseCount', event.usedphasecount, true) }}
+                    {{ element('associatedStationCount', event.associatedstationcount, true) }}
+                    {{ element('usedStationCount', event.usedstationcount, true) }}
+                    {{ element('depthPhaseCount', event.depthphasecount, true) }}
+                    {{ element('standardError', event.standarderror) }}
+                    {{ element('azimuthalGap', event.azimuthalgap) }}
+                    {{ element('secondaryAzimuthalGap', event.secondaryazimuthalgap) }}
+                    {{ element('maximumDistance', event.maximumdistance) }}
+                    {{ element('minimumDistance', event.minimumdistance) }}
+                    {{ element('medianDistance', event.mediandistance) }}
                 </quality>
             </origin>
 
diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index f0d5343..cc18bdb 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -98,7 +98,8 @@ def _render_template(data: dict, template_path: str) -> str:
     """
     env = Environment(
         loader=FileSystemLoader("/"),  # Base directory for templates
-        autoescape=select_autoescape(),
+        # templates are XML documents
+        autoescape=select_autoescape(default=True),
     )
     env.tests["nan"] = is_nan
 
-- 
2.43.0


From 234fb9952c2970fa74201b849e8178a57b7a5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 23/69] fix: to_quakeml writes missing values as text, empty
 identifiers and mixes up secondary magnitudes

---
 seismostats/catalogs/catalog.py               | 65 +++++++++++++------
 .../catalogs/catalog_templates/quakeml.j2     |  6 +-
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..8f8e566 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -55,6 +55,20 @@ def _catalog_constructor_with_fallback(df, **kwargs):
     return ForecastCatalog(df, **kwargs)
 
 
+def _split_secondary_key(key: str) -> tuple[str, str]:
+    '''
+    Splits the column name of a secondary magnitude into the magnitude type
+    (which can contain underscores) and the column name without it.
+    '''
+    mag_type, suffix = key[len('magnitude_'):], ''
+    for val in ['_uncertainty', '_lowerUncertainty', '_upperUncertainty',
+                '_confidenceLevel', '_magnitudeID']:
+        if mag_type.endswith(val):
+            mag_type, suffix = mag_type[:-len(val)], val
+            break
+    return mag_type, 'magnitude' + suffix
+
+
 class Catalog(pd.DataFrame):
     '''
     A catalog of seismic events represented in tabular form, where
@@ -1424,9 +1438,9 @@ class Catalog(pd.DataFrame):
                 '_type']
 
         secondary_mags = [mag for mag in self.columns if
-                          'magnitude_' in mag
-                          and not any(['magnitude' + val
-                                       in mag for val in vals])]
+                          isinstance(mag, str)
+                          and mag.startswith('magnitude_')
+                          and mag not in ['magnitude' + val for val in vals]]
         return secondary_mags
 
     def _create_ids(self) -> Catalog:
@@ -1437,20 +1451,26 @@ class Catalog(pd.DataFrame):
         '''
         df = self.copy()
 
+        def fill_missing(col, create):
+            # object dtype, so that the column can hold strings
+            ids = df[col].astype(object) if col in df.columns else \
+                pd.Series(None, index=df.index, dtype=object)
+            rows = df.to_dict(orient='records')
+            df[col] = [create(row) if pd.isna(id) else id
+                       for id, row in zip(ids, rows)]
+
         for col in ['eventID', 'originID', 'magnitudeID']:
-            if col not in df.columns:
-                df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
+            fill_missing(col, lambda _: uuid.uuid4().hex)
 
-        mag_types = set([mag.split('_')[1]
-                        for mag in df._secondary_magnitudekeys()])
+        mag_types = dict.fromkeys(_split_secondary_key(mag)[0] for mag
+                                  in df._secondary_magnitudekeys())
 
         for mag_type in mag_types:
-            if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
-                df[f'magnitude_{mag_type}_magnitudeID'] = \
-                    df.apply(
-                        lambda x: uuid.uuid4().hex
-                        if not mag_type == x['magnitude_type']
-                        else x['magnitudeID'], axis=1)
+            fill_missing(
+                f'magnitude_{mag_type}_magnitudeID',
+                lambda x: uuid.uuid4().hex
+                if not mag_type == x['magnitude_type']
+                else x['magnitudeID'])
 
         return df
 
@@ -1503,16 +1523,23 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
-
-                    mag_type = mag.split('_')[1]
-                    mag_key = mag.replace('_' + mag_type, '')
-
+                mag_type, mag_key = _split_secondary_key(mag)
+                if pd.notna(event[mag]) and event['magnitude_type'] != mag_type \
+                        and mag_key != 'magnitude_magnitudeID':
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
+            for mag_type, values in event['sec_mags'].items():
+                values['magnitude_magnitudeID'] = \
+                    event[f'magnitude_{mag_type}_magnitudeID']
+            for mag in secondary_mags:
                 del event[mag]
 
+        # missing values are not written
+        data['events'] = [{key: value for key, value in event.items()
+                           if not (pd.api.types.is_scalar(value)
+                                   and pd.isna(value))}
+                          for event in data['events']]
+
         return _render_template(data, QML_TEMPLATE)
 
     def __finalize__(self, other, method=None, **kwargs) -> Catalog:
diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 0322050..f60af10 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -22,7 +22,7 @@
                     {{ element('value', event.magnitude) }}
                     {{ element('uncertainty', event.magnitude_uncertainty) }}
                 </mag>
-                <type>{{ event.magnitude_type }}</type>
+                {{ element('type', event.magnitude_type) }}
                 <originID>{{ event.originID }}</originID>
             </magnitude>
 
@@ -53,7 +53,7 @@
                     {{ element('value', event.latitude) }}
                     {{ element('uncertainty', event.latitude_uncertainty) }}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
+                {{ element('evaluationMode', event.evaluationmode) }}
                 <creationInfo>
                     <agencyID>{{ agencyID }}</agencyID>
                     <author>{{ author }}</author>
@@ -79,7 +79,7 @@
 
             <preferredOriginID>{{ event.originID }}</preferredOriginID>
             <preferredMagnitudeID>{{ event.magnitudeID }}</preferredMagnitudeID>
-            <type>{{ event.event_type }}</type>
+            {{ element('type', event.event_type) }}
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From 80bdc008995c806d0dec136a99073af769257a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 24/69] fix: to_quakeml drops the uncertainty of the time,
 asymmetric uncertainties and confidence levels

---
 .../catalogs/catalog_templates/quakeml.j2       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index f60af10..1303fb5 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -3,6 +3,12 @@
 <{{ tag }}>{{ value|int if integer else value }}</{{ tag }}>
 {%- endif -%}
 {%- endmacro -%}
+{%- macro uncertainties(obj, name) -%}
+{{ element('uncertainty', obj[name ~ '_uncertainty']) }}
+{{- element('lowerUncertainty', obj[name ~ '_lowerUncertainty']) }}
+{{- element('upperUncertainty', obj[name ~ '_upperUncertainty']) }}
+{{- element('confidenceLevel', obj[name ~ '_confidenceLevel']) }}
+{%- endmacro -%}
 <?xml version="1.0" encoding="UTF-8"?>
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
@@ -20,7 +26,7 @@
                 </creationInfo>
                 <mag>
                     {{ element('value', event.magnitude) }}
-                    {{ element('uncertainty', event.magnitude_uncertainty) }}
+                    {{ uncertainties(event, 'magnitude') }}
                 </mag>
                 {{ element('type', event.magnitude_type) }}
                 <originID>{{ event.originID }}</originID>
@@ -34,7 +40,7 @@
                 </creationInfo>
                 <mag>
                     {{ element('value', magnitude.magnitude) }}
-                    {{ element('uncertainty', magnitude.magnitude_uncertainty) }}
+                    {{ uncertainties(magnitude, 'magnitude') }}
                 </mag>
                 <type>{{ type }}</type>
                 <originID>{{ event.originID }}</originID>
@@ -44,14 +50,15 @@
             <origin publicID="{{ event.originID }}">
                 <time>
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
+                    {{ uncertainties(event, 'time') }}
                 </time>
                 <longitude>
                     {{ element('value', event.longitude) }}
-                    {{ element('uncertainty', event.longitude_uncertainty) }}
+                    {{ uncertainties(event, 'longitude') }}
                 </longitude>
                 <latitude>
                     {{ element('value', event.latitude) }}
-                    {{ element('uncertainty', event.latitude_uncertainty) }}
+                    {{ uncertainties(event, 'latitude') }}
                 </latitude>
                 {{ element('evaluationMode', event.evaluationmode) }}
                 <creationInfo>
@@ -60,7 +67,7 @@
                 </creationInfo>
                 <depth>
                     {{ element('value', event.depth) }}
-                    {{ element('uncertainty', event.depth_uncertainty) }}
+                    {{ uncertainties(event, 'depth') }}
                 </depth>
                 <quality>
                     {{ element('associatedPhaseCount', event.associatedphasecount, true) }}
-- 
2.43.0


From 83c6f59f2720559e2d30c8b811ee69a676cd17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 25/69] fix: fractions of seconds are lost when a catalogue has
 events before 1678

---
 seismostats/catalogs/catalog_templates/quakeml.j2 | 2 +-
 seismostats/utils/__init__.py                     | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1303fb5..bfb8131 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -49,7 +49,7 @@
 
             <origin publicID="{{ event.originID }}">
                 <time>
-                    <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
+                    <value>{{ event.time.isoformat(timespec='microseconds') }}Z</value>
                     {{ uncertainties(event, 'time') }}
                 </time>
                 <longitude>
diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index cc18bdb..82c1451 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -1,6 +1,7 @@
 # flake8: noqa
 import functools
 import math
+import re
 from datetime import datetime
 
 import pandas as pd
@@ -145,7 +146,11 @@ def _robust_parse_datetime(date: str) -> datetime:
         return date.to_pydatetime()
 
     date = date.split('Z')[0]
-    date = date.split('.')[0]
+    date, _, fraction = date.partition('.')
     date = _pad_year(date)
 
-    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S")
+    # digits of the fraction, without a UTC offset following it
+    fraction = re.match(r'\d{0,6}', fraction)[0]
+
+    return datetime.strptime(f'{date}.{fraction or 0}',
+                             "%Y-%m-%dT%H:%M:%S.%f")
-- 
2.43.0


From 6656ab731fd36f9e4422447df3e57db0473a83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 26/69] fix: Catalog.from_dict fails for events without
 magnitudes when dropping columns

---
 seismostats/catalogs/catalog.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 8f8e566..ea5fe17 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -306,14 +306,14 @@ class Catalog(pd.DataFrame):
         '''
 
         df = pd.DataFrame.from_dict(data, **kwargs)
-        df = cls(df)
 
-        if not include_uncertainties:  # and isinstance(df, Catalog):
-            df = df.drop_uncertainties()
-        if not include_ids:  # and isinstance(df, Catalog):
-            df = df.drop_ids()
+        # dropping columns works on any table, also one without magnitudes
+        if not include_uncertainties:
+            df = cls.drop_uncertainties(df)
+        if not include_ids:
+            df = cls.drop_ids(df)
 
-        return df
+        return cls(df)
 
     @classmethod
     def from_openquake(cls, oq_catalogue: OQCatalogue,
-- 
2.43.0


From 2a716d1b5736aa9e398c5e6d6f5f5349213598c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 27/69] fix: event download treats server errors as the end of
 the data

---
 seismostats/catalogs/client.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 5dc0ac9..69dbadc 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -127,8 +127,7 @@ class FDSNWSEventClient():
         if batch_size is not None:
             catalog = self._get_events_batched(batch_size, include_quality)
         else:
-            r = requests.get(self.url, stream=True, params=self.params)
-            catalog = parse_quakeml_response(r, include_quality=include_quality)
+            catalog = self._fetch(self.params, include_quality)
 
         catalog = Catalog.from_dict(
             catalog, include_uncertainty, include_ids)
@@ -140,6 +139,23 @@ class FDSNWSEventClient():
 
         return catalog
 
+    def _no_data(self, response: requests.Response) -> bool:
+        """
+        Check if the server has no (more) data, which is reported by the
+        status 204 (or 404 on request). Raises an error if the request failed.
+        """
+        if response.status_code == 404 \
+                and str(self.params.get('nodata')) == '404':
+            return True
+        response.raise_for_status()
+        return response.status_code == 204
+
+    def _fetch(self, params: dict, include_quality: bool) -> list[dict]:
+        r = requests.get(self.url, stream=True, params=params)
+        if self._no_data(r):
+            return []
+        return parse_quakeml_response(r, include_quality=include_quality)
+
     def _get_batch_params(self, batch_size: int) -> dict:
         batch_params = []
         for i in range(0, self._get_batch_count(batch_size)):
@@ -157,9 +173,7 @@ class FDSNWSEventClient():
         catalog = []
         batch_params = self._get_batch_params(batch_size)
         for params in batch_params:
-            r = requests.get(self.url, stream=True, params=params)
-            batch = parse_quakeml_response(r, include_quality=include_quality)
-            catalog.extend(batch)
+            catalog.extend(self._fetch(params, include_quality))
 
         return catalog
 
@@ -170,7 +184,7 @@ class FDSNWSEventClient():
         """
         params = self.params | {'limit': limit, 'offset': offset}
         r = requests.get(self.url, params=params)
-        return (r.status_code == 200 and r.content)
+        return (not self._no_data(r) and r.content)
 
     def _get_batch_count(self, batch_size: int) -> int:
         """
-- 
2.43.0


From 0e77b2a97fc513435cf07b0bfbec343ed97a5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 28/69] fix: batched download loses events after contradictory
 replies to its probes

---
 seismostats/catalogs/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 69dbadc..bc67be1 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -196,7 +196,8 @@ class FDSNWSEventClient():
 
         low = chunk // 2
         high = chunk
-        last_valid_chunk = 0
+        # already known to exist, a later contradictory reply loses no events
+        last_valid_chunk = low
 
         while low <= high:
             mid = (low + high) // 2
-- 
2.43.0


From 87bb1ffedfb6ac6be1dbe04566a7bda4336ff1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 29/69] fix: DataFrame operations fail on catalogues or lose
 their attributes

---
 seismostats/catalogs/catalog.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index ea5fe17..6944a9a 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,12 +47,24 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
-def _catalog_constructor_with_fallback(df, **kwargs):
+def _catalog_constructor_with_fallback(*args, **kwargs):
+    '''
+    Wraps the result of a DataFrame operation. The values of the result are
+    kept as they are, normalizing them is left to the class constructors.
+    '''
+    df = pd.DataFrame(*args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
     if not _check_required_cols(df, ['catalog_id']):
-        return Catalog(df, **kwargs)
-    return ForecastCatalog(df, **kwargs)
+        cls = Catalog
+    else:
+        cls = ForecastCatalog
+    catalog = cls.__new__(cls)
+    pd.DataFrame.__init__(catalog, df, copy=True)
+    for name in cls._metadata:
+        object.__setattr__(catalog, name, None)
+    catalog.logger = logging.getLogger(__name__)
+    return catalog
 
 
 def _split_secondary_key(key: str) -> tuple[str, str]:
@@ -147,7 +159,18 @@ class Catalog(pd.DataFrame):
         '''
         Required for subclassing Pandas DataFrame.
         '''
-        return _catalog_constructor_with_fallback
+        def constructor(*args, **kwargs):
+            df = _catalog_constructor_with_fallback(*args, **kwargs)
+            return pd.DataFrame.__finalize__(df, self)
+
+        return constructor
+
+    def apply(self, *args, **kwargs):
+        result = super().apply(*args, **kwargs)
+        if isinstance(result, pd.DataFrame):
+            # only here the result has its final column names
+            result = self._constructor(result)
+        return result
 
     def __init__(
             self,
-- 
2.43.0


From 3bd9ebe47f900944528d09281a6a779df799a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 30/69] fix: stripping a forecast catalogue derived from a
 catalogue drops its ids

---
 seismostats/catalogs/catalog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 6944a9a..c4fd31a 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -147,7 +147,7 @@ class Catalog(pd.DataFrame):
         :ivar logger:       Logger for the catalog.
     '''
 
-    _metadata = ['name', '_required_cols', 'mc', 'a_value',
+    _metadata = ['name', 'mc', 'a_value',
                  'delta_m', 'b_value', 'starttime', 'endtime',
                  'bounding_polygon', 'depth_min', 'depth_max',
                  'logger']
@@ -1634,6 +1634,10 @@ class ForecastCatalog(Catalog):
         # Total number of catalogs represented, including empty catalogs
         self.n_catalogs = n_catalogs
 
+    @require_cols(require=_required_cols)
+    def strip(self, inplace: bool = False) -> ForecastCatalog | None:
+        return super().strip(inplace=inplace)
+
     @require_cols(require=_required_cols)
     def to_quakeml(self, agencyID: str = ' ', author: str = ' ') -> list[str]:
         '''
-- 
2.43.0


From d22e88115860835113c1316ff34bb6bb5c7179fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 31/69] fix: time columns with different timezones, or other
 ISO notations of early times, fail or keep a timezone

---
 seismostats/catalogs/catalog.py |  3 ++-
 seismostats/utils/__init__.py   | 34 ++++++++++++---------------------
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index c4fd31a..ff11ddb 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -225,7 +225,8 @@ class Catalog(pd.DataFrame):
                 try:
                     self[tc] = pd.to_datetime(
                         self[tc], format='ISO8601').dt.tz_localize(None)
-                except (ValueError, OutOfBoundsDatetime):
+                except (ValueError, AttributeError, OutOfBoundsDatetime):
+                    # times out of bounds or with different timezones
                     self[tc] = self[tc].apply(_robust_parse_datetime)
 
         # make sure empty rows in string columns are NoneType
diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index 82c1451..0c2239f 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -110,18 +110,6 @@ def _render_template(data: dict, template_path: str) -> str:
     return qml
 
 
-def _pad_year(val):
-    # Extract year part and pad with zeros if necessary
-    if 'T' in val:
-        date_part, time_part = val.split('T')
-        parts = date_part.split('-')
-        if len(parts[0]) < 4:
-            parts[0] = parts[0].zfill(4)  # Pad year to 4 digits
-        date_part = '-'.join(parts)
-        val = f"{date_part}T{time_part}"
-    return val
-
-
 def _robust_parse_datetime(date: str) -> datetime:
     """
     Used to convert datetime strings which in general follow
@@ -140,17 +128,19 @@ def _robust_parse_datetime(date: str) -> datetime:
         return pd.NaT
 
     if isinstance(date, datetime):
-        return date
+        return date.replace(tzinfo=None)
 
-    if isinstance(date, pd.Timestamp):
-        return date.to_pydatetime()
+    date = date.strip()
+    if date.lower() in ('', 'nan', 'nat'):
+        return pd.NaT
 
-    date = date.split('Z')[0]
-    date, _, fraction = date.partition('.')
-    date = _pad_year(date)
+    match = re.fullmatch(
+        r'(\d{1,4})-(\d{1,2})-(\d{1,2})'
+        r'(?:[T ](\d{1,2}):(\d{1,2})(?::(\d{1,2})(?:\.(\d*))?)?'
+        r'\s*(?:Z|[+-]\d{2}(?::?\d{2})?)?)?', date)
+    if match is None:
+        raise ValueError(f'time {date!r} does not follow the ISO 8601 format')
 
-    # digits of the fraction, without a UTC offset following it
-    fraction = re.match(r'\d{0,6}', fraction)[0]
+    *fields, fraction = match.groups(default='0')
 
-    return datetime.strptime(f'{date}.{fraction or 0}',
-                             "%Y-%m-%dT%H:%M:%S.%f")
+    return datetime(*map(int, fields), int(fraction[:6].ljust(6, '0')))
-- 
2.43.0


From 6ab13c6b871f6128aaff44b85157f196844b5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 32/69] fix: Catalog(columns=...) without data fails

---
 seismostats/catalogs/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index ff11ddb..a48fba8 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -193,8 +193,8 @@ class Catalog(pd.DataFrame):
         if data is not None or 'columns' in kwargs:
             super().__init__(data, **kwargs)
         # if this dataframe is empty however, set some default columns
-        if data is None or self.columns.empty:
-            super().__init__(columns=CATALOG_COLUMNS, **kwargs)
+        if (data is None and 'columns' not in kwargs) or self.columns.empty:
+            super().__init__(**(kwargs | {'columns': CATALOG_COLUMNS}))
 
         self.name = name
         self.mc = mc
-- 
2.43.0


From 3766157ca699e033ba14f828455590122e628fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 33/69] fix: rate grids renumber cells or lose attributes when
 selecting or transforming

---
 seismostats/catalogs/rategrid.py | 75 +++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 12 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..935c76f 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -16,12 +16,22 @@ REQUIRED_COLS_RATEGRID = [
 
 
 def _rategrid_constructor_with_fallback(*args, **kwargs):
-    df = GRRateGrid(*args, **kwargs)
+    '''
+    Wraps the result of a DataFrame operation. The index of the result is
+    kept as it is, cells are only numbered when creating new rate grids.
+    '''
+    df = pd.DataFrame(*args, **kwargs)
     if not _check_required_cols(df, REQUIRED_COLS_RATEGRID):
-        return pd.DataFrame(*args, **kwargs)
-    if not _check_required_cols(df, required_cols=['grid_id']):
         return df
-    return ForecastGRRateGrid(*args, **kwargs)
+    if not _check_required_cols(df, required_cols=['grid_id']):
+        cls = GRRateGrid
+    else:
+        cls = ForecastGRRateGrid
+    rategrid = cls.__new__(cls)
+    pd.DataFrame.__init__(rategrid, df, copy=True)
+    for name in cls._metadata:
+        object.__setattr__(rategrid, name, None)
+    return rategrid
 
 
 class GRRateGrid(pd.DataFrame):
@@ -96,12 +106,24 @@ class GRRateGrid(pd.DataFrame):
         if len(self.index.names) > 1:
             try:
                 self._reindex_cell_id()
+                self._set_period_from_index()
             except AttributeError:
                 pass
 
     @property
     def _constructor(self):
-        return _rategrid_constructor_with_fallback
+        def constructor(*args, **kwargs):
+            df = _rategrid_constructor_with_fallback(*args, **kwargs)
+            return pd.DataFrame.__finalize__(df, self)
+
+        return constructor
+
+    def apply(self, *args, **kwargs):
+        result = super().apply(*args, **kwargs)
+        if isinstance(result, pd.DataFrame):
+            # only here the result has its final column names
+            result = self._constructor(result)
+        return result
 
     @classmethod
     def concat(cls, grids: list[GRRateGrid]):
@@ -254,10 +276,11 @@ class GRRateGrid(pd.DataFrame):
         index = (df.starttime, df.endtime) if endtime else df.starttime
         names = ['starttime', 'endtime'] if endtime else ['starttime']
 
-        # rename the index to cell_id, will be set in constructor
+        # rename the index to cell_id, will be set below
         df.index.name = 'cell_id'
 
         df = pd.concat({index: df}, names=names)
+        df._reindex_cell_id()
 
         return df
 
@@ -270,18 +293,40 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            cell_bounds = self[['longitude_min', 'longitude_max',
-                                'latitude_min', 'latitude_max',
-                                'depth_min', 'depth_max']]
-
-            self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+            self['cell'] = self._number_cells()
 
             self.set_index('cell', append=True, drop=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
 
             self.index.set_names('cell_id', level='cell', inplace=True)
 
+    def _number_cells(self) -> np.ndarray:
+        """
+        Number the cells of the rows, such that rows with equal bounds have
+        the same number.
+        """
+        cell_bounds = self[['longitude_min', 'longitude_max',
+                            'latitude_min', 'latitude_max',
+                            'depth_min', 'depth_max']]
+
+        return np.unique(
+            cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+
+    def _has_unique_cell_ids(self) -> bool:
+        """
+        Whether rows have the same `cell_id` exactly if they have the same
+        cell bounds.
+        """
+        pairs = pd.DataFrame({
+            'id': self.index.get_level_values('cell_id'),
+            'cell': self._number_cells()}).drop_duplicates()
+        return pairs['id'].is_unique and pairs['cell'].is_unique
+
+    def _set_period_from_index(self) -> None:
+        """
+        If the RateGrid has a MultiIndex which includes `starttime` and
+        optionally `endtime`, set the attributes to the period it covers.
+        """
         if 'starttime' in self.index.names:
             self.starttime = self.index.get_level_values('starttime').min()
             if 'endtime' in self.index.names:
@@ -308,6 +353,12 @@ class GRRateGrid(pd.DataFrame):
             for name in self._metadata:
                 object.__setattr__(self, name, getattr(
                     other.objs[0], name, None))
+            # the cells of the objects may be numbered independently
+            if 'cell_id' in self.index.names \
+                    and self.columns.is_unique \
+                    and _check_required_cols(self, REQUIRED_COLS_RATEGRID) \
+                    and not self._has_unique_cell_ids():
+                self._reindex_cell_id()
         return self
 
 
-- 
2.43.0


From e00160b9c8d256f7e0456826c487a5d0f7ee04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 34/69] fix: cells with unbounded depth get a new id in every
 row

---
 seismostats/catalogs/rategrid.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 935c76f..a8da360 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -2,18 +2,18 @@ from __future__ import annotations
 
 from typing import Callable
 
-import numpy as np
 import pandas as pd
 
 from seismostats.utils import _check_required_cols, require_cols
 
-REQUIRED_COLS_RATEGRID = [
+CELL_BOUNDS = [
     'longitude_min', 'longitude_max',
     'latitude_min', 'latitude_max',
     'depth_min', 'depth_max',
-    'a', 'b', 'mc'
 ]
 
+REQUIRED_COLS_RATEGRID = CELL_BOUNDS + ['a', 'b', 'mc']
+
 
 def _rategrid_constructor_with_fallback(*args, **kwargs):
     '''
@@ -293,24 +293,19 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            self['cell'] = self._number_cells()
-
-            self.set_index('cell', append=True, drop=True, inplace=True)
-            self.index = self.index.droplevel('cell_id')
+            cell_id = pd.Index(self._number_cells(), name='cell_id')
+            levels = [cell_id if name == 'cell_id' else
+                      self.index.get_level_values(i)
+                      for i, name in enumerate(self.index.names)]
+            self.index = pd.MultiIndex.from_arrays(levels)
 
-            self.index.set_names('cell_id', level='cell', inplace=True)
-
-    def _number_cells(self) -> np.ndarray:
+    def _number_cells(self):
         """
         Number the cells of the rows, such that rows with equal bounds have
         the same number.
         """
-        cell_bounds = self[['longitude_min', 'longitude_max',
-                            'latitude_min', 'latitude_max',
-                            'depth_min', 'depth_max']]
-
-        return np.unique(
-            cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+        return pd.DataFrame(self).groupby(
+            CELL_BOUNDS, dropna=False).ngroup().to_numpy()
 
     def _has_unique_cell_ids(self) -> bool:
         """
-- 
2.43.0


From 4fc024461f76f53634c6b3285234d03d5fee677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 35/69] fix: concatenated rate grids end at their latest start

---
 seismostats/catalogs/rategrid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index a8da360..a59431e 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -176,12 +176,16 @@ class GRRateGrid(pd.DataFrame):
                                       2              11.0  ...  2  2   2
 
         """
+        endtime = max((g.endtime for g in grids if not pd.isna(g.endtime)),
+                      default=None)
         if all((g.index.nlevels == 1 for g in grids)):
-            endtime = all(not pd.isna(g.endtime) for g in grids)
-            return cls(pd.concat([g.add_time_index(endtime) for g in grids]))
+            index_endtime = all(not pd.isna(g.endtime) for g in grids)
+            return cls(
+                pd.concat([g.add_time_index(index_endtime) for g in grids]),
+                endtime=endtime)
         elif all((g.index.nlevels == 2 for g in grids)) or \
                 all((g.index.nlevels == 3 for g in grids)):
-            return cls(pd.concat(grids, axis=0))
+            return cls(pd.concat(grids, axis=0), endtime=endtime)
         else:
             raise ValueError("All grids must have the same number "
                              "of index levels (1, 2 or 3).")
@@ -326,7 +330,7 @@ class GRRateGrid(pd.DataFrame):
             self.starttime = self.index.get_level_values('starttime').min()
             if 'endtime' in self.index.names:
                 self.endtime = self.index.get_level_values('endtime').max()
-            else:
+            elif pd.isna(self.endtime):
                 self.endtime = self.index.get_level_values('starttime').max()
 
     def __finalize__(self, other, method=None, **kwargs):
-- 
2.43.0


From 8aab6b674b9b4ab7142fcb90091109985f65eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 36/69] fix: stripping a rate grid uses the required columns of
 another kind of grid

---
 seismostats/catalogs/rategrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index a59431e..b82b1a8 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -86,7 +86,7 @@ class GRRateGrid(pd.DataFrame):
         :ivar starttime:    Start time of the GRRateGrid.
         :ivar endtime:      End time of the GRRateGrid.
     """
-    _metadata = ['name', '_required_cols', 'starttime', 'endtime']
+    _metadata = ['name', 'starttime', 'endtime']
     _required_cols = REQUIRED_COLS_RATEGRID
 
     def __init__(self, data=None, *args, name=None,
-- 
2.43.0


From a3c431995a934247b481ed98ee0ec8a4e88aa590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 37/69] fix: forecast statistics lose unbounded cells and
 aggregate the cell bounds

---
 seismostats/catalogs/rategrid.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index b82b1a8..b25d481 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -502,7 +502,8 @@ class ForecastGRRateGrid(GRRateGrid):
         """
         # Base columns to compute statistics on
         rategrid = self.copy()
-        rategrid = rategrid.dropna(axis=1, how='all')
+        empty_cols = self.columns[self.isna().all()].difference(CELL_BOUNDS)
+        rategrid = rategrid.drop(columns=empty_cols)
 
         # get available columns
         base_cols = ['number_events', 'b', 'mc', 'a', 'alpha']
@@ -512,6 +513,9 @@ class ForecastGRRateGrid(GRRateGrid):
         # Apply agg_func to all numeric columns
         agg_dict = {col: agg_func for col in numeric_cols}
 
+        # The bounds are the same for all rows of a cell
+        agg_dict |= {col: 'first' for col in CELL_BOUNDS}
+
         # Add extra metrics for base_cols (if not already present)
         for suffix, func in extra_stats.items():
             for col in base_cols:
@@ -522,13 +526,11 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            agg = {'by': CELL_BOUNDS}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-        statistics = rategrid.groupby(**agg).agg(agg_dict)
+        statistics = rategrid.groupby(**agg, dropna=False).agg(agg_dict)
 
         if 'by' in agg:
             statistics.reset_index(inplace=True, drop=True)
-- 
2.43.0


From 4fd553c21ad0e1c6a556f2dd8734a3a0590dc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 38/69] fix: declustering depends on the index labels of the
 catalog

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..a990a8a 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -70,13 +70,13 @@ class GardnerKnopoffType1(Declusterer):
         # each cluster of events is assigned a non-negative integer id
         cluster_ids = np.zeros(len(catalog), dtype=int)
         cluster_id = 1
-        magnitude = catalog["magnitude"]
-        longitude = catalog["longitude"]
-        latitude = catalog["latitude"]
+        magnitude = catalog["magnitude"].to_numpy()
+        longitude = catalog["longitude"].to_numpy()
+        latitude = catalog["latitude"].to_numpy()
 
         time = catalog["time"].astype("datetime64[s]", errors="ignore").values
         space_windows, time_windows = self.time_distance_window(magnitude)
-        ordered = catalog[list(cols)].sort_values(
+        ordered = catalog[list(cols)].reset_index(drop=True).sort_values(
             by=["magnitude", "time"], ascending=[False, True], kind="mergesort"
         )
         mainshock_flags = np.ones(len(catalog), dtype=bool)
-- 
2.43.0


From 6fb586b7b7f5d77e9ee117292e204947caed771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 39/69] fix: declustering ignores fractions of seconds in the
 time windows

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index a990a8a..03bfdc9 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -74,7 +74,7 @@ class GardnerKnopoffType1(Declusterer):
         longitude = catalog["longitude"].to_numpy()
         latitude = catalog["latitude"].to_numpy()
 
-        time = catalog["time"].astype("datetime64[s]", errors="ignore").values
+        time = catalog["time"].astype("datetime64[us]", errors="ignore").values
         space_windows, time_windows = self.time_distance_window(magnitude)
         ordered = catalog[list(cols)].reset_index(drop=True).sort_values(
             by=["magnitude", "time"], ascending=[False, True], kind="mergesort"
-- 
2.43.0


From a844994a8fd6dba53cd9d9554ce9c9b7542ddeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 40/69] fix: a time cutoff of zero is ignored by the
 declustering windows

---
 seismostats/analysis/declustering/distance_time_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/distance_time_windows.py b/seismostats/analysis/declustering/distance_time_windows.py
index 49f94c6..f1aaf62 100644
--- a/seismostats/analysis/declustering/distance_time_windows.py
+++ b/seismostats/analysis/declustering/distance_time_windows.py
@@ -54,7 +54,7 @@ class BaseDistanceTimeWindow(abc.ABC):
             sw_time:    Array of time windows.
         """
         sw_space, sw_time = self._calc(magnitude)
-        if self.time_cutoff:
+        if self.time_cutoff is not None:
             sw_time = np.clip(sw_time, a_min=0, a_max=self.time_cutoff)
         sw_time = np.array([pd.Timedelta(days=t) for t in sw_time])
         return sw_space, sw_time
-- 
2.43.0


From 9d58c2fa433ee9b955d42714135e658c3beb331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 41/69] fix: declustering fails for catalogs longer than 292
 years

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 03bfdc9..b8ec913 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -76,6 +76,8 @@ class GardnerKnopoffType1(Declusterer):
 
         time = catalog["time"].astype("datetime64[us]", errors="ignore").values
         space_windows, time_windows = self.time_distance_window(magnitude)
+        time_windows = pd.to_timedelta(time_windows).values.astype(
+            "timedelta64[us]")
         ordered = catalog[list(cols)].reset_index(drop=True).sort_values(
             by=["magnitude", "time"], ascending=[False, True], kind="mergesort"
         )
-- 
2.43.0


From f8ae2995124eeb0ef38911c009cf7b15e2e6874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 42/69] fix: b_significant_1D sorts the events but not their
 completeness magnitudes

---
 seismostats/analysis/b_significant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
-- 
2.43.0


From 9c582c70f7d9388efbf040fb3bdd6db13a72d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 43/69] fix: scalar completeness of a numpy type fails in the
 b-value series functions

---
 seismostats/analysis/b_significant.py | 4 ++--
 seismostats/plots/statistical.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 9eda0f6..ed51f80 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -205,7 +205,7 @@ def values_from_partitioning(
             "Length of list_times and list_magnitudes must be the same.")
     list_magnitudes = [np.array(mags) for mags in list_magnitudes]
     list_times = [np.array(times) for times in list_times]
-    if isinstance(list_mc, (float, int)):
+    if np.ndim(list_mc) == 0:
         list_mc = np.ones(n_subsets) * list_mc
     else:
         if n_subsets != len(list_mc):
@@ -367,7 +367,7 @@ def b_significant_1D(
     times = np.array(times)
     if len(magnitudes) != len(times):
         raise IndexError("Magnitudes and times must have the same length.")
-    if isinstance(mc, (float, int)):
+    if np.ndim(mc) == 0:
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..cbb6bfe 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -148,7 +148,7 @@ def plot_b_series_constant_nm(
     # sanity checks and preparation
     magnitudes = np.array(magnitudes)
     times = np.array(times)
-    if isinstance(mc, (float, int)):
+    if np.ndim(mc) == 0:
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
-- 
2.43.0


From 899235bc2e98c5203f78277d2809db5873db1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 44/69] fix: plot_b_significant_1D misaligns the completeness
 and fails for lists

---
 seismostats/plots/statistical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index cbb6bfe..b004d2e 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -290,8 +290,10 @@ def plot_b_significant_1D(
     magnitudes = np.array(magnitudes)
     times = np.array(times)
 
-    if isinstance(mc, (float, int)):
+    if np.ndim(mc) == 0:
         mc = np.ones(len(magnitudes)) * mc
+    else:
+        mc = np.array(mc)
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
@@ -303,6 +305,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
@@ -318,6 +321,7 @@ def plot_b_significant_1D(
                 15, len(magnitudes) / 15, 10).astype(int))
         else:
             raise ValueError("Not enough events to estimate significance.")
+    n_ms = np.array(n_ms)
 
     # estimate the MAC for each n_m
     p = np.zeros(len(n_ms))
-- 
2.43.0


From 7a3c1dafa4b00c28e704fdaf105151e99140e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 45/69] fix: one group without usable magnitude pairs makes
 b-value series with b-more-positive fail

---
 seismostats/analysis/bvalue/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index adc034f..e49af71 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -19,7 +19,8 @@ def bootstrap_std(sample: np.ndarray,
     - random_state: Random seed for reproducibility (default: None)
 
     Returns:
-    - float, the estimated bootstrap variance of the statistic
+    - float, the estimated bootstrap variance of the statistic (`NaN` if no
+            resample gives a valid estimate)
     """
     rng = np.random.default_rng(random_state)
     sample = np.array(sample)
@@ -32,8 +33,7 @@ def bootstrap_std(sample: np.ndarray,
     # disregard nan and inf
     estimates = estimates[~np.isinf(estimates) & ~np.isnan(estimates)]
     if len(estimates) == 0:
-        raise ValueError(
-            "No valid estimates after filtering NaN and Inf values.")
+        return np.nan
     return np.std(estimates, ddof=1)
 
 
-- 
2.43.0


From c1c92b374a1758a8ef6cea460d3cafc331014c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 46/69] fix: maximum magnitude of zero is ignored in
 simulations

---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..21e6714 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,7 +35,7 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
         lower_cdf = 1 - np.exp(-beta * mc)
         upper_cdf = 1 - np.exp(-beta * mag_max)
-- 
2.43.0


From e8a9436f06be51cc24a50215e585de57497c46c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 47/69] fix: truncated simulation far above zero exceeds the
 maximum magnitude

---
 seismostats/utils/simulate_distributions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 21e6714..064e2f1 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -37,10 +37,8 @@ def simulate_magnitudes(
     """
     if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
-        lower_cdf = 1 - np.exp(-beta * mc)
-        upper_cdf = 1 - np.exp(-beta * mag_max)
-        scaled_u = lower_cdf + u * (upper_cdf - lower_cdf)
-        mags = -(1 / beta) * np.log(1 - scaled_u)
+        # relative to mc, for numerical stability
+        mags = mc - np.log1p(u * np.expm1(-beta * (mag_max - mc))) / beta
     else:
         mags = np.random.exponential(1 / beta, n) + mc
 
-- 
2.43.0


From f6acbe724e78c814325ebe551f2a23db358d4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 48/69] fix: Kijko-Smit and Weichert estimates fail when asked
 for beta

---
 seismostats/analysis/bvalue/kijko_smit.py | 1 +
 seismostats/analysis/bvalue/weichert.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e31bcd7 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -125,6 +125,7 @@ def estimate_b_kijko_smit(
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
 
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..fbe90b9 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -205,6 +205,7 @@ def estimate_b_weichert(
         / (denominator_term1 - denominator_term2)
     )
     std_b = np.sqrt(var_beta)
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
-- 
2.43.0


From b758d0e65739784ed407c3369a9dd64ab16cefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 49/69] fix: Kijko-Smit estimate is NaN if one sub-catalogue is
 empty

---
 seismostats/analysis/bvalue/kijko_smit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index e31bcd7..eefcff4 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -115,6 +115,8 @@ def estimate_b_kijko_smit(
     # Equation (7) from Kijko, Smit (2012)
     estimator_terms = []
     for ii, subcat_magnitudes in enumerate(sub_catalogues):
+        if len(subcat_magnitudes) == 0:
+            continue
         # get sub-catalogue beta-value as per Aki-Utsu
         sub_beta = 1 / (
             np.average(subcat_magnitudes) - completeness_magnitudes[ii]
-- 
2.43.0


From 7e2758fa1ef21b23759f24c7f2899012c438c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 50/69] fix: Kijko-Smit rate counts the recent years repeatedly

---
 seismostats/analysis/bvalue/kijko_smit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index eefcff4..d6e0538 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -133,9 +133,11 @@ def estimate_b_kijko_smit(
         std_b = beta_to_b_value(std_b)
 
     # get rate assuming Poisson process (Equation 10)
+    # each sub-catalogue only covers the time until the next one starts
+    durations = -np.diff(np.append(last_year, completeness_years))
     denominator_rate = 0
     for idx in range(len(completeness_magnitudes)):
-        denominator_rate += (last_year - completeness_years[idx]) * np.exp(
+        denominator_rate += durations[idx] * np.exp(
             (-beta)
             * (completeness_magnitudes[idx] - completeness_magnitudes[0])
         )
-- 
2.43.0


From 4356c47c26e12f1a28f7eb9e27c282dd29ceee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 51/69] fix: Weichert estimate ignores magnitude bins without
 events

---
 seismostats/analysis/bvalue/weichert.py | 47 ++++++++++++-------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index fbe90b9..105a1db 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -120,32 +120,29 @@ def estimate_b_weichert(
     # get number of "complete" events in each magnitude bin
     # and associated year of completeness
     idxcomp = (completeness_starts > 0) & (years - completeness_starts >= 0)
-    complete_events = (
-        pd.DataFrame.groupby(
-            pd.DataFrame(
-                data={
-                    "mag_left_edge": np.array(
-                        [
-                            i.left
-                            for i in pd.cut(
-                                magnitudes[idxcomp],
-                                bins=np.arange(
-                                    completeness_table_magnitudes[0],
-                                    mag_max + 0.01,
-                                    delta_m,
-                                ),
-                                right=False,
-                            )
-                        ]
-                    ),
-                    "completeness_start": completeness_starts[idxcomp],
-                }
+    # (bins without events contribute to the likelihood, too)
+    bins = np.arange(
+        completeness_table_magnitudes[0], mag_max + 0.01, delta_m
+    )
+    bin_of_event = pd.cut(
+        magnitudes[idxcomp], bins=bins, right=False, labels=False
+    )
+    assert not np.any(
+        np.isnan(bin_of_event)
+    ), "magnitudes larger than mag_max"
+    complete_events = pd.DataFrame(
+        data={
+            "mag_left_edge": bins[:-1],
+            "completeness_start": completeness_table_years[
+                np.searchsorted(
+                    completeness_table_magnitudes, bins[:-1] + delta_m * 0.5
+                )
+                - 1
+            ],
+            "num": np.bincount(
+                bin_of_event.astype(int), minlength=len(bins) - 1
             ),
-            by=["mag_left_edge", "completeness_start"],
-        )
-        .size()
-        .to_frame("num")
-        .reset_index()
+        }
     )
     assert np.all(
         complete_events.completeness_start > 0
-- 
2.43.0


From f35995ff73ceaec01ff2f5194a1dd8af2d4efe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 52/69] fix: weighted frequency-magnitude plots fail for NaN
 magnitudes

---
 seismostats/plots/basics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..8a24895 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -80,7 +80,11 @@ def plot_cum_fmd(
     if fmd_bin is None:
         fmd_bin = 0
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    magnitudes = np.asarray(magnitudes)
+    valid = ~np.isnan(magnitudes)
+    magnitudes = magnitudes[valid]
+    if weights is not None:
+        weights = np.asarray(weights)[valid]
     bins, c_counts, magnitudes = get_cum_fmd(
         magnitudes, fmd_bin, weights=weights, bin_position=bin_position
     )
@@ -172,7 +176,11 @@ def plot_fmd(
         ax: The ax object that was plotted on.
     """
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    magnitudes = np.asarray(magnitudes)
+    valid = ~np.isnan(magnitudes)
+    magnitudes = magnitudes[valid]
+    if weights is not None:
+        weights = np.asarray(weights)[valid]
 
     bins, counts, magnitudes = get_fmd(
         magnitudes,
-- 
2.43.0


From 89fba1869d9865400d26e58bb8fd19109332077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 53/69] fix: line of the weighted cumulative distribution
 ignores the weights

---
 seismostats/plots/basics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 8a24895..644733a 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -116,7 +116,8 @@ def plot_cum_fmd(
         if color_line is None:
             color_line = scatter1.get_facecolor()[0]
 
-        n_mc = len(magnitudes[magnitudes >= mc - fmd_bin / 2])
+        complete = magnitudes >= mc - fmd_bin / 2
+        n_mc = sum(complete) if weights is None else sum(weights[complete])
         if bin_position == "left":
             mc -= fmd_bin / 2
         x = bins[bins >= mc - fmd_bin / 2]
-- 
2.43.0


From 0b10103005ce71e90565c2eef44f31eb6368e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 54/69] fix: cumulative count plot is empty if the first
 magnitude is NaN

---
 seismostats/plots/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 644733a..06400e9 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -256,7 +256,7 @@ def plot_cum_count(
     if delta_m is None:
         delta_m = 0
     if mcs is None:
-        mcs = np.array([min(magnitudes)])
+        mcs = np.array([np.nanmin(magnitudes)])
     if weights is None:
         weights = np.ones(n_events)
     else:
-- 
2.43.0


From e7fcce9563ffbad8e2812fde29dbd2022f12c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 55/69] fix: plot_mags_in_time extends the lists of the caller

---
 seismostats/plots/basics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 06400e9..5109f51 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -367,7 +367,9 @@ def plot_mags_in_time(
     )
 
     if mc_change_times is not None and mcs is not None:
-        if isinstance(mc_change_times[0], int):
+        mc_change_times = list(mc_change_times)
+        mcs = list(mcs)
+        if isinstance(mc_change_times[0], (int, np.integer)):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
         mc_change_times.append(np.max(times))
-- 
2.43.0


From c05ba0669abd8fdc38f38c51a78c3a3a11b4effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 56/69] fix: dot sizes are NaN for equal magnitudes or with a
 NaN magnitude

---
 seismostats/plots/basics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 5109f51..4e704b1 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -413,10 +413,12 @@ def dot_size(
             "setting it to whatever I think is better"
         )
         largest = 50 * max(smallest, 2)
-    smallest_mag = np.min(magnitudes)
-    largest_mag = np.max(magnitudes)
+    smallest_mag = np.nanmin(magnitudes)
+    largest_mag = np.nanmax(magnitudes)
 
-    mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    # all dots have the smallest size if all magnitudes are equal
+    mag_range = (largest_mag - smallest_mag) or 1
+    mag_norm = (magnitudes - smallest_mag) / mag_range
     mag_powered = np.power(mag_norm, interpolation_power)
     sizes = mag_powered * (largest - smallest) + smallest
 
@@ -452,7 +454,8 @@ def reverse_dot_size(
     if interpolation_power == 0:
         raise ValueError("interpolation_power cannot be 0")
 
-    size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
+    size_range = (max(sizes) - min(sizes)) or 1
+    size_norm = (sizes - min(sizes)) / size_range
     size_powered = np.power(size_norm, 1 / interpolation_power)
     magnitudes = size_powered * (max_mag - min_mag) + min_mag
     return magnitudes
-- 
2.43.0


From d90adce5d9338454005415cdc0362667134d6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 57/69] fix: ks_test_gr returned the caller's own list of KS
 distances

---
 seismostats/analysis/estimate_mc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 1766611..67b3648 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -117,6 +117,7 @@ def ks_test_gr(
             ks_ds[ii] = np.max(np.abs(y_emp - y_th))
 
     else:
+        ks_ds = np.array(ks_ds)
         max_considered_mag = np.max(magnitudes)
         x_bins = bin_to_precision(
             np.arange(mc, max_considered_mag + 3
-- 
2.43.0


From 7b76345f7fa87ef61ff9ef90f4c06021e007b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:12 +0000
Subject: [PATCH 58/69] fix: estimate_mc_ks failed only with warnings enabled
 when there is nothing to check

---
 seismostats/analysis/estimate_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 67b3648..0305912 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -243,10 +243,12 @@ def estimate_mc_ks(
         raise ValueError('Magnitudes are not binned correctly.')
 
     if get_option("warnings") is True:
-        if not binning_test(magnitudes, delta_m, check_larger_binning=False):
+        if not np.all(np.isnan(magnitudes)) and not binning_test(
+                magnitudes, delta_m, check_larger_binning=False):
             warnings.warn("Magnitudes are not binned correctly. "
                           "Test might fail because of this.")
-        if not binning_test(mcs_test, delta_m, check_larger_binning=False):
+        if not np.all(np.isnan(mcs_test)) and not binning_test(
+                mcs_test, delta_m, check_larger_binning=False):
             warnings.warn("Mcs to test are not binned correctly. "
                           "Test might fail because of this.")
 
-- 
2.43.0


From a18c14f5b63ae9ad88df0eacd8c9136f44cd1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:12 +0000
Subject: [PATCH 59/69] fix: a NaN magnitude suppressed the warning about an
 empty lowest bin

---
 seismostats/analysis/avalue/base.py | 2 +-
 seismostats/analysis/bvalue/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/avalue/base.py b/seismostats/analysis/avalue/base.py
index 2e58219..40bf5da 100644
--- a/seismostats/analysis/avalue/base.py
+++ b/seismostats/analysis/avalue/base.py
@@ -115,7 +115,7 @@ class AValueEstimator(ABC):
 
             # give warnings
             if get_option('warnings') is True:
-                if np.min(self.magnitudes) - self.mc > self.delta_m / 2:
+                if np.nanmin(self.magnitudes) - self.mc > self.delta_m / 2:
                     warnings.warn(
                         'No magnitudes in the lowest magnitude bin are present.'
                         'Check if mc is chosen correctly.'
diff --git a/seismostats/analysis/bvalue/base.py b/seismostats/analysis/bvalue/base.py
index 0f60c6c..553770d 100644
--- a/seismostats/analysis/bvalue/base.py
+++ b/seismostats/analysis/bvalue/base.py
@@ -115,7 +115,7 @@ class BValueEstimator(ABC):
 
             # give warnings
             if get_option('warnings') is True:
-                if np.min(self.magnitudes) - self.mc > self.delta_m / 2:
+                if np.nanmin(self.magnitudes) - self.mc > self.delta_m / 2:
                     warnings.warn(
                         'No magnitudes in the lowest magnitude bin are present.'
                         'Check if mc is chosen correctly.'
-- 
2.43.0


From d03ff3683ccbbe0f2aa4017128f244d84337dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:12 +0000
Subject: [PATCH 60/69] fix: cat_intersect_polygon dropped a column called
 inside_polygon

---
 seismostats/utils/filtering.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/seismostats/utils/filtering.py b/seismostats/utils/filtering.py
index 2454560..5cb14d6 100644
--- a/seismostats/utils/filtering.py
+++ b/seismostats/utils/filtering.py
@@ -22,21 +22,16 @@ def cat_intersect_polygon(
     """
     # Make a copy of the DataFrame
     cat_copy = cat.copy()
-    # Add a new column to the DataFrame
-    # indicating whether each point is inside the polygon
-    cat_copy["inside_polygon"] = cat_copy.apply(
-        lambda row: Polygon(polygon_vertices).intersects(
-            Point(row["latitude"], row["longitude"])
-        ),
-        axis=1,
-    )
+    # Find out whether each point is inside the polygon
+    polygon = Polygon(polygon_vertices)
+    inside_polygon = [
+        polygon.intersects(Point(latitude, longitude))
+        for latitude, longitude in zip(cat_copy["latitude"],
+                                       cat_copy["longitude"])
+    ]
 
     # Filter the DataFrame to only include rows where
     # the point is inside the polygon
-    filtered_cat = (
-        cat_copy.query("inside_polygon")
-        .drop("inside_polygon", axis=True)
-        .copy()
-    )
+    filtered_cat = cat_copy.loc[inside_polygon].copy()
 
     return filtered_cat
-- 
2.43.0


From 87f6c039dfdbf9ff2ccb2ad3859431ceaf022a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 61/69] fix: from_openquake lost fractions of a second of early
 times and misread years before 1000

---
 seismostats/catalogs/catalog.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index a48fba8..cd0b2b3 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -5,7 +5,7 @@ import logging
 import os
 import uuid
 from collections import defaultdict
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Any, Callable
 
 import cartopy
@@ -387,13 +387,11 @@ class Catalog(pd.DataFrame):
         if not _openquake_available:
             raise ImportError("the optional openquake package is not available")
 
-        def _convert_to_datetime(row):
-            return datetime(row.year,
-                            row.month,
-                            row.day,
-                            row.hour,
-                            row.minute,
-                            row.second)
+        def _convert_to_datetime(year, month, day,
+                                 hour, minute, second, microsecond):
+            return datetime(year, month, day) + timedelta(
+                hours=hour, minutes=minute,
+                seconds=second, microseconds=microsecond)
         data = oq_catalogue.data
         # not all items of the data have necessarily the same length
         length = max((len(c) for c in data.values()), default=0)
@@ -406,13 +404,18 @@ class Catalog(pd.DataFrame):
         us = ((cat["second"] % 1) * 1e6)
         cat["microsecond"] = us.round().astype(np.int32)
         cat["second"] = cat["second"].astype(np.int32)
+        # pandas misreads years before 1000, so that the times are put together
+        # here
+        dt = [_convert_to_datetime(*(int(v) for v in row))
+              for row in zip(*(cat[col] for col in _PD_TIME_COLS))]
+        time = pd.Series(np.array(dt, dtype='datetime64[us]'), index=cat.index)
         try:
-            cat.loc[:, "time"] = pd.to_datetime(cat[_PD_TIME_COLS])
+            time = time.astype('datetime64[ns]')
         except ValueError:
             # if the time is out of bounds, we have to store
-            # datetime with a resolution of seconds.
-            dt = cat.apply(_convert_to_datetime, axis=1)
-            cat['time'] = dt.astype('datetime64[s]')
+            # datetime with a resolution of microseconds.
+            pass
+        cat['time'] = time
         if not keep_time_cols:
             cat.drop(columns=_PD_TIME_COLS, inplace=True)
         return cat
-- 
2.43.0


From c53254d43f53afd7cf59f0fa68011ad3aaef75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 62/69] fix: to_openquake failed for catalogs with nullable
 columns

---
 seismostats/catalogs/catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index cd0b2b3..8954b96 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -458,7 +458,8 @@ class Catalog(pd.DataFrame):
             return OQCatalogue()
         data = dict()
         for col, dtype in zip(self.columns, self.dtypes):
-            if pd.api.types.is_numeric_dtype(dtype):
+            if (pd.api.types.is_numeric_dtype(dtype)
+                    and isinstance(dtype, np.dtype)):
                 data[col] = self[col].to_numpy(dtype=dtype, copy=True)
             else:
                 data[col] = self[col].to_list()
-- 
2.43.0


From a6cd404d35f3c38c7616399a69b9e8b7ad00d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:55 +0000
Subject: [PATCH 63/69] fix: make_more_incomplete took simultaneous events in
 arbitrary order

---
 seismostats/analysis/bvalue/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index e49af71..0700748 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -168,7 +168,7 @@ def make_more_incomplete(
         '''
 
     # sort magnitudes in time
-    idx_sort = np.argsort(times)
+    idx_sort = np.argsort(times, kind="stable")
     magnitudes = magnitudes[idx_sort]
     times = times[idx_sort]
 
-- 
2.43.0


From b624c54abae9e93f68ec28d8f44e891a5c56d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:23 +0000
Subject: [PATCH 64/69] fix: haversine gave NaN for some opposite points on the
 globe

---
 seismostats/analysis/declustering/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/utils.py b/seismostats/analysis/declustering/utils.py
index d0043c6..434ff8e 100644
--- a/seismostats/analysis/declustering/utils.py
+++ b/seismostats/analysis/declustering/utils.py
@@ -55,6 +55,7 @@ def haversine(
         * (np.sin(dlon / 2.0) ** 2.0)
     )
     distance = (
-        2.0 * earth_rad * np.arctan2(np.sqrt(aval), np.sqrt(1 - aval))
+        2.0 * earth_rad * np.arctan2(
+            np.sqrt(aval), np.sqrt(np.maximum(1 - aval, 0)))
     ).T
     return distance
-- 
2.43.0


From 73699b3518ec62e11fb6cf5fe404c294687b3d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:28 +0000
Subject: [PATCH 65/69] fix: binning_test with delta_x=0 failed or missed
 binned samples

---
 seismostats/utils/binning.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 03e1fc5..f1e6f81 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -151,16 +151,13 @@ def binning_test(
     x = x - np.min(x)
 
     if delta_x == 0 and check_larger_binning is True:
-        range = np.max(x) - np.min(x)
-        power = np.arange(
-            np.floor(np.log10(tolerance)) + 1, np.ceil(np.log10(range)), 1
-        )
-        delta_x_test = 10**power
-        test = True
-        tolerance = 10 ** (np.floor(np.log10(tolerance)) - 1)
-        for delta_x_loop in delta_x_test:
-            if binning_test(x, delta_x_loop, tolerance):
-                return False
+        # an array that is binned to any power of ten larger than the
+        # tolerance is also binned to the smallest of them
+        power = max(np.floor(np.log10(tolerance)) + 1, np.log10(EPSILON))
+        delta_x_test = max(10.0**power, EPSILON)
+        test = not binning_test(x, delta_x_test,
+                                min(tolerance, delta_x_test / 100),
+                                check_larger_binning=False)
 
     else:
         if delta_x < tolerance:
-- 
2.43.0


From 96afb2eaf56ed0c9878e224b26af8797334411d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:06 +0000
Subject: [PATCH 66/69] fix: values_from_partitioning accepted a list_scaling
 of another length

---
 seismostats/analysis/b_significant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index ed51f80..7e2264d 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -215,6 +215,9 @@ def values_from_partitioning(
     if issubclass(method, AValueEstimator):
         if list_scaling is None:
             list_scaling = np.ones(n_subsets)
+        if n_subsets != len(list_scaling):
+            raise IndexError(
+                "Length of list_scaling must be the same as list_magnitudes.")
         list_scaling = np.array(list_scaling)
 
     # start estimation
-- 
2.43.0


From 8007607d7d573cc335f5bab215627ba2ee98765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:06 +0000
Subject: [PATCH 67/69] fix: positive estimators accepted times of another
 length than the magnitudes

---
 seismostats/analysis/avalue/more_positive.py | 4 ++++
 seismostats/analysis/avalue/positive.py      | 4 ++++
 seismostats/analysis/bvalue/more_positive.py | 4 ++++
 seismostats/analysis/bvalue/positive.py      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index 2626d98..9efd717 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -100,6 +100,10 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         self.times: np.ndarray = np.array(times)
         self.dmc: float = dmc if dmc is not None else delta_m
 
+        if len(self.times) != len(magnitudes):
+            raise IndexError(
+                "The number of magnitudes and times must be equal.")
+
         if self.dmc < 0:
             raise ValueError("dmc must be larger or equal to 0.")
 
diff --git a/seismostats/analysis/avalue/positive.py b/seismostats/analysis/avalue/positive.py
index cd018dc..ae87acc 100644
--- a/seismostats/analysis/avalue/positive.py
+++ b/seismostats/analysis/avalue/positive.py
@@ -94,6 +94,10 @@ class APositiveAValueEstimator(AValueEstimator):
         self.times: np.ndarray = np.array(times)
         self.dmc: float = dmc if dmc is not None else delta_m
 
+        if len(self.times) != len(magnitudes):
+            raise IndexError(
+                'The number of magnitudes and times must be equal.')
+
         if self.dmc < 0:
             raise ValueError('dmc must be larger or equal to 0.')
 
diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 749fcd1..8b0d750 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -95,6 +95,10 @@ class BMorePositiveBValueEstimator(BValueEstimator):
             times) if times is not None else times
         self.dmc: float = dmc if dmc is not None else delta_m
 
+        if self.times is not None and len(self.times) != len(magnitudes):
+            raise IndexError(
+                'The number of magnitudes and times must be equal.')
+
         if self.dmc < 0:
             raise ValueError('dmc must be larger or equal to 0')
 
diff --git a/seismostats/analysis/bvalue/positive.py b/seismostats/analysis/bvalue/positive.py
index da0c604..c99763d 100644
--- a/seismostats/analysis/bvalue/positive.py
+++ b/seismostats/analysis/bvalue/positive.py
@@ -89,6 +89,10 @@ class BPositiveBValueEstimator(BValueEstimator):
             times) if times is not None else times
         self.dmc: float = dmc if dmc is not None else delta_m
 
+        if self.times is not None and len(self.times) != len(magnitudes):
+            raise IndexError(
+                'The number of magnitudes and times must be equal.')
+
         if self.dmc < 0:
             raise ValueError('dmc must be larger or equal to 0.')
 
-- 
2.43.0


From 5f17653ce2c58ba988a33c18a48a547f8ab4b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:02 +0000
Subject: [PATCH 68/69] fix: b-value series functions cut mc and times of
 another length

---
 seismostats/analysis/b_significant.py | 2 ++
 seismostats/plots/statistical.py      | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 7e2264d..b0a32af 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -374,6 +374,8 @@ def b_significant_1D(
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
+        if len(mc) != len(magnitudes):
+            raise IndexError("Magnitudes and mc must have the same length.")
     if n_m < min_num:
         raise ValueError("n_m cannot be smaller than min_num.")
     if x_variable is None:
diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index b004d2e..470bb86 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -152,6 +152,8 @@ def plot_b_series_constant_nm(
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
+        if len(mc) != len(magnitudes):
+            raise IndexError("Magnitudes and mc must have the same length.")
     if n_m < min_num:
         raise ValueError("n_m cannot be smaller than min_num.")
     if len(magnitudes) != len(times):
@@ -289,11 +291,15 @@ def plot_b_significant_1D(
     # sanity checks and preparation
     magnitudes = np.array(magnitudes)
     times = np.array(times)
+    if len(magnitudes) != len(times):
+        raise IndexError("Magnitudes and times must have the same length.")
 
     if np.ndim(mc) == 0:
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
+        if len(mc) != len(magnitudes):
+            raise IndexError("Magnitudes and mc must have the same length.")
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
-- 
2.43.0


From a777971312bf6aa5825f06a9c2adeaf41fd3c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:03 +0000
Subject: [PATCH 69/69] fix: make_more_incomplete dropped magnitudes for fewer
 times

---
 seismostats/analysis/bvalue/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index 0700748..0f9aaa7 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -167,6 +167,9 @@ def make_more_incomplete(
         idx:        Array of indices of the events that were kept.
         '''
 
+    if len(magnitudes) != len(times):
+        raise IndexError('Magnitudes and times must have the same length.')
+
     # sort magnitudes in time
     idx_sort = np.argsort(times, kind="stable")
     magnitudes = magnitudes[idx_sort]
-- 
2.43.0

