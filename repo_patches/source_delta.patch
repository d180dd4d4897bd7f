From 41534de0e717487e3618670ff4cae07f6303465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 01/27] fix: do not order blank optional catalogue fields
 against numbers

---
 mtoolkit/eqcatalog.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 723bf19..775aeaa 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -212,7 +212,9 @@ class EqEntryReader(object):
 
         if field in self.compulsory_fields:
             return eq_entry[field] > 0
-        if eq_entry[field] < 0:
+        if eq_entry[field] != EqEntryReader.EMPTY_STRING and \
+            eq_entry[field] < 0:
+
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -260,7 +262,9 @@ class EqEntryReader(object):
         of the value in the eq_entry.
         """
 
-        if not 0 <= eq_entry[field] <= 59:
+        if eq_entry[field] != EqEntryReader.EMPTY_STRING and \
+            not 0 <= eq_entry[field] <= 59:
+
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -287,7 +291,8 @@ class EqEntryReader(object):
         (i.e. ErrorStrike, SemiMinor90, SemiMajor90).
         """
 
-        if not 0 <= eq_entry[field] <= 360 or \
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 360 or \
             eq_entry['SemiMinor90'] == EqEntryReader.EMPTY_STRING or \
             eq_entry['SemiMajor90'] == EqEntryReader.EMPTY_STRING or \
             not (eq_entry['SemiMinor90'] <= eq_entry['SemiMajor90']):
-- 
2.43.0


From d6a9969ca2ad5fa45ba7f57126515b44fd6621ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 02/27] fix: report an unreadable compulsory number as a
 validation error

The exception was built without its line number, so the reader died with
a TypeError instead of an EqEntryValidationError.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 775aeaa..cb5778a 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -189,7 +189,7 @@ class EqEntryReader(object):
                 except ValueError:
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-                            dict_fields_values[key])
+                            dict_fields_values[key], self.current_line)
                     else:
                         dict_fields_values[key] = EqEntryReader.EMPTY_STRING
 
-- 
2.43.0


From df034c79dc7c9bd12d65e4879e29734a0bf0a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 03/27] fix: reject days before the first of February

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index cb5778a..a1a7286 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -237,7 +237,7 @@ class EqEntryReader(object):
         Return a bool stating if check is passed.
         """
 
-        return (eq_entry['month'] == 2 and eq_entry[field] <= 29)\
+        return (eq_entry['month'] == 2 and 1 <= eq_entry[field] <= 29)\
             or (eq_entry['month'] != 2 and 1 <= eq_entry[field] <= 31)
 
     def check_hour(self, field, eq_entry):
-- 
2.43.0


From 5b400b83603fffa179b8261af55dd718ee73f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 04/27] fix: accept output files in the current directory

---
 mtoolkit/eqcatalog.py | 2 +-
 nrml/writer.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index a1a7286..20a5284 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -341,7 +341,7 @@ class EqEntryWriter(object):
     """
 
     def __init__(self, output_filename):
-        output_dir = os.path.dirname(output_filename)
+        output_dir = os.path.dirname(os.path.abspath(output_filename))
         if not os.path.exists(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
diff --git a/nrml/writer.py b/nrml/writer.py
index d793fdc..1d6322a 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -42,7 +42,7 @@ class AreaSourceWriter(object):
         :type filename: string
         """
 
-        dirname = os.path.dirname(filename)
+        dirname = os.path.dirname(os.path.abspath(filename))
         if not os.path.exists(dirname):
             raise IOError('Dir %s not found' %
                 (os.path.abspath(dirname), ))
-- 
2.43.0


From e711124e236c2f4f380560da503e19936ab2cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 05/27] fix: write the nrml document as bytes and close the
 file

---
 nrml/writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index 1d6322a..2a29c24 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -59,9 +59,10 @@ class AreaSourceWriter(object):
         root_elem = _write_body(root_elem, area_sources)
 
         tree = etree.ElementTree(root_elem)
-        tree.write(open(self.filename, 'w'),
-            xml_declaration=True, encoding='utf-8',
-            pretty_print=True)
+        with open(self.filename, 'wb') as nrml_file:
+            tree.write(nrml_file,
+                xml_declaration=True, encoding='utf-8',
+                pretty_print=True)
 
 
 def _write_header(area_sources):
-- 
2.43.0


From 1bf823339ed4dff619dc19f0c6d7d9fb04ef148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 06/27] fix: use float instead of np.float, removed from numpy

The number of years is also the size of an array, so it stays an integer.
---
 mtoolkit/scientific/maximum_magnitude.py | 8 ++++----
 mtoolkit/scientific/recurrence.py        | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index ea5f84f..62bb6ea 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -57,7 +57,7 @@ def h_smooth(mag):
     :rtype hfact: Float
     """
 
-    neq = np.float(np.shape(mag)[0])
+    neq = float(np.shape(mag)[0])
 
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
@@ -204,12 +204,12 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
     # Find number_eqs largest events
     if np.shape(mag)[0] <= neq:
         # Catalogue smaller than number of required events
-        neq = np.float(np.shape(mag)[0])
+        neq = float(np.shape(mag)[0])
     else:
         # Select number_eqs largest events
         mag = np.sort(mag, kind='quicksort')
         mag = mag[-neq:]
-        neq = np.float(neq)
+        neq = float(neq)
 
     mmin = np.min(mag)
     # Get smoothing factor
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = np.float(np.shape(year_range)[0])
+    nyr = np.shape(year_range)[0]
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index af60234..609ecb4 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,15 +205,15 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
-        nyr = np.float(np.max(year[id1]) - np.min(year[id1]) + 1)
+        nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
         temp_rec_table = recurrence_table(mag[id1], dmag, year[id1])
         bval, sigma_b = b_max_likelihood(temp_rec_table[:, 0],
                                          temp_rec_table[:, 1], dmag, m_c)
 
-        aval = np.log10(np.float(np.sum(id1)) / nyr) + bval * m_c
-        sigma_a = np.abs(np.log10(np.float(np.sum(id1)) / nyr) +
+        aval = np.log10(float(np.sum(id1)) / nyr) + bval * m_c
+        sigma_a = np.abs(np.log10(float(np.sum(id1)) / nyr) +
             (bval + sigma_b) * ref_mag - aval)
 
         # Calculate reference rate
-- 
2.43.0


From d16f0c61b6f31643fe298b1a96e056f32f14bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 07/27] fix: do not compare the np.std function with the
 interquartile range

np.std was never called, and a function is not less than a number: the
smoothing factor, and the results in the qa tests, always came from the
interquartile range. Keep that value without the comparison.
---
 mtoolkit/scientific/maximum_magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index 62bb6ea..2964e4e 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -62,7 +62,7 @@ def h_smooth(mag):
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
     iqr = qtiles[1] - qtiles[0]
-    hfact = 0.9 * np.min([np.std, iqr / 1.34]) * (neq ** (-1. / 5.))
+    hfact = 0.9 * (iqr / 1.34) * (neq ** (-1. / 5.))
     # Round h to 2 dp
     hfact = np.round(100. * hfact) / 100.
     return hfact
-- 
2.43.0


From e670a53e07b67b5d04c8a1dc2f762f03a559a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 08/27] fix: assign the distance selection as a vector in
 gardner knopoff

---
 mtoolkit/scientific/declustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3f0983a..2905a39 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -207,7 +207,7 @@ def gardner_knopoff_decluster(
             vsel1 = haversine(
                 catalog_matrix[vsel, 3], catalog_matrix[vsel, 4],
                 catalog_matrix[i, 3], catalog_matrix[i, 4]) <= sw_space[i]
-            vsel[vsel] = vsel1
+            vsel[vsel] = vsel1.flatten()
             temp_vsel = np.copy(vsel)
             temp_vsel[i] = False
             if any(temp_vsel):
-- 
2.43.0


From 00d5424d2a7418519cdcd488b3085a34948080f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 09/27] fix: keep events of a cluster in that cluster in
 gardner knopoff

The third argument of np.logical_and is the output array, so events that
already belonged to a cluster, main events included, moved to the cluster of
a smaller event.
---
 mtoolkit/scientific/declustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 2905a39..9f0a346 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -200,8 +200,9 @@ def gardner_knopoff_decluster(
             # Find Events inside both fore- and aftershock time windows
             dt = year_dec - year_dec[i]
             vsel = np.logical_and(dt >= (-sw_time[i] * fs_time_prop),
-                                              dt <= sw_time[i],
-                                              flagvector == 0)
+                                              dt <= sw_time[i])
+            # Events already in a cluster stay in that cluster
+            vsel = np.logical_and(vsel, vcl == 0)
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From f719e10b0afe60c4a421ec03d1e2d81315cc1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 10/27] fix: do not remove an event as the aftershock of a
 smaller one

With a foreshock window shorter than the aftershock window a main event
without aftershocks was taken as an aftershock of its own foreshock.
---
 mtoolkit/scientific/declustering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 9f0a346..3bcf2cb 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -203,6 +203,8 @@ def gardner_knopoff_decluster(
                                               dt <= sw_time[i])
             # Events already in a cluster stay in that cluster
             vsel = np.logical_and(vsel, vcl == 0)
+            # Larger events do not belong to the cluster of a smaller one
+            vsel[:i] = False
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From d8a5b4108a5df284000b2771e645723b2cc2885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 11/27] fix: start the afteran window at the event under
 analysis

A larger event in no cluster, however far in time, came first in the
selection: the window started from it and the cluster was missed.
---
 mtoolkit/scientific/declustering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3bcf2cb..5243537 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -360,6 +360,8 @@ def afteran_decluster(
 
             # Select earthquakes inside distance window and not in cluster
             vsel = np.logical_and(mdist <= sw_space[i], vcl == 0).flatten()
+            # Larger events do not belong to the cluster of a smaller one
+            vsel[:i] = False
             dtime = year_dec[vsel] - year_dec[i]
 
             nval = np.shape(dtime)[0]  # Number of events inside valid window
-- 
2.43.0


From 87679a06c0e8e26767d49e970260426413969a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 12/27] fix: keep the haversine distance of antipodal points a
 number

Rounding can take the haversine just over one, and the distance was nan.
---
 mtoolkit/geo/simple_fault.py               | 2 +-
 mtoolkit/scientific/catalogue_utilities.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/geo/simple_fault.py b/mtoolkit/geo/simple_fault.py
index 8890cfd..44d5435 100644
--- a/mtoolkit/geo/simple_fault.py
+++ b/mtoolkit/geo/simple_fault.py
@@ -98,7 +98,7 @@ class SimpleFaultGeo(object):
             a = sin(dlat / 2.0) ** 2 + (
                 (cos(lat1) * cos(lat2)) * (sin(dlon / 2.0) ** 2))
 
-            c = 2.0 * arctan2(sqrt(a), sqrt(1.0 - a))
+            c = 2.0 * arctan2(sqrt(a), sqrt(max(1.0 - a, 0.0)))
 
             d = radius * c
 
diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index f9e1bfb..bf856be 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -101,7 +101,7 @@ def haversine(lon1, lat1, lon2, lat2, radians=False, earth_rad=6371.227):
         aval = (np.sin(dlat / 2.) ** 2.) + (np.cos(lat1) * np.cos(lat2[i]) *
              (np.sin(dlon / 2.) ** 2.))
         distance[:, i] = (2. * earth_rad * np.arctan2(np.sqrt(aval),
-                                                    np.sqrt(1 - aval))).T
+                                                    np.sqrt(np.maximum(1 - aval, 0.)))).T
         i += 1
     return distance
 
-- 
2.43.0


From 107f62f15cabd0f135a920e3480f53fcc6b44a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 13/27] fix: accept tectonic region weights that sum to one up
 to rounding

Weights such as 0.7, 0.2, 0.1 sum to 0.9999999999999999.
---
 mtoolkit/geo/tectonic_region.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index 1420c1f..e72d4d1 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -57,6 +57,9 @@ class TectonicRegion(object):
 
     __slots__ = ('_region_id _msr _smod _dlr'.split())
 
+    # Allowed rounding error in a sum of weights
+    WEIGHT_TOLERANCE = 1E-9
+
     def __init__(self, region_id, msr, smod, dlr):
         self.check_msr_weight(msr, smod, dlr)
         self.check_msr(msr['model'])
@@ -148,13 +151,13 @@ class TectonicRegion(object):
         sum_weights_smod = reduce(lambda x, y: x + y, smod)
         sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
 
-        if sum_weights_msr != 1.0:
+        if abs(sum_weights_msr - 1.0) > cls.WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if sum_weights_smod != 1.0:
+        if abs(sum_weights_smod - 1.0) > cls.WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if sum_weights_dlr != 1.0:
+        if abs(sum_weights_dlr - 1.0) > cls.WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From a9465932d9c31c04d103803892cc997025881452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:22 +0000
Subject: [PATCH 14/27] fix: stop the Weichert algorithm when it cannot
 converge

With fewer than two magnitude bins it failed with an IndexError, and
with no complete events it looped for ever on a nan beta.
---
 mtoolkit/scientific/recurrence.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 609ecb4..89bbbea 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -30,6 +30,8 @@ import logging
 
 LOGGER = logging.getLogger('mt_logger')
 
+MAX_WEICHERT_ITERATIONS = 1000
+
 
 def recurrence_analysis(year_col, magnitude_col,
                         completeness_table, magnitude_window,
@@ -332,9 +334,16 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     :rtype: float
     """
 
+    if np.shape(fmag)[0] < 2 or not np.sum(nobs) > 0:
+        raise ValueError('Too few events for the Weichert algorithm')
+
     d_m = fmag[1] - fmag[0]
     itbreak = 0
+    n_iter = 0
     while (itbreak != 1):
+        n_iter += 1
+        if n_iter > MAX_WEICHERT_ITERATIONS or not np.isfinite(beta):
+            raise ValueError('The Weichert algorithm does not converge')
         snm = np.sum(nobs * fmag)
         nkount = np.sum(nobs)
         tjexp = tper * np.exp(-beta * fmag)
-- 
2.43.0


From 1843c2556b509c1bb69ec7f0222c2ba93c04f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:22 +0000
Subject: [PATCH 15/27] fix: keep the values of a source when its zone has too
 few events

As documented, a warning is logged and the values of the source model
are not overwritten; an empty zone used to abort the whole workflow.
---
 mtoolkit/jobs.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 40af0ad..8f9890b 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -306,7 +306,12 @@ def recurrence(context):
         in a pipeline
     """
 
-    bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning('* No events in the zone, recurrence not computed')
+        return
+
+    try:
+        bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
             context.current_filtered_eq[:,
                 CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
             context.current_filtered_eq[:, CATALOG_MATRIX_MW_INDEX],
@@ -315,6 +320,13 @@ def recurrence(context):
             context.config['Recurrence']['recurrence_algorithm'],
             context.config['Recurrence']['reference_magnitude'],
             context.config['Recurrence']['time_window'])
+    except ValueError as exc:
+        LOGGER.warning('* Recurrence not computed: %s' % exc)
+        return
+
+    if not np.all(np.isfinite([bval, a_m])):
+        LOGGER.warning('* Recurrence not computed: too few events')
+        return
 
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         a_value=a_m,
@@ -341,6 +353,11 @@ def maximum_magnitude(context):
     :param context: shared datastore across different jobs
         in a pipeline
     """
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning(
+            '* No events in the zone, maximum magnitude not computed')
+        return
+
     max_mag, max_mag_sigma = context.map_sc['maximum_magnitude'](
         context.current_filtered_eq[:,
             CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
@@ -353,6 +370,10 @@ def maximum_magnitude(context):
         context.config['MaximumMagnitude']['number_samples'],
         context.config['MaximumMagnitude']['number_bootstraps'])
 
+    if not np.isfinite(max_mag):
+        LOGGER.warning('* Maximum magnitude not computed: too few events')
+        return
+
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         max_magnitude=max_mag)
 
-- 
2.43.0


From 8958d96041a88a4fdbbb6ed2b2032cf0f38bcdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 16/27] fix: treat the missing fields of a short row as blank

A row with fewer columns than the header made the reader fail with a
TypeError, instead of reporting the missing compulsory field or leaving
the missing optional one empty.
---
 mtoolkit/eqcatalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 20a5284..a9c611f 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -176,7 +176,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = int(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     # fields in self.to_int are all compulsory
                     raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
@@ -186,7 +186,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = float(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
-- 
2.43.0


From dc434ba3017a7fd4cb32c9acea7f286fb21c1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:42 +0000
Subject: [PATCH 17/27] fix: give the right julian day in century years

(month - 9) / 7 is a whole number in the published formula: March to
August of years such as 1900 were one day late.
---
 mtoolkit/scientific/catalogue_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index bf856be..c284e1e 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -111,7 +111,7 @@ def greg2julian(year, month, day, hour, minute, second):
     timeut = hour + (minute / 60.0) + (second / 3600.0)
     jd = (367.0 * year) - np.floor(7.0 * (year +
              np.floor((month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 *
-             (np.floor((year + (month - 9.0) / 7.0) / 100.0) + 1.0) /
+             (np.floor((year + np.trunc((month - 9.0) / 7.0)) / 100.0) + 1.0) /
              4.0) + np.floor((275.0 * month) / 9.0) + day +\
              1721028.5 + (timeut / 24.0)
     return jd
-- 
2.43.0


From 1c6c42e8bcbefa830c0ed319ea5cef1f0a377da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 18/27] fix: do not skip the event after an aftershock in the
 afteran foreshock search

---
 mtoolkit/scientific/declustering.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 5243537..4e77eae 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -286,10 +286,8 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
     initval = dtime[0]
 
     while j < nval:
-        if vsel_aftershocks[j]:
-        # Event already allocated as an aftershock - skip
-            j += 1
-        else:
+        # An event already allocated as an aftershock is skipped
+        if not vsel_aftershocks[j]:
             ddt = dtime[j] - initval
             # Is event before previous event and within time window?
             vsel[j] = np.logical_and(ddt <= 0.0,
-- 
2.43.0


From 4fb25d8801018113a6c3eb060dc82d7e4bfd0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 19/27] fix: let the first location pass the stepp tolerance
 test

---
 mtoolkit/scientific/completeness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index afd3adf..88b893b 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -108,7 +108,7 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
         resid1 = grad1 - time_diff
         test1 = np.abs(resid1[1:] - resid1[:-1])
         tloct = np.nonzero(test1 > ttol)[0]
-        if not(np.any(tloct)):
+        if np.size(tloct) == 0:
             tloct = -1
         else:
             tloct = tloct[-1]
-- 
2.43.0


From 468fb845fecdc1b356ff30cd388aee3e9827a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:50 +0000
Subject: [PATCH 20/27] fix: refuse Weichert input whose likelihood has no
 maximum

---
 mtoolkit/scientific/recurrence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 89bbbea..3d1c106 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -337,6 +337,11 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     if np.shape(fmag)[0] < 2 or not np.sum(nobs) > 0:
         raise ValueError('Too few events for the Weichert algorithm')
 
+    # With all the events in the first or in the last bin the likelihood
+    # has no maximum
+    if not (np.sum(nobs[1:]) > 0 and np.sum(nobs[:-1]) > 0):
+        raise ValueError('All the events are in one extreme magnitude bin')
+
     d_m = fmag[1] - fmag[0]
     itbreak = 0
     n_iter = 0
-- 
2.43.0


From ef9fcbbf747802cfbe5c4c779ac7506717d565a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 21/27] fix: count the clusters also when every event is in one

---
 mtoolkit/jobs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 8f9890b..9d28090 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -163,7 +163,7 @@ def gardner_knopoff(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.size(np.setdiff1d(vcl, [0])))
 
 
 @logged_job
@@ -192,7 +192,7 @@ def afteran(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.size(np.setdiff1d(vcl, [0])))
 
 
 @logged_job
-- 
2.43.0


From c14b4a10120cb3c651848c0a4b43c86678d6120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:22 +0000
Subject: [PATCH 22/27] fix: name the right line also after blank lines in a
 catalogue

---
 mtoolkit/eqcatalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index a9c611f..8003189 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -142,8 +142,9 @@ class EqEntryReader(object):
         with valid values.
         """
         eq_reader = DictReader(self.eq_entries_source, fieldnames=FIELDNAMES)
-        # eq definitions start at line 2
-        for self.current_line, eq_line in enumerate(eq_reader, start=2):
+        for eq_line in eq_reader:
+            # the header, line 1, was read before; blank lines count too
+            self.current_line = eq_reader.reader.line_num + 1
             eq_entry = self.convert_values(eq_line)
             for field in eq_entry.keys():
                 if not self.check_map[field](field, eq_entry) and (field in
-- 
2.43.0


From b54d6462c6bb0af9c5e293c03215ceb9978806ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 23/27] fix: fit each completeness period also when rows of one
 year are apart

---
 mtoolkit/scientific/recurrence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 3d1c106..4f25698 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -200,6 +200,10 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
     mag_eq_tolerance = 1E-5
     while ival < np.shape(ctime)[0]:
         id0 = np.abs(ctime - ctime[ival]) < mag_eq_tolerance
+        if np.any(id0[:ival]):
+            # The period of this year is already there
+            ival += 1
+            continue
         m_c = np.min(cmag[id0])
         # Find events later than cut-off year, and with magnitude
         # greater than or equal to the corresponding completeness magnitude.
@@ -230,7 +234,7 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
             gr_pars = np.vstack([gr_pars, np.hstack([bval, sigma_b, rate,
                                                      sigrate])])
             neq = np.hstack([neq, np.sum(id1)])
-        ival = ival + np.sum(id0)
+        ival += 1
 
     # The nextapproach is to work out the average values of the G-R parameters
     # from these periods, weighted by the number of events in each period
-- 
2.43.0


From c9c9f566b6b55e83478a8c3c6e7e6b5efb8a6758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 24/27] fix: read all of a text of the source model that has
 comments in it

---
 nrml/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index 65db6e2..e594ca2 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -69,7 +69,9 @@ class NRMLReader(object):
         """
 
         with open(self.filename, 'rb') as nrml_file:
-            for source_model in etree.iterparse(nrml_file, schema=self.schema):
+            # comments would cut the text around them in pieces
+            for source_model in etree.iterparse(nrml_file, schema=self.schema,
+                    remove_comments=True, remove_pis=True):
                 tag = source_model[XML_NODE].tag
                 if tag in self.tag_action:
                     yield self.tag_action[tag](source_model[XML_NODE])
-- 
2.43.0


From b6d3676928ac2f1a6929272a36c8c1af3d96bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 25/27] fix: numbers which are not finite are no values of a
 catalogue

A moment magnitude of nan or inf passed as valid, and such an uncertainty
of Mw was kept instead of becoming zero.
---
 mtoolkit/eqcatalog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 8003189..8a30829 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -185,8 +185,10 @@ class EqEntryReader(object):
             elif key in self.to_float:
 
                 try:
-                    dict_fields_values[key] = float(
-                        dict_fields_values[key])
+                    value = float(dict_fields_values[key])
+                    if not abs(value) < float('inf'):
+                        raise ValueError('not a finite number')
+                    dict_fields_values[key] = value
                 except (ValueError, TypeError):
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-- 
2.43.0


From dfec1188484822bde8178405fff7be114058f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:53 +0000
Subject: [PATCH 26/27] fix: refuse tectonic region weights that are not
 numbers

---
 mtoolkit/geo/tectonic_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index e72d4d1..29e255b 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -151,13 +151,13 @@ class TectonicRegion(object):
         sum_weights_smod = reduce(lambda x, y: x + y, smod)
         sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
 
-        if abs(sum_weights_msr - 1.0) > cls.WEIGHT_TOLERANCE:
+        if not abs(sum_weights_msr - 1.0) <= cls.WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if abs(sum_weights_smod - 1.0) > cls.WEIGHT_TOLERANCE:
+        if not abs(sum_weights_smod - 1.0) <= cls.WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if abs(sum_weights_dlr - 1.0) > cls.WEIGHT_TOLERANCE:
+        if not abs(sum_weights_dlr - 1.0) <= cls.WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From 59d25f36477fda65a45c1e87a8554a28050593ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:41 +0000
Subject: [PATCH 27/27] fix: a Weichert iteration that overflows has not
 converged

---
 mtoolkit/scientific/recurrence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 4f25698..0410aa1 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -363,6 +363,9 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         stm2x = np.sum(fmag * tmexp)
         dldb = stmex / sumtex
         d2ldb2 = nkount * ((dldb ** 2.0) - (stm2x / sumtex))
+        if np.isinf(d2ldb2):
+            # Overflow: the step would be zero, as if it had converged
+            raise ValueError('The Weichert algorithm does not converge')
         dldb = (dldb * nkount) - snm
         betl = np.copy(beta)
         beta = beta - (dldb / d2ldb2)
-- 
2.43.0

