From d0570c32a82822d6637405f1aaa5c818e3df0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:08 +0000
Subject: [PATCH 01/32] fix: recurrence uses np.float, which numpy 1.24 removed

Every MLE recurrence run raised AttributeError; the builtin float is the same type.
---
 mtoolkit/scientific/recurrence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index af60234..609ecb4 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,15 +205,15 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
-        nyr = np.float(np.max(year[id1]) - np.min(year[id1]) + 1)
+        nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
         temp_rec_table = recurrence_table(mag[id1], dmag, year[id1])
         bval, sigma_b = b_max_likelihood(temp_rec_table[:, 0],
                                          temp_rec_table[:, 1], dmag, m_c)
 
-        aval = np.log10(np.float(np.sum(id1)) / nyr) + bval * m_c
-        sigma_a = np.abs(np.log10(np.float(np.sum(id1)) / nyr) +
+        aval = np.log10(float(np.sum(id1)) / nyr) + bval * m_c
+        sigma_a = np.abs(np.log10(float(np.sum(id1)) / nyr) +
             (bval + sigma_b) * ref_mag - aval)
 
         # Calculate reference rate
-- 
2.43.0


From 95cf5306a434f842502c42a144d18467f3464c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 02/32] fix: maximum magnitude uses np.float and a float array
 length

np.float is gone since numpy 1.24, and np.zeros() rejects a float shape, so
neither maximum magnitude algorithm could run.
---
 mtoolkit/scientific/maximum_magnitude.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index ea5f84f..62bb6ea 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -57,7 +57,7 @@ def h_smooth(mag):
     :rtype hfact: Float
     """
 
-    neq = np.float(np.shape(mag)[0])
+    neq = float(np.shape(mag)[0])
 
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
@@ -204,12 +204,12 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
     # Find number_eqs largest events
     if np.shape(mag)[0] <= neq:
         # Catalogue smaller than number of required events
-        neq = np.float(np.shape(mag)[0])
+        neq = float(np.shape(mag)[0])
     else:
         # Select number_eqs largest events
         mag = np.sort(mag, kind='quicksort')
         mag = mag[-neq:]
-        neq = np.float(neq)
+        neq = float(neq)
 
     mmin = np.min(mag)
     # Get smoothing factor
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = np.float(np.shape(year_range)[0])
+    nyr = np.shape(year_range)[0]
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
-- 
2.43.0


From d56228c08310bddb9e1916e210feecc1b9308fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 03/32] fix: kernel bandwidth compares the function np.std, not
 the deviation

Silverman's rule takes the smaller of the sample standard deviation and
IQR/1.34; np.std was never called.
---
 mtoolkit/scientific/maximum_magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index 62bb6ea..d12ae0c 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -62,7 +62,7 @@ def h_smooth(mag):
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
     iqr = qtiles[1] - qtiles[0]
-    hfact = 0.9 * np.min([np.std, iqr / 1.34]) * (neq ** (-1. / 5.))
+    hfact = 0.9 * np.min([np.std(mag), iqr / 1.34]) * (neq ** (-1. / 5.))
     # Round h to 2 dp
     hfact = np.round(100. * hfact) / 100.
     return hfact
-- 
2.43.0


From 9504d9497fdfab047ae579b420530aed9c5fe7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 04/32] fix: Gardner-Knopoff assigns a (n, 1) distance mask to
 n events

haversine() returns a column; assigning it through a boolean mask raises.
---
 mtoolkit/scientific/declustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3f0983a..2905a39 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -207,7 +207,7 @@ def gardner_knopoff_decluster(
             vsel1 = haversine(
                 catalog_matrix[vsel, 3], catalog_matrix[vsel, 4],
                 catalog_matrix[i, 3], catalog_matrix[i, 4]) <= sw_space[i]
-            vsel[vsel] = vsel1
+            vsel[vsel] = vsel1.flatten()
             temp_vsel = np.copy(vsel)
             temp_vsel[i] = False
             if any(temp_vsel):
-- 
2.43.0


From 5a5ddf116a8548f7674fc79fa320079ef2087d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:30 +0000
Subject: [PATCH 05/32] fix: Gardner-Knopoff steals events from clusters
 already built

The third positional argument of np.logical_and is the output array, so the
'not yet in a cluster' condition was overwritten instead of applied: members
(even mainshocks) of a larger event's cluster moved to a later cluster.
---
 mtoolkit/scientific/declustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 2905a39..2e1c2df 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -200,8 +200,9 @@ def gardner_knopoff_decluster(
             # Find Events inside both fore- and aftershock time windows
             dt = year_dec - year_dec[i]
             vsel = np.logical_and(dt >= (-sw_time[i] * fs_time_prop),
-                                              dt <= sw_time[i],
-                                              flagvector == 0)
+                                              dt <= sw_time[i])
+            # skip events which already belong to a cluster
+            vsel = np.logical_and(vsel, vcl == 0)
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From 0626a6356aebd20589f63843ea8c31edfecbfe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 06/32] fix: Gardner-Knopoff removes a mainshock as aftershock
 of a smaller event

A larger event with no dependent events of its own stayed unallocated, so a
smaller event preceding it took it into its window and flagged it.
---
 mtoolkit/scientific/declustering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 2e1c2df..2e9e7b2 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -203,6 +203,8 @@ def gardner_knopoff_decluster(
                                               dt <= sw_time[i])
             # skip events which already belong to a cluster
             vsel = np.logical_and(vsel, vcl == 0)
+            # events before i are larger: they can't depend on this one
+            vsel[:i] = False
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From 3cd1a4b34228f73928385187a641aee3b649ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 07/32] fix: Afteran starts its moving window from the wrong
 event

A larger, unclustered event inside the distance window became the first
selected event, and so the mainshock of a smaller event's cluster.
---
 mtoolkit/scientific/declustering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 2e9e7b2..bc57387 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -360,6 +360,9 @@ def afteran_decluster(
 
             # Select earthquakes inside distance window and not in cluster
             vsel = np.logical_and(mdist <= sw_space[i], vcl == 0).flatten()
+            # events before i are larger: they can't depend on this one, and
+            # the first selected event has to be the mainshock
+            vsel[:i] = False
             dtime = year_dec[vsel] - year_dec[i]
 
             nval = np.shape(dtime)[0]  # Number of events inside valid window
-- 
2.43.0


From 2d57b5faf9445fd5a660aaf7a5a222ca38468ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:43 +0000
Subject: [PATCH 08/32] fix: Afteran's moving window skips events and ignores
 time order

The selected events come in order of magnitude, so a window reset by a late
event lost earlier ones, and the foreshock search advanced twice over each
aftershock, skipping the event after it. Walk the events in time order.
---
 mtoolkit/scientific/declustering.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index bc57387..3f50b3e 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -253,15 +253,16 @@ def _find_aftershocks(dtime, nval, time_window):
     vsel = np.array(np.ones(nval), dtype=bool)
     initval = dtime[0]  # Start with the mainshock
 
-    j = 1
-    while j < nval:
+    # The window moves forward along the events in chronological order
+    for j in np.argsort(dtime, kind='mergesort'):
+        if j == 0:
+            continue
         ddt = dtime[j] - initval
         # Is event after previous event and within time window?
         vsel[j] = np.logical_and(ddt >= 0.0, ddt <= time_window)
         if vsel[j]:
             # Reset time window to new event time
             initval = dtime[j]
-        j += 1
     return vsel
 
 
@@ -281,15 +282,13 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
     :rtype: numpy.ndarray
     """
 
-    j = 1
     vsel = np.array(np.zeros(nval), dtype=bool)
     initval = dtime[0]
 
-    while j < nval:
-        if vsel_aftershocks[j]:
-        # Event already allocated as an aftershock - skip
-            j += 1
-        else:
+    # The window moves backward along the events in chronological order
+    for j in np.argsort(dtime, kind='mergesort')[::-1]:
+        # Events already allocated as an aftershock - skip
+        if not vsel_aftershocks[j]:
             ddt = dtime[j] - initval
             # Is event before previous event and within time window?
             vsel[j] = np.logical_and(ddt <= 0.0,
@@ -297,7 +296,6 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
             if vsel[j]:
             # Yes, reset time window to new event
                 initval = dtime[j]
-        j += 1
 
     return vsel
 
-- 
2.43.0


From 38752b2ac7ec9cf47d2ea3d0104461faa44f98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 09/32] fix: an empty optional field stops the catalogue reader

The checks compared the empty string, which stands for a missing value, with
numbers: the comparison is a TypeError on Python 3.
---
 mtoolkit/eqcatalog.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 723bf19..7ee32ef 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -212,7 +212,8 @@ class EqEntryReader(object):
 
         if field in self.compulsory_fields:
             return eq_entry[field] > 0
-        if eq_entry[field] < 0:
+        if eq_entry[field] != EqEntryReader.EMPTY_STRING and \
+            eq_entry[field] < 0:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -260,7 +261,8 @@ class EqEntryReader(object):
         of the value in the eq_entry.
         """
 
-        if not 0 <= eq_entry[field] <= 59:
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 59:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -287,7 +289,8 @@ class EqEntryReader(object):
         (i.e. ErrorStrike, SemiMinor90, SemiMajor90).
         """
 
-        if not 0 <= eq_entry[field] <= 360 or \
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 360 or \
             eq_entry['SemiMinor90'] == EqEntryReader.EMPTY_STRING or \
             eq_entry['SemiMajor90'] == EqEntryReader.EMPTY_STRING or \
             not (eq_entry['SemiMinor90'] <= eq_entry['SemiMajor90']):
-- 
2.43.0


From 508c6889e1878fcc9a802d051d0561220d26d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 10/32] fix: seconds between 59 and 60 are dropped from the
 catalogue

second is a decimal field: 59.5 is a valid time and was blanked.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 7ee32ef..c61de74 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -262,7 +262,7 @@ class EqEntryReader(object):
         """
 
         if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
-            not 0 <= eq_entry[field] <= 59:
+            not 0 <= eq_entry[field] < 60:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
-- 
2.43.0


From f725be35dbb1eb257e9f0dcf734f9357dfc87646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 11/32] fix: February accepts day zero and negative days

The day check had no lower bound for month 2.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index c61de74..6e8c43e 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -236,7 +236,7 @@ class EqEntryReader(object):
         Return a bool stating if check is passed.
         """
 
-        return (eq_entry['month'] == 2 and eq_entry[field] <= 29)\
+        return (eq_entry['month'] == 2 and 1 <= eq_entry[field] <= 29)\
             or (eq_entry['month'] != 2 and 1 <= eq_entry[field] <= 31)
 
     def check_hour(self, field, eq_entry):
-- 
2.43.0


From 712491e0f4048281048bcd501cdc20f264ddeaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 12/32] fix: a malformed compulsory decimal raises TypeError,
 not the documented error

The line number was missing from the EqEntryValidationError call.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 6e8c43e..0b508fc 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -189,7 +189,7 @@ class EqEntryReader(object):
                 except ValueError:
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-                            dict_fields_values[key])
+                            dict_fields_values[key], self.current_line)
                     else:
                         dict_fields_values[key] = EqEntryReader.EMPTY_STRING
 
-- 
2.43.0


From 2a0fde525dfd4248b934ab73e08187a27e86468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:30 +0000
Subject: [PATCH 13/32] fix: a truncated catalogue row raises TypeError

DictReader gives None for the missing cells: treat it as a value which can't
be converted.
---
 mtoolkit/eqcatalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 0b508fc..33644da 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -176,7 +176,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = int(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     # fields in self.to_int are all compulsory
                     raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
@@ -186,7 +186,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = float(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
-- 
2.43.0


From ed9f60606aa2ceeed72065544a52522df7c9fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 14/32] fix: catalogue writer refuses a file in the current
 directory

dirname() of a bare file name is the empty string, which never exists.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 33644da..5f27abc 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -340,7 +340,7 @@ class EqEntryWriter(object):
 
     def __init__(self, output_filename):
         output_dir = os.path.dirname(output_filename)
-        if not os.path.exists(output_dir):
+        if output_dir and not os.path.exists(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
 
-- 
2.43.0


From ff83eb2dc833012892d258bb18d5d9e103f62e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 15/32] fix: source model writer refuses a file in the current
 directory

dirname() of a bare file name is the empty string, which never exists.
---
 nrml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index d793fdc..23a3bb1 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -43,7 +43,7 @@ class AreaSourceWriter(object):
         """
 
         dirname = os.path.dirname(filename)
-        if not os.path.exists(dirname):
+        if dirname and not os.path.exists(dirname):
             raise IOError('Dir %s not found' %
                 (os.path.abspath(dirname), ))
         self.filename = filename
-- 
2.43.0


From 3fd163de0f52a5290e5344fff61caa492b0aaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:55 +0000
Subject: [PATCH 16/32] fix: source model writer opens the nrml file in text
 mode

lxml writes encoded bytes: on Python 3 no result file could be written.
---
 nrml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index 23a3bb1..14e5031 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -59,7 +59,7 @@ class AreaSourceWriter(object):
         root_elem = _write_body(root_elem, area_sources)
 
         tree = etree.ElementTree(root_elem)
-        tree.write(open(self.filename, 'w'),
+        tree.write(open(self.filename, 'wb'),
             xml_declaration=True, encoding='utf-8',
             pretty_print=True)
 
-- 
2.43.0


From 977eb449a0238e9411017f56b8576c3159ea7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 17/32] fix: Stepp ignores a departure from the Poisson rate at
 the first step

np.any() of the found positions is False when the only one is index 0, which
was then taken as no position found.
---
 mtoolkit/scientific/completeness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index afd3adf..977cc09 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -108,7 +108,7 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
         resid1 = grad1 - time_diff
         test1 = np.abs(resid1[1:] - resid1[:-1])
         tloct = np.nonzero(test1 > ttol)[0]
-        if not(np.any(tloct)):
+        if len(tloct) == 0:
             tloct = -1
         else:
             tloct = tloct[-1]
-- 
2.43.0


From c8cc082973f49d02253514c42057810097d0fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 18/32] fix: tectonic region rejects decimal weights which add
 up to one

[0.7, 0.2, 0.1] sums to 0.9999999999999999 in binary: compare within a
tolerance. Empty lists of weights raise the documented ValueError.
---
 mtoolkit/geo/tectonic_region.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index 1420c1f..ed1d417 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -25,6 +25,7 @@ DEFAULT_DLR = {'value': [1.25E-5], 'weight': [1.0]}
 VOL_STCON_SMOD = {'value': [29.0], 'weight': [1.0]}
 SUBD_SMOD = {'value': [49.0], 'weight': [1.0]}
 SUPPORTED_MSR = ('Peer', 'WC1994')
+WEIGHT_TOLERANCE = 1.0E-9
 
 
 class TectonicRegion(object):
@@ -144,17 +145,18 @@ class TectonicRegion(object):
             is not one.
         """
 
-        sum_weights_msr = reduce(lambda x, y: x + y, msr)
-        sum_weights_smod = reduce(lambda x, y: x + y, smod)
-        sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
+        sum_weights_msr = reduce(lambda x, y: x + y, msr, 0.0)
+        sum_weights_smod = reduce(lambda x, y: x + y, smod, 0.0)
+        sum_weights_dlr = reduce(lambda x, y: x + y, dlr, 0.0)
 
-        if sum_weights_msr != 1.0:
+        # decimal weights don't always add up to exactly 1.0
+        if not abs(sum_weights_msr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if sum_weights_smod != 1.0:
+        if not abs(sum_weights_smod - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if sum_weights_dlr != 1.0:
+        if not abs(sum_weights_dlr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From 846c0cfef186575a6920e6244497645a6c071209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:24 +0000
Subject: [PATCH 19/32] fix: a zone without events stops the whole workflow

The documentation (area_source.rst) says a zone with no earthquakes gets a
warning and keeps its values; the first processing job raised IndexError.
---
 mtoolkit/workflow.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mtoolkit/workflow.py b/mtoolkit/workflow.py
index b41451c..a0ff4a8 100644
--- a/mtoolkit/workflow.py
+++ b/mtoolkit/workflow.py
@@ -23,6 +23,7 @@ order. The order is determined by the queue of jobs.
 """
 
 import abc
+import logging
 
 import yaml
 
@@ -48,6 +49,8 @@ from mtoolkit.scientific.recurrence import recurrence_analysis
 
 from mtoolkit.scientific.maximum_magnitude import maximum_magnitude_analysis
 
+LOGGER = logging.getLogger('mt_logger')
+
 
 class PipeLine(object):
     """
@@ -252,6 +255,11 @@ class Workflow(object):
             for sm, filtered_eq in catalog_filter.filter_eqs(
                     context.sm_definitions, context.working_catalog):
 
+                if len(filtered_eq) == 0:
+                    LOGGER.warning("No events inside the zone %s: its values"
+                        " are not overwritten" % sm.name)
+                    continue
+
                 context.cur_sm = sm
                 context.current_filtered_eq = filtered_eq
                 self.processing_pipeline.run(context)
-- 
2.43.0


From 3df42c74a1b6149d8e294bf1727806d99e53d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 20/32] fix: distance between antipodal points may be not a
 number

---
 mtoolkit/scientific/catalogue_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index f9e1bfb..86d86bc 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -100,6 +100,8 @@ def haversine(lon1, lat1, lon2, lat2, radians=False, earth_rad=6371.227):
         dlon = lon1 - lon2[i]
         aval = (np.sin(dlat / 2.) ** 2.) + (np.cos(lat1) * np.cos(lat2[i]) *
              (np.sin(dlon / 2.) ** 2.))
+        # Rounding may exceed one slightly for antipodal points
+        aval = np.minimum(aval, 1.)
         distance[:, i] = (2. * earth_rad * np.arctan2(np.sqrt(aval),
                                                     np.sqrt(1 - aval))).T
         i += 1
-- 
2.43.0


From cd852dadcee0428bd1cfe60c1adf4bd84885e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 21/32] fix: Julian date a day late in some months around the
 turn of a century

---
 mtoolkit/scientific/catalogue_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index 86d86bc..9945c23 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -113,7 +113,7 @@ def greg2julian(year, month, day, hour, minute, second):
     timeut = hour + (minute / 60.0) + (second / 3600.0)
     jd = (367.0 * year) - np.floor(7.0 * (year +
              np.floor((month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 *
-             (np.floor((year + (month - 9.0) / 7.0) / 100.0) + 1.0) /
+             (np.floor((year + np.fix((month - 9.0) / 7.0)) / 100.0) + 1.0) /
              4.0) + np.floor((275.0 * month) / 9.0) + day +\
              1721028.5 + (timeut / 24.0)
     return jd
-- 
2.43.0


From 3b6ce5036f847ebc353b23259a55b5f5fefa7a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 22/32] fix: recurrence counts events on an interval edge in
 the wrong interval

---
 mtoolkit/scientific/recurrence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 609ecb4..36a29bf 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -113,7 +113,8 @@ def recurrence_table(mag, dmag, year):
     num_year = np.max(year) - np.min(year) + 1.
     upper_m = np.max(np.ceil(10.0 * mag) / 10.0)
     lower_m = np.min(np.floor(10.0 * mag) / 10.0)
-    mag_range = np.arange(lower_m, upper_m + (2 * dmag), dmag)
+    mag_range = np.around(
+        np.arange(lower_m, upper_m + (2 * dmag), dmag), decimals=6)
     mval = mag_range[:-1] + (dmag / 2.0)
     # Find number of earthquakes inside range
     number_obs = np.histogram(mag, mag_range)[0]
@@ -274,7 +275,8 @@ def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
     # Use 2d histogram to get overall density.
     time_int = np.arange(np.min(year), np.max(year) + 1.5 * d_t, d_t)
     fmag = np.around(fmag, decimals=1)
-    mag_int = np.arange(np.min(fmag), np.max(fmag) + 1.5 * d_m, d_m)
+    mag_int = np.around(
+        np.arange(np.min(fmag), np.max(fmag) + 1.5 * d_m, d_m), decimals=6)
     fullcount1 = np.histogram2d(year, fmag,
                                 bins=[time_int, mag_int])[0]
     # Now remove events below the completeness intervals
-- 
2.43.0


From 0f9c6730824c8e72b7f46d3c6aaeb65629e64d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 23/32] fix: Stepp's magnitude intervals suffer from rounding,
 and may be none

---
 mtoolkit/scientific/completeness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index 977cc09..4aa8f68 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -61,7 +61,8 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
     lowm = np.floor(10. * np.min(mw)) / 10.
     highm = np.ceil(10. * np.max(mw)) / 10.
     # Determine magnitude bins
-    mbin = np.arange(lowm, highm + dm, dm)
+    highm = max(highm, lowm + dm)
+    mbin = np.around(np.arange(lowm, highm + dm - 1E-6, dm), decimals=6)
     ntb = np.max(np.shape(mbin))
     # Determine time bins
     end_time = np.max(year)
-- 
2.43.0


From b5e8dd1f694b19ecabbb15cb0ff218995732ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 24/32] fix: MLE recurrence repeats or skips a period when its
 year is listed apart

---
 mtoolkit/scientific/recurrence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 36a29bf..5dae317 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -199,6 +199,10 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
     mag_eq_tolerance = 1E-5
     while ival < np.shape(ctime)[0]:
         id0 = np.abs(ctime - ctime[ival]) < mag_eq_tolerance
+        if np.any(id0[:ival]):
+            # The period of this year has been used already
+            ival += 1
+            continue
         m_c = np.min(cmag[id0])
         # Find events later than cut-off year, and with magnitude
         # greater than or equal to the corresponding completeness magnitude.
@@ -229,7 +233,7 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
             gr_pars = np.vstack([gr_pars, np.hstack([bval, sigma_b, rate,
                                                      sigrate])])
             neq = np.hstack([neq, np.sum(id1)])
-        ival = ival + np.sum(id0)
+        ival += 1
 
     # The nextapproach is to work out the average values of the G-R parameters
     # from these periods, weighted by the number of events in each period
-- 
2.43.0


From 2615af50ddb4f94147b39a36307ecda4f269fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:09 +0000
Subject: [PATCH 25/32] fix: Weichert never returns when all events are in an
 outermost interval

---
 mtoolkit/scientific/recurrence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 5dae317..e976fff 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -338,6 +338,12 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     :rtype: float
     """
 
+    # The likelihood has no maximum when all events are in an outermost
+    # interval: the iteration would never end
+    if np.sum(nobs) in (0, nobs[0], nobs[-1]):
+        raise ValueError('Weichert: events in more than the first '
+                         'or the last magnitude interval are needed')
+
     d_m = fmag[1] - fmag[0]
     itbreak = 0
     while (itbreak != 1):
-- 
2.43.0


From b1d9683c8364fdc76de0ae766606a70502698ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 26/32] fix: Weichert's iteration overshoots the maximum and
 never ends

---
 mtoolkit/scientific/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index e976fff..cc6327a 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -345,6 +345,8 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
                          'or the last magnitude interval are needed')
 
     d_m = fmag[1] - fmag[0]
+    # Longer steps may overshoot the maximum, ever further away
+    max_step = 1. / (np.max(fmag) - np.min(fmag))
     itbreak = 0
     while (itbreak != 1):
         snm = np.sum(nobs * fmag)
@@ -359,7 +361,7 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         d2ldb2 = nkount * ((dldb ** 2.0) - (stm2x / sumtex))
         dldb = (dldb * nkount) - snm
         betl = np.copy(beta)
-        beta = beta - (dldb / d2ldb2)
+        beta = beta - np.clip(dldb / d2ldb2, -max_step, max_step)
         sigbeta = np.sqrt(-1. / d2ldb2)
         bval = beta / np.log(10.0)
         sigb = sigbeta / np.log(10.)
-- 
2.43.0


From 011cd607d769c7e65bb015cbfdeda42c0f4c000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:13 +0000
Subject: [PATCH 27/32] fix: catalogue writer accepts a file as output
 directory

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 5f27abc..55dfb48 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -340,7 +340,7 @@ class EqEntryWriter(object):
 
     def __init__(self, output_filename):
         output_dir = os.path.dirname(output_filename)
-        if output_dir and not os.path.exists(output_dir):
+        if output_dir and not os.path.isdir(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
 
-- 
2.43.0


From 55aed5342ca5fcdb528272e26588cd73f8cc3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:13 +0000
Subject: [PATCH 28/32] fix: source model writer accepts a file as output
 directory

---
 nrml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index 14e5031..f82cb99 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -43,7 +43,7 @@ class AreaSourceWriter(object):
         """
 
         dirname = os.path.dirname(filename)
-        if dirname and not os.path.exists(dirname):
+        if dirname and not os.path.isdir(dirname):
             raise IOError('Dir %s not found' %
                 (os.path.abspath(dirname), ))
         self.filename = filename
-- 
2.43.0


From 66e883ec030908f3c1ae56266a36ae935d5fc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:11 +0000
Subject: [PATCH 29/32] fix: the number of fault rates depends on rounding of
 the magnitude range

---
 mtoolkit/scientific/fault_calculator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/fault_calculator.py b/mtoolkit/scientific/fault_calculator.py
index cf0cb1e..9ccb7c4 100644
--- a/mtoolkit/scientific/fault_calculator.py
+++ b/mtoolkit/scientific/fault_calculator.py
@@ -76,8 +76,10 @@ def get_mfd(slip, aseismic_coef, tectonic_region, sf_geo, b_value,
 
     dbar = moment_scaling[1] * np.log(10.0)
     bbar = b_value * np.log(10.0)
-    mag = np.arange(min_mag - (bin_width / 2.),
-            max_mag + (1.5 * bin_width), bin_width)
+    # the edges of the intervals, whatever the rounding of their ratio
+    num_bins = int(np.ceil(np.round(
+        (max_mag - min_mag) / float(bin_width), 6)))
+    mag = (min_mag - (bin_width / 2.)) + bin_width * np.arange(num_bins + 2)
 
     seismic_slip = slip * (1.0 - aseismic_coef)
     cumulative_values = [_cumulative_value(seismic_slip, max_mag, m,
-- 
2.43.0


From 31be185d3f47522b95abeee3f735fbf0e9e4f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 30/32] fix: the reader fails on an area source without the
 optional name

---
 nrml/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index 65db6e2..d4120b9 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -97,8 +97,10 @@ def _parse_area_source(as_elem):
     area_source.area_source_id = as_elem.get(
         nrml_xml.GML_ID)
 
-    area_source.name = as_elem.find(
-        nrml_xml.GML_NAME).text
+    # the name is optional
+    name_elem = as_elem.find(nrml_xml.GML_NAME)
+    if name_elem is not None:
+        area_source.name = name_elem.text
 
     area_source.tectonic_region = as_elem.find(
         nrml_xml.TECTONIC_REGION).text
-- 
2.43.0


From ae8faf9822437a5e3455f44f7c3a8ec43ad4ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 31/32] fix: the writer fails on sources without an optional
 name, type or reference system

---
 nrml/writer.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index f82cb99..6ba3fc6 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -117,9 +117,11 @@ def _area_source_elem(area_source):
     area_source_elem = etree.Element(nrml_xml.AREA_SOURCE)
     area_source_elem.attrib[nrml_xml.GML_ID] = area_source.area_source_id
 
-    name_elem = etree.SubElement(
-        area_source_elem, nrml_xml.GML_NAME)
-    name_elem.text = area_source.name
+    # name, reference system and types are optional
+    if area_source.name is not None:
+        name_elem = etree.SubElement(
+            area_source_elem, nrml_xml.GML_NAME)
+        name_elem.text = area_source.name
 
     tectonic_region_elem = etree.SubElement(
         area_source_elem, nrml_xml.TECTONIC_REGION)
@@ -162,7 +164,8 @@ def _write_area_boundary(container_elem, area_boundary):
 
     linear_ring_elem = etree.SubElement(
         exterior_elem, nrml_xml.LINEAR_RING)
-    linear_ring_elem.attrib[nrml_xml.SRS_NAME] = area_boundary.srs_name
+    if area_boundary.srs_name is not None:
+        linear_ring_elem.attrib[nrml_xml.SRS_NAME] = area_boundary.srs_name
 
     pos_list_elem = etree.SubElement(
         linear_ring_elem, nrml_xml.POS_LIST)
@@ -219,8 +222,9 @@ def _write_truncated_guten_richter(container_elem,
 
     truncatd_gutenberg_rich_elem = etree.SubElement(
         container_elem, nrml_xml.TRUNCATED_GUTEN_RICHTER)
-    truncatd_gutenberg_rich_elem.attrib[nrml_xml.TYPE] = \
-        truncated_gutenberg_richter.type_tgr
+    if truncated_gutenberg_richter.type_tgr is not None:
+        truncatd_gutenberg_rich_elem.attrib[nrml_xml.TYPE] = \
+            truncated_gutenberg_richter.type_tgr
 
     a_value_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.A_VALUE_CUMULATIVE)
@@ -259,8 +263,9 @@ def _write_rupture_depth_distrib(container_elem,
 
     magnitude_elem = etree.SubElement(
         rupture_depth_distrib_elem, nrml_xml.MAGNITUDE)
-    magnitude_elem.attrib[nrml_xml.TYPE] = \
-        rupture_depth_dist.magnitude.type_mag
+    if rupture_depth_dist.magnitude.type_mag is not None:
+        magnitude_elem.attrib[nrml_xml.TYPE] = \
+            rupture_depth_dist.magnitude.type_mag
     magnitude_elem.text = ' '.join(
         (str(value) for value in
             rupture_depth_dist.magnitude.values))
-- 
2.43.0


From 4cf5fdee16d3d003d6866a1685e2bc154ef403be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:50 +0000
Subject: [PATCH 32/32] fix: length of a fault trace between antipodal points

---
 mtoolkit/geo/simple_fault.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/geo/simple_fault.py b/mtoolkit/geo/simple_fault.py
index 8890cfd..b40a09f 100644
--- a/mtoolkit/geo/simple_fault.py
+++ b/mtoolkit/geo/simple_fault.py
@@ -98,6 +98,9 @@ class SimpleFaultGeo(object):
             a = sin(dlat / 2.0) ** 2 + (
                 (cos(lat1) * cos(lat2)) * (sin(dlon / 2.0) ** 2))
 
+            # Rounding may exceed one slightly for antipodal points
+            a = min(a, 1.0)
+
             c = 2.0 * arctan2(sqrt(a), sqrt(1.0 - a))
 
             d = radius * c
-- 
2.43.0

