From 30080e64a43156509253c87371767a2990e76407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 01/59] fix: linking no longer fails on object identifiers with
 non-ASCII characters

The identifiers were converted to byte strings, which numpy refuses for
text outside ASCII, so a run with such an ObjID stopped with
UnicodeEncodeError in the linking filter.
---
 src/sorcha/modules/PPLinkingFilter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPLinkingFilter.py b/src/sorcha/modules/PPLinkingFilter.py
index d84f2d3..00c05cc 100755
--- a/src/sorcha/modules/PPLinkingFilter.py
+++ b/src/sorcha/modules/PPLinkingFilter.py
@@ -77,7 +77,7 @@ def PPLinkingFilter(
     nameLen = obsv["ssObjectId"].str.len().max()
     obsv = obsv.to_records(
         index=False,
-        column_dtypes=dict(ssObjectId=f"S{nameLen}", diaSourceId="u8", midPointTai="f8", ra="f8", decl="f8"),
+        column_dtypes=dict(ssObjectId=f"U{nameLen}", diaSourceId="u8", midPointTai="f8", ra="f8", decl="f8"),
     )
 
     # link
@@ -108,7 +108,6 @@ def PPLinkingFilter(
     obj_discovery = pd.DataFrame(
         {"ObjID": obj["ssObjectId"], "date_linked_MJD": obj["discoverySubmissionDate"]}
     )
-    obj_discovery["ObjID"] = obj_discovery["ObjID"].str.decode("utf-8")
     linked_object_observations = pd.merge(linked_object_observations, obj_discovery, on="ObjID")
     linked_object_observations = linked_object_observations.sort_values("fieldMJD_TAI").reset_index(drop=True)
 
-- 
2.43.0


From d63256430f76c3360b94f1424dc7c0abfde51997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 02/59] fix: DES discovery finds any valid triplet of
 successive nights

compute_triplet kept the pair of gaps it last accepted and replaced it only
when both gaps were smaller, so a valid triplet after e.g. gaps of 70 and
50 days (next gap 55) was never seen. Accept as soon as two successive
gaps are below the threshold.
---
 src/sorcha/modules/DESDiscoveryFilter.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sorcha/modules/DESDiscoveryFilter.py b/src/sorcha/modules/DESDiscoveryFilter.py
index a0e38d6..f14695b 100644
--- a/src/sorcha/modules/DESDiscoveryFilter.py
+++ b/src/sorcha/modules/DESDiscoveryFilter.py
@@ -140,8 +140,6 @@ def compute_triplet(times, thresh):
         returns true if triplet is formed
 
     """
-    first_pair = 999.0
-    second_pair = 999.0
     det = List()
 
     det.append(times[0])
@@ -154,14 +152,10 @@ def compute_triplet(times, thresh):
 
     n = len(det)
     for i in range(1, n - 1):
-        if det[i + 1] - det[i] < first_pair and det[i] - det[i - 1] < second_pair:
-            first_pair = det[i + 1] - det[i]
-            second_pair = det[i] - det[i - 1]
-
-    if first_pair < thresh and second_pair < thresh:
-        return True
-    else:
-        return False
+        if det[i + 1] - det[i] < thresh and det[i] - det[i - 1] < thresh:
+            return True
+
+    return False
 
 
 @numba.jit(
-- 
2.43.0


From 311950f7662f38f7c88d39031fbb27bcabb49beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 03/59] fix: return_only runs without detections return empty
 tables instead of failing

---
 src/sorcha/des.py    | 4 ++--
 src/sorcha/sorcha.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..c1ede87 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -400,8 +400,8 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..9415155 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -402,8 +402,8 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From 9bfce0825636d3f5834b419b5d8a2d6198224893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 04/59] fix: object identifiers made of digits are kept as text

---
 src/sorcha/readers/CSVReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..f14ecdc 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -201,6 +201,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
         else:
             res_df = pd.read_csv(
@@ -208,6 +209,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
 
         return res_df
@@ -223,6 +225,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype={"ObjID": str},
             )
         else:
             self.obj_id_table = pd.read_csv(
@@ -230,6 +233,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype={"ObjID": str},
             )
 
         self.obj_id_table = self._validate_object_id_column(self.obj_id_table)
@@ -264,12 +268,14 @@ class CSVDataReader(ObjectDataReader):
                     self.filename,
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
         except IndexError as current_exc:
             # Check if there is a more understandable error we can raise.
-- 
2.43.0


From 09ffd1f93223e7d02e5291375778252aaed18677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 05/59] fix: generated ephemerides keep object identifiers made
 of digits as text

---
 src/sorcha/ephemeris/simulation_driver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..c89dd94 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from collections import defaultdict
 from csv import writer
 from io import StringIO
 
@@ -157,7 +156,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
+    column_types = {"ObjID": str}
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
-- 
2.43.0


From d0bc9f38329c97904494eead70eaf1e7b4e36220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 06/59] fix: HDF5 look-ups select rows by location and allow
 objects without rows

---
 src/sorcha/readers/HDF5Reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..a762aad 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
@@ -94,9 +95,10 @@ class HDF5DataReader(ObjectDataReader):
         """
         self._build_id_map()
         row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
-        return res_df
+        if not row_match.any():
+            return pd.read_hdf(self.filename, stop=0)
+        # select by row location: index labels repeat in files written chunk by chunk
+        return pd.read_hdf(self.filename, where=np.flatnonzero(row_match))
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
         """Perform any input-specific processing and validation on the input table.
-- 
2.43.0


From 460d27e254337541861977b51e817febfd593415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 07/59] fix: orbit files mixing formats are refused whatever
 the chunk size

---
 src/sorcha/readers/OrbitAuxReader.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 05a1b43..81f048a 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -1,6 +1,7 @@
 import logging
 import sys
 import numpy as np
+import pandas as pd
 
 from sorcha.readers.CSVReader import CSVDataReader
 
@@ -40,6 +41,25 @@ class OrbitAuxReader(CSVDataReader):
         """
         return f"OrbitAuxReader:{self.filename}"
 
+    def _build_id_map(self):
+        """Builds a table of just the object IDs. As this looks at the whole file it also checks that
+        the orbit format is the same throughout, which cannot be seen from a single block of rows.
+        """
+        if self.obj_id_table is not None:
+            return
+        super()._build_id_map()
+
+        formats = pd.read_csv(
+            self.filename,
+            sep="\\s+" if self.sep == "whitespace" else ",",
+            usecols=lambda column: column == "FORMAT",
+            header=self.header_row,
+        )
+        if "FORMAT" in formats.columns and formats["FORMAT"].nunique() > 1:
+            pplogger = logging.getLogger(__name__)
+            pplogger.error("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
+            sys.exit("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
+
     def _process_and_validate_input_table(self, input_table, **kwargs):
         """Perform any input-specific processing and validation on the input table.
         Modifies the input dataframe in place.
-- 
2.43.0


From d98ff22944fe95245a2d803406eb71924807576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 08/59] fix: HDF5 output without an ObjID column

---
 src/sorcha/modules/PPOutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..fe9ce7e 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -61,7 +61,8 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
 
     # pytables doesn't like the Pandas extension dtype StringDtype
     # converting the ObjID to 'str' type fixes this
-    pp_results = pp_results.astype({"ObjID": str})
+    if "ObjID" in pp_results.columns:
+        pp_results = pp_results.astype({"ObjID": str})
 
     # this suppresses a warning when ObjIDs begin with a number
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
-- 
2.43.0


From 7cab353473b3893df8ad3ed02bf795ea505c66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 09/59] fix: HDF5 output when a later chunk has longer text or
 other number types

---
 src/sorcha/modules/PPOutput.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index fe9ce7e..2107437 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -68,9 +68,16 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
     warnings.filterwarnings("ignore", category=NaturalNameWarning)
 
-    store = pd.HDFStore(outf)
-    store.append(keyname, pp_results, format="t", data_columns=True)
-    store.close()
+    with pd.HDFStore(outf) as store:
+        try:
+            store.append(keyname, pp_results, format="t", data_columns=True)
+        except ValueError:
+            # the widths of text columns and the types of number columns were fixed by the first chunk: when
+            # a later chunk does not fit them, the table is rebuilt to hold both
+            if keyname not in store:
+                raise
+            pp_results = pd.concat([store[keyname], pp_results])
+            store.append(keyname, pp_results, format="t", data_columns=True, append=False)
 
     return
 
-- 
2.43.0


From 45536f8014cced10a1de02ddac06aefbb71de33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 10/59] fix: rounding of the output to zero decimals

---
 src/sorcha/modules/PPOutput.py        | 4 ++--
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 2107437..01c7a6c 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -213,7 +213,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -230,7 +230,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..e82c0ce 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1727,7 +1727,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         "Output files will be saved in path: " + cmd_args.outpath + " with filestem " + cmd_args.outfilestem
     )
     pplogger.info("Output files will be saved as format: " + sconfigs.output.output_format)
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         pplogger.info(
             "In the output, positions will be rounded to "
             + str(sconfigs.output.position_decimals)
@@ -1735,7 +1735,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         )
     else:
         pplogger.info("In the output, positions will not be rounded")
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         pplogger.info(
             "In the output, magnitudes will be rounded to "
             + str(sconfigs.output.magnitude_decimals)
-- 
2.43.0


From b004205908efb15bdcad975aaebba6617be62d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 11/59] fix: indexing of SQLite output without all of the
 indexed columns

---
 src/sorcha/modules/PPOutput.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 01c7a6c..06756a5 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -134,9 +134,10 @@ def PPIndexSQLDatabase(outf, tablename="sorcha_results"):
     cnx = sqlite3.connect(outf)
 
     cur = cnx.cursor()
-    cur.execute("CREATE INDEX ObjID ON {} (ObjID)".format(tablename))
-    cur.execute("CREATE INDEX fieldMJD_TAI ON {} (fieldMJD_TAI)".format(tablename))
-    cur.execute("CREATE INDEX optFilter ON {} (optFilter)".format(tablename))
+    columns = [row[1] for row in cur.execute("PRAGMA table_info({})".format(tablename))]
+    for column in ["ObjID", "fieldMJD_TAI", "optFilter"]:
+        if column in columns:  # depending on the output columns selected, some of these may not exist.
+            cur.execute("CREATE INDEX {} ON {} ({})".format(column, tablename, column))
     cnx.commit()
 
 
-- 
2.43.0


From c373b1df9bfe5d33f5ac3c20a9f0865c2fd12384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 12/59] fix: basic output columns for surveys without
 measurement uncertainties

---
 src/sorcha/modules/PPOutput.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 06756a5..0b33aa7 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -177,7 +177,8 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
     )
 
     if sconfigs.output.output_columns == "basic":
-        observations = observations_in.copy()[
+        # depending on the survey, the uncertainties may not exist.
+        observations = observations_in.copy().filter(
             [
                 "ObjID",
                 "fieldMJD_TAI",
@@ -195,7 +196,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "RangeRate_LTC_km_s",
                 "Obj_Sun_LTC_km",
             ]
-        ]
+        )
 
         # if linking is on and unlinked objects are NOT dropped, add the object_linked column to the output
         if sconfigs.linkingfilter.ssp_linking_on and not sconfigs.linkingfilter.drop_unlinked:
-- 
2.43.0


From 83d0f4e8459e0d4d909e83535a85860fbdba038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 13/59] fix: filter-specific phase parameters when no candidate
 of a chunk is in a requested filter

---
 src/sorcha/modules/PPApplyColourOffsets.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/modules/PPApplyColourOffsets.py b/src/sorcha/modules/PPApplyColourOffsets.py
index 2d87a94..1ad61c6 100644
--- a/src/sorcha/modules/PPApplyColourOffsets.py
+++ b/src/sorcha/modules/PPApplyColourOffsets.py
@@ -82,8 +82,12 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "G1", "G2"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["G1"] = observations.apply(lambda row: row["G1" + row["optFilter"]], axis=1)
-            observations["G2"] = observations.apply(lambda row: row["G2" + row["optFilter"]], axis=1)
+            observations["G1"] = observations.apply(
+                lambda row: row["G1" + row["optFilter"]], axis=1, result_type="reduce"
+            )
+            observations["G2"] = observations.apply(
+                lambda row: row["G2" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -100,7 +104,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "GS"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["GS"] = observations.apply(lambda row: row["GS" + row["optFilter"]], axis=1)
+            observations["GS"] = observations.apply(
+                lambda row: row["GS" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -117,7 +123,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "G12"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["G12"] = observations.apply(lambda row: row["G12" + row["optFilter"]], axis=1)
+            observations["G12"] = observations.apply(
+                lambda row: row["G12" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -134,7 +142,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "S"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["S"] = observations.apply(lambda row: row["S" + row["optFilter"]], axis=1)
+            observations["S"] = observations.apply(
+                lambda row: row["S" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
-- 
2.43.0


From 1588ea208c3065d6616fabf6deb45de204b28e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 14/59] fix: -f deletes every existing output of the requested
 name, not just one

With outputs of several formats from earlier runs under the same name, only an
arbitrary one of them was deleted and the new run was appended to the other.
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..d31d580 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -26,7 +26,8 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
 
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
+        for existing_file in file_exists:
+            os.remove(existing_file)
     elif file_exists and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
-- 
2.43.0


From 651e3749ff013a35ad1be8b67608213f648fdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 15/59] fix: existing outputs are found when their path
 contains glob characters

With brackets, asterisks or question marks in the output directory or stem the
check for existing outputs matched nothing (the new run was then appended to the
old file) or, with -f, matched and deleted other files.
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index d31d580..300aa33 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -86,7 +86,7 @@ def sorchaCommandLineParser(args):
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"] + ".*"),
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"])) + ".*",
             args.f,
             pplogger,
         )
@@ -98,7 +98,7 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv")), args.f, pplogger
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -106,7 +106,7 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger
+        glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"])) + ".*", args.f, pplogger
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From da0fd665cce1bed5ac035657959c5d411a8fec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 16/59] fix: -f never deletes an input file of the run

A configuration or other input file named like the output stem (demo.ini with
-t demo) and located in the output directory was taken for an earlier output.
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 300aa33..c85817f 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -5,13 +5,14 @@ import glob
 from sorcha.utilities.fileAccessUtils import FindFileOrExit, FindDirectoryOrExit
 
 
-def warn_or_remove_file(filepath, force_remove, pplogger):
+def warn_or_remove_file(filepath, force_remove, pplogger, inputs=()):
     """Given a path to a file(s), first determine if the file exists. If it does not
     exist, pass through.
 
     If the file does exist check if the user has set `--force` on the command line.
     If the user set --force, log that the existing file will be removed.
     Otherwise, warn the user that the file exists and exit the program.
+    A file that the run takes its input from is never removed.
 
     Parameters
     ----------
@@ -21,9 +22,16 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
         Whether to remove the file if it exists.
     pplogger : Logger
         Used to log the output.
+    inputs : list of strings
+        The input files of the run.
     """
     file_exists = glob.glob(filepath)
 
+    for existing_file in file_exists:
+        if any(fn and os.path.exists(fn) and os.path.samefile(fn, existing_file) for fn in inputs):
+            pplogger.error(f"ERROR: output location {filepath} matches the input file {existing_file}.")
+            sys.exit(f"ERROR: output location {filepath} matches the input file {existing_file}.")
+
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
         for existing_file in file_exists:
@@ -83,12 +91,15 @@ def sorchaCommandLineParser(args):
     else:
         cmd_args_dict["visits_database"] = args.vd
 
+    inputs = [args.p, args.ob, args.c, args.pd, args.cp, args.er, args.vd]
+
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
             glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"])) + ".*",
             args.f,
             pplogger,
+            inputs,
         )
 
     cmd_args_dict["surveyname"] = args.s
@@ -98,7 +109,7 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv")), args.f, pplogger
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv")), args.f, pplogger, inputs
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -106,7 +117,7 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"])) + ".*", args.f, pplogger
+        glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"])) + ".*", args.f, pplogger, inputs
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From b2521f632ac51ed986eeb8ef67855a533e302e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 17/59] fix: copying configuration or demo files refuses before
 copying anything

The existence of each file was checked only after the files before it had been
copied.
---
 src/sorcha/utilities/sorcha_copy_configs.py    | 1 +
 src/sorcha/utilities/sorcha_copy_demo_files.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sorcha/utilities/sorcha_copy_configs.py b/src/sorcha/utilities/sorcha_copy_configs.py
index 1a2f1ed..ced88d4 100644
--- a/src/sorcha/utilities/sorcha_copy_configs.py
+++ b/src/sorcha/utilities/sorcha_copy_configs.py
@@ -57,6 +57,7 @@ def copy_demo_configs(copy_location, which_configs, force_overwrite):
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
 
+    for fn in config_locations:
         config_path = config_data_root.joinpath(fn)
         shutil.copy(config_path, copy_location)
 
diff --git a/src/sorcha/utilities/sorcha_copy_demo_files.py b/src/sorcha/utilities/sorcha_copy_demo_files.py
index 3504711..758844b 100644
--- a/src/sorcha/utilities/sorcha_copy_demo_files.py
+++ b/src/sorcha/utilities/sorcha_copy_demo_files.py
@@ -44,6 +44,7 @@ def copy_demo_files(copy_location, force_overwrite):
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
 
+    for fn in demo_files:
         demo_path = demo_data_root.joinpath(fn)
         shutil.copy(demo_path, copy_location)
 
-- 
2.43.0


From 7522082032e2a1ddde1d592925e76708f1debfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 18/59] fix: sorcha outputs check-logs looks for the file it
 will write

The existence of the output was checked before .csv was added to its name, so an
existing report was overwritten without --force.
---
 src/sorcha_cmdline/outputs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..366c670 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -46,6 +46,9 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         args.outpath = os.path.abspath(args.outpath)
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
+
         if os.path.exists(args.outpath) and not args.force:
             print(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
@@ -56,9 +59,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From bdf53487d32ec421d8548c57f551981bddb72871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 19/59] fix: sorcha outputs check-logs reports empty logs as
 unsuccessful

A run killed before its first log line made the command fail with an IndexError.
---
 src/sorcha/utilities/check_output_logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..39b4339 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -53,7 +53,7 @@ def check_all_logs(log_files):
     for log_file in log_files:
         with open(log_file, "r") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            last_line = lines[-1] if lines else ""
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From b1e9a94bcde7f33a9338279babe80cacff161994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 20/59] fix: sorcha outputs create-sqlite leaves its own output
 out of the results

The folder of the inputs, not the database being written, was left out of the list
of result databases, so that a combined database below the results folder was read
into itself (or, when new, ended the command).
---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..0c7f768 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -146,7 +146,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
-- 
2.43.0


From b6fbfdbd53dbf518913af5285e0dfda0d1235565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 21/59] fix: combined results keep each value in its column

Rows of result databases listing the same columns in another order were inserted
by position.
---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 0c7f768..49cf2a7 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -70,7 +70,7 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         con = sqlite3.connect(filename)
         cur = con.cursor()
 
-        cur.execute("SELECT * FROM sorcha_results")
+        cur.execute("SELECT " + column_string + " FROM sorcha_results")
         output = cur.fetchall()
 
         for row in output:
-- 
2.43.0


From bbc9fa8f7ec72ad19aec06a4c0419e7cf70e2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 22/59] fix: combined database keeps object identifiers made of
 digits as text

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 49cf2a7..9566146 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -113,7 +113,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
     cur_out.execute("DROP TABLE if exists " + table_type)
 
     for filename in input_list:
-        df = pd.read_csv(filename, sep="\\s+")
+        df = pd.read_csv(filename, sep="\\s+", dtype={"ObjID": str})
 
         if "INDEX" in df.columns:
             df = df.rename(columns={"INDEX": "orig_index"})
-- 
2.43.0


From eb496bc0c00b46bba2318700e1fe1784f95b8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 23/59] fix: combining results with differing columns is
 refused

Selecting the columns of the first database by name would silently drop further
columns of another.
---
 src/sorcha/utilities/createResultsSQLDatabase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 9566146..ee62c70 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -67,6 +67,9 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
     sql_command = "INSERT into " + table_name + " VALUES " + questions
 
     for filename in output_list:
+        if sorted(get_column_names(filename)) != sorted(column_names):
+            sys.exit("Columns of {} differ from those of {}.".format(filename, output_list[0]))
+
         con = sqlite3.connect(filename)
         cur = con.cursor()
 
-- 
2.43.0


From 55b0a7771de841de52ede9bd9d9418d084f69173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 24/59] fix: combining results below paths with glob characters

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index ee62c70..501bdb6 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -42,7 +42,7 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
+    output_list = glob.glob(os.path.join(glob.escape(output_path), "**", output_stem + "*.db"), recursive=True)
 
     if filename in output_list:
         output_list.remove(filename)
@@ -107,7 +107,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(input_path + "/" + table_type + "*", recursive=True)
+    input_list = glob.glob(glob.escape(input_path) + "/" + table_type + "*", recursive=True)
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
-- 
2.43.0


From 8e9ccb4037a013674ca58206adb3ad178fba24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 25/59] fix: phase parameters given by filter when only one
 filter is observed

---
 src/sorcha/modules/PPCalculateApparentMagnitude.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sorcha/modules/PPCalculateApparentMagnitude.py b/src/sorcha/modules/PPCalculateApparentMagnitude.py
index 2353200..4edc93d 100644
--- a/src/sorcha/modules/PPCalculateApparentMagnitude.py
+++ b/src/sorcha/modules/PPCalculateApparentMagnitude.py
@@ -81,6 +81,10 @@ def PPCalculateApparentMagnitude(
         )
     else:
         observations["H_filter"] = observations["H_" + mainfilter].copy()
+        # phase curve parameters may also be given by filter when there is only one
+        for name in {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"]}.get(phasefunction, []):
+            if name not in observations.columns and name + mainfilter in observations.columns:
+                observations = observations.rename(columns={name + mainfilter: name})
 
     # calculate main body apparent magnitude in observation filter
     verboselog("Calculating apparent magnitude in filter...")
-- 
2.43.0


From 9d32c2abb9694644c875f21e017d029803e5d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 26/59] fix: a fill factor or circle radius of zero is applied
 rather than ignored

---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..e15de35 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -71,10 +71,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From 493b47d8e63a876a75402a2769cbf967f4310591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 27/59] fix: footprint labels a source with the detector's
 identifier, not its position in the file

---
 src/sorcha/modules/PPFootprintFilter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index a61ba3d..d1ee5e8 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -671,7 +671,7 @@ class Footprint:
             Indices of rows in field_df which fall on the sensor(s).
 
         detectorID : array
-            Index corresponding to a detector in self.detectors for each entry in detected.
+            Identifier (as given in the detector file) of a detector for each entry in detected.
 
         """
 
@@ -696,12 +696,9 @@ class Footprint:
         # check whether they land on any of the detectors
         detected = []
         detectorId = []
-        i = 0
         for detector in self.detectors:
             stuff = detector.ison(points, edge_thresh=edge_thresh)
             detected.append(stuff)
-            # detectorId.append([detector.ID] * len(stuff))
-            detectorId.append([i] * len(stuff))
-            i += 1
+            detectorId.append([detector.ID] * len(stuff))
 
         return np.concatenate(detected), np.concatenate(detectorId)
-- 
2.43.0


From 54490e2f0b08d3bc82a6d360b44e452d7f767546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 28/59] fix: a source on overlapping detectors is kept only
 once

---
 src/sorcha/modules/PPFootprintFilter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index d1ee5e8..c90cf99 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -701,4 +701,10 @@ class Footprint:
             detected.append(stuff)
             detectorId.append([detector.ID] * len(stuff))
 
-        return np.concatenate(detected), np.concatenate(detectorId)
+        detected = np.concatenate(detected)
+        detectorId = np.concatenate(detectorId)
+
+        # detectors may touch or overlap: keep each source only once
+        first = np.sort(np.unique(detected, return_index=True)[1])
+
+        return detected[first], detectorId[first]
-- 
2.43.0


From 33f3a5dd75799b49d2c6c9f63af178fd64d41bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 29/59] fix: sources on the far side of the sky do not fall on
 the footprint

---
 src/sorcha/modules/PPFootprintFilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index c90cf99..55abe99 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -129,7 +129,9 @@ def radec_to_tangent_plane(ra, dec, field_ra, field_dec):
     focaly /= np.linalg.norm(focaly, axis=0)
 
     # extend observation vectors to plane tangent to field pointings
-    k = 1.0 / np.sum(field_vectors * observation_vectors, axis=0)
+    # (points on the far side of the sky have no image on that plane)
+    cos_sep = np.sum(field_vectors * observation_vectors, axis=0)
+    k = 1.0 / np.where(cos_sep > 0.0, cos_sep, np.nan)
     observation_vectors *= k
     observation_vectors -= field_vectors
 
-- 
2.43.0


From c17f8a424db502bcda11d8d6799f60eed768ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 30/59] fix: the built-in DES detector layout is in degrees

---
 src/sorcha/modules/PPFootprintFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index 55abe99..b81ff89 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -563,6 +563,8 @@ class Footprint:
                 stream = importlib_resources.files(__name__).joinpath(default_camera_config_file)
                 logger.info(f"Using built-in CCD Detector file: {default_camera_config_file}")
                 allcornersdf = pd.read_csv(stream)
+                if surveyname.lower() == "des":  # the corners of the DES detectors are in degrees
+                    allcornersdf[["x", "y"]] = deg2rad(allcornersdf[["x", "y"]])
             except IOError:
                 logger.error(f"Error loading default camera footprint, exiting ...")
                 sys.exit(1)
-- 
2.43.0


From 911a15873a70cf222ba306873f03dfb776b3dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 31/59] fix: per-visit footprints with external ephemerides and
 across right ascension zero

---
 src/sorcha/modules/PPApplyFOVFilter.py        |  1 -
 src/sorcha/modules/PPVisitsFootprintFilter.py | 64 ++++++++-----------
 2 files changed, 25 insertions(+), 40 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index e15de35..4c716dd 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -61,7 +61,6 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
             observations,
             sconfigs.fov.visits_query,
             visits,
-            ephermers_buffer=sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer,
         )
 
         observations = observations.iloc[onSensor].copy()
diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index b7bdd44..34e83b1 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -13,7 +13,6 @@ def PPVisitsFootprint(
     field_df,
     query,
     visits_filename,
-    ephermers_buffer=1.5,
     ra_name="RA_deg",
     dec_name="Dec_deg",
     fieldId="FieldID",
@@ -35,8 +34,6 @@ def PPVisitsFootprint(
         Path to SQLite database containing footprint data.
     ra_name, dec_name, fieldId : str
         Column names in field_df for RA, Dec, and field ID respectively.
-    ephermers_buffer : float
-        accounts for ar wraping RA points around 0-360, while yhe camera footprint doesnt to avoid the need to create complex shapes
     ccd_num : int
         number of ccds to check
     plot : boolen
@@ -65,27 +62,16 @@ def PPVisitsFootprint(
             if not rows:
                 continue  # if no ccds skip
 
-            points_query = np.array(
-                list(zip(points_df[ra_name], points_df[dec_name]))
-            )  # number list of ra and of objects
+            # right ascensions are used as offsets from the field centre, in the range [-180, 180), so that
+            # points and ccds on either side of 0-360 are in the same relative coordinates
+            field_ra = points_df["fieldRA_deg"].iloc[0]
 
-            # ephermides wraps points around 0-360. however the ccd ra and decs supplied dont wrap around this point for a given camera footprint to reduce the complexity of creating shapes.
-            # therefore to solve this priblem we use the radius from the ar simulations to decide if an object on-sky postion needs to be unwraped for a given camera footprint
+            def ra_offset(ra):
+                return (ra - field_ra + 180.0) % 360.0 - 180.0
 
-            # if the camera footprint is near the boundary i.e the radius of ephermers gen is wrapped round 360-0
-            if ephermers_buffer < 180:
-
-                if any(points_df["fieldRA_deg"] + ephermers_buffer > 360):
-                    points_query[
-                        points_query[:, 0] < 180, 0
-                    ] += 360  # use a mask to unwrap points so they are in the same relative coordinates as the footprint
-                if any(points_df["fieldRA_deg"] - ephermers_buffer < 0):
-                    points_query[points_query[:, 0] > 180, 0] -= 360
-            else:
-                logger.warning(
-                    "Ephemides buffer is too big to account for wrap around. Your footprint will be inaccurate"
-                )
-                # this might casue issues with objects of massive ephermides (greater than 180). Maybe warn the user of the super extreme case?
+            points_query = np.array(
+                list(zip(ra_offset(points_df[ra_name]), points_df[dec_name]))
+            )  # number list of ra and of objects
 
             # Kd tree using corners and centres of ccds
 
@@ -98,11 +84,11 @@ def PPVisitsFootprint(
             # create the numpy array
             for idx, row in enumerate(rows):
                 all_ccd_points[idx * 5 : (idx + 1) * 5] = [
-                    (row["ra_centre"], row["dec_centre"]),
-                    (row["llcra"], row["llcdec"]),
-                    (row["lrcra"], row["lrcdec"]),
-                    (row["urcra"], row["urcdec"]),
-                    (row["ulcra"], row["ulcdec"]),
+                    (ra_offset(row["ra_centre"]), row["dec_centre"]),
+                    (ra_offset(row["llcra"]), row["llcdec"]),
+                    (ra_offset(row["lrcra"]), row["lrcdec"]),
+                    (ra_offset(row["urcra"]), row["urcdec"]),
+                    (ra_offset(row["ulcra"]), row["ulcdec"]),
                 ]
             # Build KDTree with all points
             ccd_tree = cKDTree(all_ccd_points)
@@ -124,11 +110,11 @@ def PPVisitsFootprint(
                 row = rows[idx]
                 corners = np.array(
                     [
-                        (row["llcra"], row["llcdec"]),
-                        (row["lrcra"], row["lrcdec"]),
-                        (row["urcra"], row["urcdec"]),
-                        (row["ulcra"], row["ulcdec"]),
-                        (row["llcra"], row["llcdec"]),  # closing polygon
+                        (ra_offset(row["llcra"]), row["llcdec"]),
+                        (ra_offset(row["lrcra"]), row["lrcdec"]),
+                        (ra_offset(row["urcra"]), row["urcdec"]),
+                        (ra_offset(row["ulcra"]), row["ulcdec"]),
+                        (ra_offset(row["llcra"]), row["llcdec"]),  # closing polygon
                     ]
                 )
                 polygons.append(Polygon(corners))
@@ -147,7 +133,7 @@ def PPVisitsFootprint(
                         lim_mag_list[idx_in_df] = limmag[poly_idx]
                         break  # no need to check other polygons for this point if already on one
             if plot == True:
-                _plotting_camera_footprint(polygons, rows, unique_ccd_indices, points_query, obs_id)
+                _plotting_camera_footprint(polygons, rows, unique_ccd_indices, points_query, obs_id, ra_offset)
 
     detected_list = list(detected_indices)  # list of detected observations
     detector_id_list = [
@@ -157,7 +143,7 @@ def PPVisitsFootprint(
     return detected_list, detector_id_list, lim_mag
 
 
-def _plotting_camera_footprint(polygons, rows, unique_ccd_indices, points_query, obs_id):
+def _plotting_camera_footprint(polygons, rows, unique_ccd_indices, points_query, obs_id, ra_offset):
     """
     Plotting code for each camera footprint use only for debugging (handy for unit tests)
     """
@@ -177,11 +163,11 @@ def _plotting_camera_footprint(polygons, rows, unique_ccd_indices, points_query,
         if j not in unique_ccd_indices:
             corners = np.array(
                 [
-                    (row["llcra"], row["llcdec"]),
-                    (row["lrcra"], row["lrcdec"]),
-                    (row["urcra"], row["urcdec"]),
-                    (row["ulcra"], row["ulcdec"]),
-                    (row["llcra"], row["llcdec"]),  # closing polygon
+                    (ra_offset(row["llcra"]), row["llcdec"]),
+                    (ra_offset(row["lrcra"]), row["lrcdec"]),
+                    (ra_offset(row["urcra"]), row["urcdec"]),
+                    (ra_offset(row["ulcra"]), row["ulcdec"]),
+                    (ra_offset(row["llcra"]), row["llcdec"]),  # closing polygon
                 ]
             )
             polygons_plot.append(Polygon(corners))
-- 
2.43.0


From ef0e66b8608d42a286c8f48a135127ab19865941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 32/59] fix: per-visit footprints consider every ccd of the
 visit

---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index 34e83b1..789057f 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -16,7 +16,7 @@ def PPVisitsFootprint(
     ra_name="RA_deg",
     dec_name="Dec_deg",
     fieldId="FieldID",
-    ccd_num=3,
+    ccd_num=None,
     plot=False,
 ):
     """
@@ -35,7 +35,8 @@ def PPVisitsFootprint(
     ra_name, dec_name, fieldId : str
         Column names in field_df for RA, Dec, and field ID respectively.
     ccd_num : int
-        number of ccds to check
+        number of nearest ccd points used to choose the ccds to check. Default None checks every ccd of the visit
+        (the nearest points to a source can all belong to ccds which do not contain it).
     plot : boolen
         used to turning on plotting for debugging
     Returns
@@ -93,7 +94,9 @@ def PPVisitsFootprint(
             # Build KDTree with all points
             ccd_tree = cKDTree(all_ccd_points)
 
-            if len(rows) > 1:
+            if ccd_num is None:
+                unique_ccd_indices = set(range(n))
+            elif len(rows) > 1:
                 k = min(ccd_num, len(all_ccd_points))
                 _, closest_point_indices = ccd_tree.query(points_query, k=k)
 
-- 
2.43.0


From 7dbca6f886f6f995f4a7e9a28bd0b33e654ce877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 33/59] fix: the identity cometary activity model accepts what
 a run passes to an activity model

---
 src/sorcha/activity/base_activity.py     | 23 ++++++++++++++++++++++-
 src/sorcha/activity/identity_activity.py | 12 +++++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index 8db3bbf..bf533b1 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -23,7 +23,14 @@ class AbstractCometaryActivity(ABC):
         self.required_column_names = required_column_names
 
     @abstractmethod
-    def compute(self, df: pd.DataFrame) -> np.array:
+    def compute(
+        self,
+        df: pd.DataFrame,
+        observing_filters: List[str],
+        rho: List[float],
+        delta: List[float],
+        alpha: List[float],
+    ) -> pd.DataFrame:
         """User implemented calculation based on the input provided by the
         pandas dataframe ``df``.
 
@@ -31,6 +38,20 @@ class AbstractCometaryActivity(ABC):
         ----------
         df : Pandas dataframe
             The ``observations`` dataframe provided by ``Sorcha``.
+        observing_filters : List[str]
+            The photometric filters of the simulation
+        rho : List[float]
+            Heliocentric distance [units au]
+        delta : List[float]
+            Distance to Earth [units au]
+        alpha : List[float]
+            Phase angle [units degrees]
+
+        Returns
+        -------
+        pd.DataFrame
+            The ``observations`` dataframe with updated trailed source
+            apparent magnitude values.
         """
         raise NotImplementedError("Must be implemented by the subclass")
 
diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 70ed0de..9fddb0e 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -20,7 +20,9 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
     def __init__(self) -> None:
         super().__init__()
 
-    def compute(self, df: pd.DataFrame) -> pd.DataFrame:
+    def compute(
+        self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None
+    ) -> pd.DataFrame:
         """Returns numpy array of 0's with shape equal to the input dataframe
         time column.
 
@@ -28,6 +30,14 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
         ----------
         df : pd.DataFrame
             The ``observations`` dataframe provided by ``Sorcha``.
+        observing_filters : List[str], optional
+            The photometric filters of the simulation (not used)
+        rho : List[float], optional
+            Heliocentric distance [units au] (not used)
+        delta : List[float], optional
+            Distance to Earth [units au] (not used)
+        alpha : List[float], optional
+            Phase angle [units degrees] (not used)
 
         Returns
         -------
-- 
2.43.0


From b53863becc6f0e18553c90509ef3e33a991b5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 34/59] fix: sorcha run reports a missing complex physical
 parameters file instead of a KeyError

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..a14f3bd 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -176,11 +176,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From bfd3a64c66c465e8358a93e79e1c93d6b5a076b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 35/59] fix: the SIMULATION section may be left out when the
 ephemerides are external

---
 src/sorcha/utilities/sorchaConfigs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index e82c0ce..2b2c5e5 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1273,11 +1273,11 @@ class sorchaConfigs(basesorchaConfigs):
             ):
                 extra_args["survey_name"] = self.survey_name
 
-            if config_object.has_section(section):
-                if section == "SIMULATION":
-                    extra_args["_ephemerides_type"] = self.input.ephemerides_type
+            if section == "SIMULATION":
+                extra_args["_ephemerides_type"] = self.input.ephemerides_type
 
-                elif section == "SATURATION":
+            if config_object.has_section(section):
+                if section == "SATURATION":
                     extra_args["_observing_filters"] = self.filters.observing_filters
 
                 if section == "EXPERT":
-- 
2.43.0


From 667a073e3855ac3f56c80e3c10ddb25e739093b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 36/59] fix: unsupported DES and visits_footprint settings are
 refused instead of ending in a TypeError

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 2b2c5e5..1bb44d1 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -941,7 +941,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -953,7 +953,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From 573e109882f1dd31e046ca5444bee86e84a2962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 37/59] fix: unknown keys in the config file are refused with a
 message instead of ending in a TypeError

---
 src/sorcha/utilities/sorchaConfigs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 1bb44d1..2deffb3 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1284,6 +1284,11 @@ class sorchaConfigs(basesorchaConfigs):
                     extra_args["camera_model"] = self.fov.camera_model
 
                 section_dict = dict(config_object[section])
+                allowed_keys = [key for key in config_section.__dataclass_fields__ if key not in extra_args]
+                for key in section_dict:
+                    if key not in allowed_keys:
+                        logging.error(f"ERROR: unknown key {key} in section {section} of config file.")
+                        sys.exit(f"ERROR: unknown key {key} in section {section} of config file.")
                 config_instance = config_section(**section_dict, **extra_args)
 
             else:
-- 
2.43.0


From 6076b84feb40ac2e38ac70fafd4bb871220d4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 38/59] fix: a percent sign in a config value (SQL LIKE
 patterns) no longer ends in an InterpolationSyntaxError

---
 src/sorcha/utilities/sorchaConfigs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 2deffb3..a55cc4e 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1222,7 +1222,9 @@ class sorchaConfigs(basesorchaConfigs):
             with open(config_file_location, "r") as file:
                 logging.info(f"Copy of configuration file {config_file_location}:\n{file.read()}")
 
-            config_object = configparser.ConfigParser()  # create a ConfigParser object
+            config_object = configparser.ConfigParser(
+                interpolation=None
+            )  # create a ConfigParser object; values are taken as they are (e.g. a "%" in an SQL query)
             config_object.read(config_file_location)  # and read the whole config file into it
             self._read_configs_from_object(
                 config_object
-- 
2.43.0


From 71116771260966713a5cc9070b8c461cd7031f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 39/59] fix: a chunk size below one is refused instead of
 ending in an AttributeError or ValueError

---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index a55cc4e..d6d1679 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -56,6 +56,9 @@ class inputConfigs:
         check_value_in_list(self.eph_format, ["csv", "whitespace", "hdf5"], "eph_format")
         check_value_in_list(self.aux_format, ["comma", "whitespace", "csv"], "aux_format")
         self.size_serial_chunk = cast_as_int(self.size_serial_chunk, "size_serial_chunk")
+        if self.size_serial_chunk < 1:
+            logging.error("ERROR: size_serial_chunk is zero or negative.")
+            sys.exit("ERROR: size_serial_chunk is zero or negative.")
 
 
 @dataclass
-- 
2.43.0


From d778ea59b3e7099aea3ebbe06e3686fdc9bfc5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 40/59] fix: nan is refused as a config value: it passed every
 range check

---
 src/sorcha/utilities/sorchaConfigs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index d6d1679..520cec0 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -259,6 +259,9 @@ class saturationConfigs:
                 except ValueError:
                     logging.error("ERROR: could not parse brightness limits. Check formatting and try again.")
                     sys.exit("ERROR: could not parse brightness limits. Check formatting and try again.")
+                if np.isnan(self.bright_limit).any():
+                    logging.error("ERROR: could not parse brightness limits. Check formatting and try again.")
+                    sys.exit("ERROR: could not parse brightness limits. Check formatting and try again.")
             elif isinstance(self.bright_limit, float):
                 self.bright_limit = [self.bright_limit] * len(self._observing_filters)
             if isinstance(self.bright_limit, list):
@@ -1407,12 +1410,15 @@ def cast_as_float(value, key):
     """
 
     try:
-        float(value)
+        float_value = float(value)
     except ValueError:
+        float_value = np.nan
+
+    if np.isnan(float_value):
         logging.error(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
         sys.exit(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
 
-    return float(value)
+    return float_value
 
 
 def cast_as_bool(value, key):
-- 
2.43.0


From 52056181171fd2ae4b8c53ab63cee08e8ffbe3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 41/59] fix: the key of the transient efficiency in the DES
 example config file

---
 src/sorcha/data/survey_setups/DES_config_file.ini | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/data/survey_setups/DES_config_file.ini b/src/sorcha/data/survey_setups/DES_config_file.ini
index e321bc9..06e0b21 100644
--- a/src/sorcha/data/survey_setups/DES_config_file.ini
+++ b/src/sorcha/data/survey_setups/DES_config_file.ini
@@ -99,7 +99,7 @@ fading_function_on = True
 
 # overall transient efficiency for moving object detection. 0.95529 in Bernardinelli et al (2022).
 # if not specifed will default to 1 and be neglible 
-self.des_transient_efficency = 0.95529
+des_transient_efficency = 0.95529
 
 
 [LINKINGFILTER]
-- 
2.43.0


From a7dc54cc143be2a30a68e156c6d9ce0aa4c10e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 42/59] fix: snr_limit is refused for DES, which calculates no
 SNR: every such run ended in a KeyError

---
 src/sorcha/utilities/sorchaConfigs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 520cec0..3e666aa 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -953,6 +953,13 @@ class expertConfigs:
                 sys.exit(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
+            if self.snr_limit_on:
+                logging.error(
+                    "ERROR: DES simulation does not support an SNR limit. Use mag_limit or delete snr_limit from config file."
+                )
+                sys.exit(
+                    "ERROR: DES simulation does not support an SNR limit. Use mag_limit or delete snr_limit from config file."
+                )
         elif self.camera_model == "visits_footprint":
             logging.warning(
                 "WARNING: fov camera model 'visits_footprint' does not support vignetting. This is off by default"
-- 
2.43.0


From b4afca4ff5b8480e8669175935e51d567a07de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 43/59] fix: the documentation names keys and sections of the
 config file as they are read

---
 docs/advanced.rst       | 2 +-
 docs/postprocessing.rst | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/docs/advanced.rst b/docs/advanced.rst
index d3fdde7..6e51bf1 100644
--- a/docs/advanced.rst
+++ b/docs/advanced.rst
@@ -103,7 +103,7 @@ The SNR filter which will remove synthetic observations that are less than a use
 To implement the magnitude limit (remove detections of objects fainter than 22 mag in all survey observing bands), include the following in the :ref:`configs`::
     
     [EXPERT]
-    magnitude_limit = 22.0
+    mag_limit = 22.0
     
 .. attention::
     Only one of these filters may be implemented at once.
diff --git a/docs/postprocessing.rst b/docs/postprocessing.rst
index a527c66..bdbb0c7 100644
--- a/docs/postprocessing.rst
+++ b/docs/postprocessing.rst
@@ -459,7 +459,7 @@ to form a 'track'.
 To use this filter, the user must specify all seven of the parameters in the :ref:`configs`.
 The defaults given below are those used by SSP and are explained in the comments::
 
-    [LINKING]
+    [LINKINGFILTER]
 
     # Not all objects will be linked by SSP: this variable controls the
     # fraction successfully linked.
@@ -494,7 +494,7 @@ By default, when the linking filter is on unless otherwise specified  ``Sorcha``
 these observations, this can be set in the :ref:`configs`. This will add an additional column to the output, **object_linked**, which states whether
 the observation is of a linked object or not. To enable this functionality, add the following to the :ref:`configs`::
 
-    [LINKING]
+    [LINKINGFILTER]
     drop_unlinked = False
 
 .. note::
@@ -504,7 +504,7 @@ the observation is of a linked object or not. To enable this functionality, add
     See our `Jupyter notebook <notebooks/demo_miniDifiValidation.ipynb>`__  that validates the linking filter.
 
 .. tip::
-  The linking filter is only applied if the :ref:`configuration file<configs>` has a LINKING section.
+  The linking filter is only applied if the :ref:`configuration file<configs>` has a LINKINGFILTER section.
 
 
 .. _whatobs:
-- 
2.43.0


From bd197858ce6ec0326cdc2aeec188ba9fcfaca182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 44/59] fix: the pickets move earlier for a visit up to one
 interval before the central one

---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..790ea01 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -301,7 +301,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From 00ce2e32eaa050d34d4891b3336398a05eaff557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 45/59] fix: the pixel an object stays in is among those it is
 looked for in

---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 790ea01..29ad911 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -281,7 +281,7 @@ class PixelDict:
             pixels = list(set(pixels))
 
             # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            pixels = set(pixels).union(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From ef7bb83e5597264fb8673be5136ca1529ed47411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 46/59] fix: candidates are looked for in the buffer around the
 field of view, too

---
 src/sorcha/ephemeris/simulation_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index c89dd94..8db8600 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -188,7 +188,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         # compute a new set
 
         desigs = pixdict.get_designations(
-            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov
+            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov_buffer
         )
         unit_vectors = pixdict.interpolate_unit_vectors(desigs, pointing["fieldJD_TDB"])
         visit_vector = get_vec(pointing, "visit_vector")
-- 
2.43.0


From 09e95b26632ffa57725d62635d25a06b3b4447c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 47/59] fix: an object exactly at the field centre (or at
 opposition) is not lost to an arccos beyond one

---
 src/sorcha/ephemeris/simulation_driver.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 8db8600..80dda3f 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -202,7 +202,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
             v = sim_dict[k]
             sim, ex = v["sim"], v["ex"]
             uv /= np.linalg.norm(uv)
-            ang = np.arccos(np.dot(uv, visit_vector)) * 180 / np.pi
+            ang = np.arccos(np.clip(np.dot(uv, visit_vector), -1.0, 1.0)) * 180 / np.pi
             if ang < ang_fov_buffer:
                 (
                     ephem_geom_params.rho,
@@ -213,7 +213,9 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
                 ) = integrate_light_time(sim, ex, pointing["fieldJD_TDB"] - ephem.jd_ref, r_obs, lt0=0.01)
                 ephem_geom_params.rho_hat = ephem_geom_params.rho / ephem_geom_params.rho_mag
 
-                ang_from_center = 180 / np.pi * np.arccos(np.dot(ephem_geom_params.rho_hat, visit_vector))
+                ang_from_center = (
+                    180 / np.pi * np.arccos(np.clip(np.dot(ephem_geom_params.rho_hat, visit_vector), -1.0, 1.0))
+                )
                 if ang_from_center < ang_fov_buffer:
                     out_tuple = calculate_rates_and_geometry(pointing, ephem_geom_params)
                     in_memory_csv.writerow(out_tuple)
@@ -303,7 +305,9 @@ def calculate_rates_and_geometry(pointing: pd.DataFrame, ephem_geom_params: Ephe
     v_ast_sun = ephem_geom_params.v_ast - v_sun
     r_ast_obs = ephem_geom_params.r_ast - r_obs
     phase_angle = np.arccos(
-        np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
+        np.clip(
+            np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs)), -1.0, 1.0
+        )
     )
     obs_sun = r_obs - r_sun
     dobs_sundt = v_obs - v_sun
-- 
2.43.0


From c9340e9b216d0c177d945c859dcab6aaa18c2eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 48/59] fix: faint object culling no longer ends in a KeyError
 when a requested filter has no visits

---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..87bff47 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,8 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        # (an object cannot be detected in a filter in which there are no visits)
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From 89cef14fe85fa249ed426b4ccc5586569d2427a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 49/59] fix: faint object culling no longer ends in an
 AttributeError for models without maxBrightness

---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index 87bff47..eeb4648 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -44,6 +44,11 @@ def PPFaintObjectCullingFilter(
 
     """
 
+    # without knowing how much a model may brighten the objects, none of them is definitely unobservable
+    for choice, methods in ((lightcurve_choice, LC_METHODS), (activity_choice, CA_METHODS)):
+        if choice and not hasattr(methods.get(choice), "maxBrightness"):
+            return aux_df
+
     # gets a dictionary of the maximum limiting magnitude in each filter
     max_five_sigma = (
         filterpointing.groupby("optFilter", observed=True)["fieldFiveSigmaDepth_mag"].max().to_dict()
-- 
2.43.0


From 2acbcf562fbac7966fceb403d8b9ec2db15e8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 50/59] fix: generated ephemerides list a visit's objects in
 the same order in every process

---
 src/sorcha/ephemeris/pixel_dict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 29ad911..167988f 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -375,8 +375,9 @@ class PixelDict:
 
         pixels = get_hp_neighbors(ra, dec, ang_fov, nside=self.nside, nested=self.nested)
 
-        desigs = set()
+        # each once, in an order that (unlike that of a set of names) is the same in every process
+        desigs = {}
         for pix in pixels:
-            desigs.update(self.pixel_dict[pix])
+            desigs.update(dict.fromkeys(self.pixel_dict[pix]))
 
-        return desigs
+        return list(desigs)
-- 
2.43.0


From d5d210d469c2e362901356c2d9129dbc956315b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 51/59] fix: kernel list with paths of 79 characters, of more
 than 110 and with quotes

---
 src/sorcha/utilities/generate_meta_kernel.py | 24 +++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 4412d9b..5cff743 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -46,6 +46,24 @@ def _split_kernel_path_str(abspath: str, split=79):
     return abspath
 
 
+def _quote(text: str) -> str:
+    """Writes a path as a SPICE string value: at most 80 characters each and 132 in a line, so that longer
+    ones continue on the next line, with quotes doubled.
+
+    Parameters
+    ----------
+    text : string
+        The path.
+
+    Returns
+    -------
+    : string
+        The path in quotes.
+    """
+    pieces = [piece.replace("'", "''") for piece in _split_kernel_path_str(text).split("+' '") if piece]
+    return "'" + "+'\n    '".join(pieces) + "'"
+
+
 def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     """Builds a specific text file that will be fed into `spiceypy` that defines
     the list of spice kernel to load, as well as the order to load them.
@@ -62,17 +80,17 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     """
     # build meta_kernel file path
     meta_kernel_file_path = os.path.join(retriever.abspath, auxconfigs.meta_kernel)
-    abspath = _split_kernel_path_str(str(retriever.abspath))
+    abspath = _quote(str(retriever.abspath))
 
     # build a meta_kernel.txt file
     with open(meta_kernel_file_path, "w") as meta_file:
         meta_file.write("\\begindata\n\n")
-        meta_file.write(f"PATH_VALUES = ('{abspath}')\n\n")
+        meta_file.write(f"PATH_VALUES = ({abspath})\n\n")
         meta_file.write("PATH_SYMBOLS = ('A')\n\n")
         meta_file.write("KERNELS_TO_LOAD=(\n")
         for file_name in auxconfigs.ordered_kernel_files:
             shortened_file_name = _build_file_name(retriever.abspath, retriever.fetch(file_name))
-            meta_file.write(f"    '{shortened_file_name}',\n")
+            meta_file.write(f"    {_quote(shortened_file_name)},\n")
         meta_file.write(")\n\n")
         meta_file.write("\\begintext\n")
 
-- 
2.43.0


From 6d489e50d2f58f1d454645358264adb0a19d6fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 52/59] fix: an auxiliary file with a replaced name is not
 fetched from the default file's address

---
 src/sorcha/utilities/sorchaConfigs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 3e666aa..2cc9404 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1082,8 +1082,8 @@ class auxiliaryConfigs:
 
     def __post_init__(self):
         """Automagically validates the auxiliary configs after initialisation."""
-        self._create_lists_auxiliary_configs()
         self._validate_auxiliary_configs()
+        self._create_lists_auxiliary_configs()
 
     def _validate_auxiliary_configs(self):
         """
@@ -1128,6 +1128,8 @@ class auxiliaryConfigs:
             self.observatory_codes_compressed: self.observatory_codes_compressed_url,
             self.orientation_constants: self.orientation_constants_url,
         }
+        # files with a replaced name and no address of their own are not fetched from the default one
+        self.urls = {file: url for file, url in self.urls.items() if url is not None}
 
         self.data_file_list = [
             self.planet_ephemeris,
-- 
2.43.0


From b1f6d909096d748f4fa760d905312abbebeab88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 53/59] fix: sorcha bootstrap -f with files missing

---
 src/sorcha/utilities/retrieve_ephemeris_data_files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index 0f2377a..b4fdee0 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -46,9 +46,10 @@ def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cov
     """
 
     for file_name in auxconfigs.data_file_list:
-        file_path = retriever.fetch(file_name)
-        print(f"Deleting file: {file_path}")
-        os.remove(file_path)
+        file_path = os.path.join(retriever.abspath, file_name)
+        if os.path.exists(file_path):
+            print(f"Deleting file: {file_path}")
+            os.remove(file_path)
 
 
 def _check_for_existing_files(retriever: pooch.Pooch, file_list: list[str]) -> bool:  # pragma: no cover
-- 
2.43.0


From 160ec02743cb4c2c235dd2f3666fbc6cb3cdc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 54/59] fix: a failing download leaves no half-written kernel
 list behind

---
 src/sorcha/utilities/generate_meta_kernel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 5cff743..1888aad 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -82,14 +82,17 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     meta_kernel_file_path = os.path.join(retriever.abspath, auxconfigs.meta_kernel)
     abspath = _quote(str(retriever.abspath))
 
+    # all kernels first: a failing download must not leave half a list behind
+    file_paths = [retriever.fetch(file_name) for file_name in auxconfigs.ordered_kernel_files]
+
     # build a meta_kernel.txt file
     with open(meta_kernel_file_path, "w") as meta_file:
         meta_file.write("\\begindata\n\n")
         meta_file.write(f"PATH_VALUES = ({abspath})\n\n")
         meta_file.write("PATH_SYMBOLS = ('A')\n\n")
         meta_file.write("KERNELS_TO_LOAD=(\n")
-        for file_name in auxconfigs.ordered_kernel_files:
-            shortened_file_name = _build_file_name(retriever.abspath, retriever.fetch(file_name))
+        for file_path in file_paths:
+            shortened_file_name = _build_file_name(retriever.abspath, file_path)
             meta_file.write(f"    {_quote(shortened_file_name)},\n")
         meta_file.write(")\n\n")
         meta_file.write("\\begintext\n")
-- 
2.43.0


From 8025374f1b16b249ac7a8dd1e745967a9197e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 55/59] fix: observatories at longitude zero (Greenwich, the
 geocentre) have a position

---
 src/sorcha/ephemeris/simulation_parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..ac1a4bb 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -339,9 +339,9 @@ class Observatory:
         """
         returned_tuple = (None, None, None)
         if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
+            obs_location.get("Longitude") is not None
+            and obs_location.get("cos") is not None
+            and obs_location.get("sin") is not None
         ):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
-- 
2.43.0


From 6400283f1e5424c5aa6eef58de70fb21b952c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:34 +0000
Subject: [PATCH 56/59] fix: near-parabolic ellipses before their perihelion
 keep their digits

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..1cfb93e 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -248,7 +248,8 @@ def universal_cartesian(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
     if e < 1:
         a = q / (1 - e)
         per = 2 * np.pi / np.sqrt(mu / (a * a * a))
-        t = t % per
+        # to the nearest perihelion passage: a long period would swallow the digits of a time before it
+        t = t - per * np.round(t / per)
 
     # Establish constants for Kepler's equation,
     # starting at pericenter:
-- 
2.43.0


From 2d667884146080f63e2bf2bf71beddcadb7e86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 57/59] fix: rows whose ObjID is empty or reads as a missing
 value are refused

---
 src/sorcha/readers/ObjectDataReader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sorcha/readers/ObjectDataReader.py b/src/sorcha/readers/ObjectDataReader.py
index 19247fd..056658a 100755
--- a/src/sorcha/readers/ObjectDataReader.py
+++ b/src/sorcha/readers/ObjectDataReader.py
@@ -154,6 +154,13 @@ class ObjectDataReader(abc.ABC):
             pplogger.error(err_str)
             sys.exit(err_str)
 
+        # Rows without an identifier would be taken for one another.
+        if input_table["ObjID"].isnull().any():
+            pplogger = logging.getLogger(__name__)
+            err_str = f"ERROR: found rows without an ObjID, or with one that reads as a missing value, e.g. NA ({self.get_reader_info()})."
+            pplogger.error(err_str)
+            sys.exit(err_str)
+
         return input_table
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
-- 
2.43.0


From 1570cb75fbf4b6c95dda31acbc6e6ce2ca86ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 58/59] fix: results, statistics and ephemerides of one run are
 not written into one csv file

---
 src/sorcha_cmdline/run.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index a14f3bd..aa05a8b 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -204,6 +204,23 @@ def execute(args):
             "ERROR: cmd line arg --vd, --visits-db and config fov varible visits_query must both be specified"
         )
 
+    # Rows are appended to the csv outputs as the run proceeds: no two of them may be the same file.
+    csv_outputs = []
+    if sconfigs.output.output_format == "csv":
+        csv_outputs.append(cmd_args["outfilestem"])
+    if cmd_args["stats"] is not None:
+        csv_outputs.append(cmd_args["stats"])
+    if (
+        cmd_args["output_ephemeris_file"]
+        and sconfigs.input.ephemerides_type != "external"
+        and sconfigs.input.eph_format in ["csv", "whitespace"]
+    ):
+        csv_outputs.append(cmd_args["output_ephemeris_file"])
+    csv_outputs = [os.path.normpath(os.path.join(outpath, stem + ".csv")) for stem in csv_outputs]
+    if len(set(csv_outputs)) < len(csv_outputs):
+        pplogger.error("ERROR: two outputs of this run (-t, --st, --ew) would be written to the same csv file.")
+        sys.exit("ERROR: two outputs of this run (-t, --st, --ew) would be written to the same csv file.")
+
     if cmd_args["surveyname"] in ["rubin_sim", "RUBIN_SIM"]:
         try:
             args = sorchaArguments(cmd_args)
-- 
2.43.0


From a787183a3a9f58690341201c0f19791a70e64319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:41 +0000
Subject: [PATCH 59/59] fix: check-logs refusing to overwrite a report ends
 with an error status

---
 src/sorcha_cmdline/outputs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 366c670..199eb8d 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -38,6 +38,7 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
     from sorcha.utilities.check_output_logs import check_output_logs
     from sorcha.utilities.fileAccessUtils import FindDirectoryOrExit
     import os
+    import sys
 
     args.filepath = os.path.abspath(args.filepath)
     _ = FindDirectoryOrExit(args.filepath, "-f, --filepath")
@@ -50,12 +51,11 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
             args.outpath = args.outpath + ".csv"
 
         if os.path.exists(args.outpath) and not args.force:
-            print(
+            sys.exit(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
                     args.outpath
                 )
             )
-            return
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-- 
2.43.0

