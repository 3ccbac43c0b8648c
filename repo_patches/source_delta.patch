From fd79d9df60e25305f986694ac38dcb55a015a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:41 +0000
Subject: [PATCH 01/10] fix: dup_oi_vis copies IVISERR from the source IVISERR,
 not RVISERR

---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..30d9fe6 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1335,7 +1335,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From 788c1ab26c87b5cd0fa7a5df915020df78f79e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:35 +0000
Subject: [PATCH 02/10] fix: keep OI_TARGET CATEGORY column in use when
 filtering by TARGET_ID

---
 src/oifitslib/oifilter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..f6f0b48 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -624,6 +624,7 @@ void filter_oi_target(const oi_target *pInTargets,
   {
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
+    pOutTargets->usecategory = pInTargets->usecategory;
     pOutTargets->ntarget = 0;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
-- 
2.43.0


From 30909c77240c423eb670f0ee11d75c85d9dd7277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:18 +0000
Subject: [PATCH 03/10] fix: filter_oi_inspol overran output vectors when
 records keep different numbers of channels

---
 src/oifitslib/oifilter.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index f6f0b48..0e49c2f 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -870,7 +870,6 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
   nrec = 0; /* counter */
   pOutTab->record = chkmalloc(pInTab->numrec *
                               sizeof(oi_inspol_record)); /* will reallocate */
-  pOutTab->nwave = pInTab->nwave;                        /* upper limit */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -886,6 +885,19 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
     useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
     if (useWave == NULL) continue; /* skip record as INSNAME filtered out */
 
+    /* All records in the table must have the same number of channels */
+    k = 0;
+    for (j = 0; j < pInTab->nwave; j++)
+      if (useWave[j]) ++k;
+    if (nrec > 0 && k != pOutTab->nwave)
+    {
+      g_warning("OI_INSPOL record with INSNAME=%s removed from filter output: "
+                "number of accepted channels differs from previous records",
+                pInTab->record[i].insname);
+      continue;
+    }
+    pOutTab->nwave = k;
+
     /* Create output record */
     memcpy(&pOutTab->record[nrec], &pInTab->record[i],
            sizeof(oi_inspol_record));
@@ -899,7 +911,6 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
     pOutTab->record[nrec].jyx =
         chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jyx[0]));
     k = 0;
-    g_assert(useWave != NULL);
     for (j = 0; j < pInTab->nwave; j++)
     {
       if (useWave[j])
@@ -911,20 +922,6 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
         ++k;
       }
     }
-    if (nrec == 0 && k < pOutTab->nwave)
-    {
-      /* For 1st output record, length of vectors wasn't known when
-         originally allocated, so reallocate */
-      pOutTab->nwave = k;
-      pOutTab->record[nrec].jxx = realloc(
-          pOutTab->record[nrec].jxx, k * sizeof(pOutTab->record[0].jxx[0]));
-      pOutTab->record[nrec].jyy = realloc(
-          pOutTab->record[nrec].jyy, k * sizeof(pOutTab->record[0].jyy[0]));
-      pOutTab->record[nrec].jxy = realloc(
-          pOutTab->record[nrec].jxy, k * sizeof(pOutTab->record[0].jxy[0]));
-      pOutTab->record[nrec].jyx = realloc(
-          pOutTab->record[nrec].jyx, k * sizeof(pOutTab->record[0].jyx[0]));
-    }
     ++nrec;
   }
   pOutTab->numrec = nrec;
-- 
2.43.0


From e262bad003e21fd94d43b16acb165597c29ab287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:11 +0000
Subject: [PATCH 04/10] fix: keep OI_TARGET CATEGORY column in use when merging

---
 src/oifitslib/oimerge.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..5a8ef26 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -257,6 +257,10 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
+        if (pInTab->usecategory)
+          pOutTab->usecategory = TRUE;
+        else
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
       }
     }
     link = link->next;
-- 
2.43.0


From 675bb7adb126a31200397c3237d6152279fbab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:11 +0000
Subject: [PATCH 05/10] fix: merge_oi_target aborted if there were 100 or more
 targets

---
 src/oifitslib/oimerge.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 5a8ef26..adf18d0 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -229,16 +229,18 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->ntarget = 0;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
+  maxTarget = 0;
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
+  pOutTab->targ = chkmalloc(maxTarget * sizeof(target)); /* will reallocate */
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -252,7 +254,6 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
-- 
2.43.0


From 6509c13f389263d7c79362edd2a492180ecdc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:19 +0000
Subject: [PATCH 06/10] fix: merged table could be renamed to a name already in
 use

---
 src/oifitslib/oimerge.c | 52 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index adf18d0..01cb800 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -286,6 +286,7 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_array *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int n;
 
   arrnameHashList = NULL;
   g_assert(pOutput->arrayList == NULL);
@@ -311,12 +312,16 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         upgrade_oi_array(pOutTab);
         if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
+          n = pOutput->numArray;
+          do
+          {
+            ++n;
+            /* Avoid truncation at FLEN_VALUE - 1 */
+            if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname, n);
+            else
+              g_snprintf(newName, FLEN_VALUE, "array%03d", n);
+          } while (g_hash_table_lookup(pOutput->arrayHash, newName) != NULL);
           g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
@@ -347,6 +352,7 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_wavelength *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int n;
 
   insnameHashList = NULL;
   g_assert(pOutput->wavelengthList == NULL);
@@ -373,13 +379,16 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
             NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
+          n = pOutput->numWavelength;
+          do
+          {
+            ++n;
+            /* Avoid truncation at FLEN_VALUE - 1 */
+            if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname, n);
+            else
+              g_snprintf(newName, FLEN_VALUE, "ins%03d", n);
+          } while (g_hash_table_lookup(pOutput->wavelengthHash, newName) != NULL);
           g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
@@ -411,6 +420,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_corr *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int n;
 
   corrnameHashList = NULL;
   g_assert(pOutput->corrList == NULL);
@@ -433,12 +443,16 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
       pOutTab = dup_oi_corr(pInTab);
       if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
       {
-        /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
-        else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
+        n = pOutput->numCorr;
+        do
+        {
+          ++n;
+          /* Avoid truncation at FLEN_VALUE - 1 */
+          if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname, n);
+          else
+            g_snprintf(newName, FLEN_VALUE, "ins%03d", n);
+        } while (g_hash_table_lookup(pOutput->corrHash, newName) != NULL);
         g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
       }
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
-- 
2.43.0


From 50e0a99e7aeea86f5e1a3cb3ad0423de3c0a1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:19 +0000
Subject: [PATCH 07/10] fix: check_tables and check_elements_present aborted on
 two kinds of breach; OI_INSPOL location was #0

---
 src/oifitslib/oicheck.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..2d8177f 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -137,8 +137,7 @@ void print_check_result(oi_check_result *pResult)
       {                                                                        \
         g_snprintf(location, FLEN_VALUE, "%s #%d", tabName,                    \
                    g_list_position((tabList), link) + 1);                      \
-        set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN",           \
-                   location);                                                  \
+        set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);             \
       }                                                                        \
       link = link->next;                                                       \
     }                                                                          \
@@ -154,7 +153,7 @@ void print_check_result(oi_check_result *pResult)
  */
 oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
 {
-  const char desc1[] = "Mandatory table missing";
+  const char desc[] = "Mandatory table missing or invalid OI_REVN";
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
@@ -165,14 +164,14 @@ oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
       g_snprintf(location, FLEN_VALUE,
                  "No OI_ARRAY table - "
                  "at least one required");
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc1, location);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
     if (pOi->numWavelength == 0)
     {
       g_snprintf(location, FLEN_VALUE,
                  "No OI_WAVELENGTH table - "
                  "at least one required");
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc1, location);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
     if (pOi->numVis == 0 && pOi->numVis2 == 0 && pOi->numT3 == 0 &&
         pOi->numFlux == 0)
@@ -180,12 +179,12 @@ oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
       g_snprintf(location, FLEN_VALUE,
                  "No data table - "
                  "at least one OI_VIS/VIS2/T3/FLUX required");
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc1, location);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
 
     if (pOi->targets.revision != OI_REVN_V2_TARGET)
     {
-      set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN", "OI_TARGET");
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, "OI_TARGET");
     }
     CHECK_BAD_TAB_REVISION(pOi->arrayList, oi_array, "OI_ARRAY",
                            OI_REVN_V2_ARRAY);
@@ -207,19 +206,19 @@ oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
       g_snprintf(location, FLEN_VALUE,
                  "No OI_WAVELENGTH table - "
                  "at least one required");
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc1, location);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
     if (pOi->numVis == 0 && pOi->numVis2 == 0 && pOi->numT3 == 0)
     {
       g_snprintf(location, FLEN_VALUE,
                  "No data table - "
                  "at least one OI_VIS/VIS2/T3 required");
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc1, location);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
 
     if (pOi->targets.revision != OI_REVN_V1_TARGET)
     {
-      set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN", "OI_TARGET");
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, "OI_TARGET");
     }
     CHECK_BAD_TAB_REVISION(pOi->arrayList, oi_array, "OI_ARRAY",
                            OI_REVN_V1_ARRAY);
@@ -627,7 +626,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
@@ -715,7 +714,6 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
   oi_t3 *pT3;
   oi_flux *pFlux;
   const char desc[] = "Reference to missing array element";
-  const char desc2[] = "ARRNAME missing"; //:BUG:
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
@@ -740,9 +738,9 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     }
     else
     {
-      g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
+      g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d ARRNAME missing",
+                 g_list_position(pOi->inspolList, link) + 1);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
     link = link->next;
   }
-- 
2.43.0


From f32ddbdcfb7a64c907c0dfb178bdc1f5d3378d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:22 +0000
Subject: [PATCH 08/10] fix: read OI_INSPOL Jones matrix columns as complex
 values

---
 src/oifitslib/read_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ab3255f..d5e797c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -634,16 +634,16 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TDOUBLE, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].mjd_end, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
-- 
2.43.0


From a71ce7adb361a3495575a759237456a6e6f0768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 09/10] fix: read_oi_fits left tables referenced by no
 visibility or flux table out of the lookup tables

---
 src/oifitslib/oifile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 30d9fe6..16c327d 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -731,6 +731,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     fits_write_errmark();
     if (read_next_oi_array(fptr, pArray, pStatus)) break; /* no more OI_ARRAY */
     pOi->arrayList = g_list_append(pOi->arrayList, pArray);
+    if (!g_hash_table_lookup(pOi->arrayHash, pArray->arrname))
+      g_hash_table_insert(pOi->arrayHash, pArray->arrname, pArray);
     ++pOi->numArray;
   }
   free(pArray);
@@ -748,6 +750,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     if (read_next_oi_wavelength(fptr, pWave, pStatus))
       break; /* no more OI_WAVELENGTH */
     pOi->wavelengthList = g_list_append(pOi->wavelengthList, pWave);
+    if (!g_hash_table_lookup(pOi->wavelengthHash, pWave->insname))
+      g_hash_table_insert(pOi->wavelengthHash, pWave->insname, pWave);
     ++pOi->numWavelength;
   }
   free(pWave);
@@ -777,6 +781,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
       continue;
     }
     pOi->corrList = g_list_append(pOi->corrList, pCorr);
+    if (!g_hash_table_lookup(pOi->corrHash, pCorr->corrname))
+      g_hash_table_insert(pOi->corrHash, pCorr->corrname, pCorr);
     ++pOi->numCorr;
   }
 
-- 
2.43.0


From 1e10abb9997a0541141661eff78644331220a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:37 +0000
Subject: [PATCH 10/10] fix: filter_oi_t3 without wavelength table aborted on
 all-flagged records

any_t3_chan_ok() accepted every record when the OI_WAVELENGTH table was
unknown, even if no selected channel was unflagged, so that
filter_oi_t3_record() failed its assertion when all-flagged records were
to be removed. As for OI_VIS and OI_VIS2, only the UV radius criterion is
skipped in this case.
---
 src/oifitslib/oifilter.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 0e49c2f..ec9e68a 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -1426,8 +1426,6 @@ static bool any_t3_chan_ok(const oi_t3_record *pRec,
   double u1, v1, u2, v2, abRad, bcRad, acRad;
   float snrAmp, snrPhi;
 
-  if (pWave == NULL)
-    return TRUE; /* cannot filter by UV radius, so keep record */
   u1 = pRec->u1coord;
   v1 = pRec->v1coord;
   u2 = pRec->u2coord;
-- 
2.43.0

