From bbb52ee917fe61cfd595a67727e51719a63052cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 01/60] fix: refuse a linemeas catalogue with chained line
 measurement with the coherence error

---
 pylibamazed/python/pylibamazed/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index cae312d..896e6a2 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -213,7 +213,7 @@ class Parameters(ParametersAccessor):
             if method == "lineModelSolve":
                 if self.get_linemeas_method(spectrum_model):
                     raise APIException(
-                        ErrorCode.INCOHERENT_CONFIG_OPTION,
+                        ErrorCode.INCOHERENT_CONFIG_OPTIONS,
                         "Cannot run LineMeasSolve from catalog when sequencial processing is selected"
                         "simultaneously."
                     )
-- 
2.43.0


From 4e0bf224de62e22fde3e334d8c42fda8981e2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 02/60] fix: forget the log-rebinning redshift ranges of the
 previous spectrum

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 6d113e1..5c3d229 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -86,6 +86,7 @@ the client has the responsibility to add these info to each spectrum
 */
 void CInputContext::RebinInputs() {
 
+  m_logRebin.clear(); // results of the previous spectrum
   std::map<std::string, bool> fft_processing;
   m_use_LogLambaSpectrum =
       m_ParameterStore->hasToLogRebin(m_categories, fft_processing);
-- 
2.43.0


From ab367fe551b8c074bfaa1c0c88f2cf36504d4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 03/60] fix: compare both sides when checking the alignment of
 log-rebinned templates

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index 3eaa3ae..d4d8510 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -295,7 +295,7 @@ bool CSpectrumLogRebinning::checkTemplateAlignment(
   const TAxisSampleList &w = tpl->GetSpectralAxis().GetSamplesVector();
   const Float64 &lstart = lambdaRange_tpl.GetBegin();
   Int32 idx = CIndexing<Float64>::getCloserIndex(w, lstart);
-  return (lstart - w[idx]) / w[idx] <= 2E-7;
+  return std::abs(lstart - w[idx]) / w[idx] <= 2E-7;
 }
 
 TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
-- 
2.43.0


From 6ccd667259a6c2a106b3f2042fb81a79578167bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 04/60] fix: accept medianEvenReflection=false and do not take
 it for a missing parameter

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index bec4140..2ea4f5a 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -270,7 +270,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_width(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog),
+            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog) is not None,
             "continuumRemoval medianKernelWidth",
             "continuumRemoval medianKernelWidth"
         )
@@ -278,7 +278,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_reflection(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog),
+            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog) is not None,
             "continuumRemoval medianEvenReflection",
             "continuumRemoval medianEvenReflection"
         )
-- 
2.43.0


From b9d8e8a4a0e22d6b526601d63133f21eaab6d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 05/60] fix: continuumReestimation=no does not require a
 continuumRemoval section

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 2ea4f5a..ed732fe 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -251,7 +251,7 @@ class ParametersChecker:
             if template_fitting_spectrum_component not in [None, "raw"] \
                 or template_combination_spectrum_component not in [None, "raw"] \
                     or linemodel_continuum_component in ["fromSpectrum", "tplFitAuto"] \
-                    or linemodel_continuum_reestimation not in [None, "never"]:
+                    or linemodel_continuum_reestimation not in [None, "no"]:
                 continuum_removal_necessity = True
         return continuum_removal_necessity
 
-- 
2.43.0


From 2ff91dbd5f7aaf23b13844271a4b176f191ca6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 06/60] fix: require sourceSize for the
 gaussianNISPVSSPSF201707 lsf, and do not report it as unused

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index ed732fe..7ea1043 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -178,7 +178,7 @@ class ParametersChecker:
 
     def _check_GaussianNISPSIM_lsf_type(self):
         self._check_dependant_parameter_presence(
-            self.accessor.get_lsf_type() == "GaussianNISPSIM201707",
+            self.accessor.get_lsf_type() in ["GaussianNISPSIM201707", "gaussianNISPVSSPSF201707"],
             self.accessor.get_lsf_sourcesize() is not None,
             "lsf sourceSize",
             "lsf sourceSize"
-- 
2.43.0


From dfcc4a4fba923b2df1cacf3cbb848d6aa2e83613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 07/60] fix: name of the variable width lsf file in the version
 2 schema

---
 pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
index 795b5b7..e548425 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
@@ -36,7 +36,7 @@
       "title": "Source size",
       "description": "Must be specified if and only if LSFType=gaussianNISPVSSPSF201707"
     },
-    "gaussianVariablewidthFileName": {
+    "gaussianVariableWidthFileName": {
       "type": "string",
       "title": "Path to file where width array is saved",
       "description": "Must be specified if and only if LSFType=gaussianVariableWidth"
-- 
2.43.0


From baeefb259ef145fc9fe672bbebe88cf6ace6c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 08/60] fix: do not share the default continuum removal section
 between results

ParametersExtender put the same class level dictionary in the continuumRemoval
and templateCatalog sections of every normalised configuration: a change made
in one of them appeared in all of them and in later configurations.
---
 pylibamazed/python/pylibamazed/ParametersExtender.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersExtender.py b/pylibamazed/python/pylibamazed/ParametersExtender.py
index a9948eb..ff81f99 100644
--- a/pylibamazed/python/pylibamazed/ParametersExtender.py
+++ b/pylibamazed/python/pylibamazed/ParametersExtender.py
@@ -81,14 +81,15 @@ class ParametersExtender:
     def _extend_continuum_removal(self):
         is_present = self.checker.continuum_removal_presence_condition()
         if not is_present:
-            self.extended_accessor.parameters["continuumRemoval"] = self.default_continuum_removal_section
+            self.extended_accessor.parameters["continuumRemoval"] = \
+                copy.copy(self.default_continuum_removal_section)
 
     def _extend_template_catalog_continuum_removal(self):
         is_present = self.checker.template_catalog_continuum_removal_presence_condition()
         if not is_present:
             self.extended_accessor.get_template_catalog_section(True)
             self.extended_accessor.get_template_catalog_section()["continuumRemoval"] = \
-                self.default_continuum_removal_section
+                copy.copy(self.default_continuum_removal_section)
 
     def _extend_continuum_reestimation(self):
         for spectrum_model in self.initial_accessor.get_spectrum_models([]):
-- 
2.43.0


From b286f51b18218e148aaf564c20cb8b625644b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 09/60] fix: let spectrum filters use the mandatory column
 names the parameter check accepts

---
 pylibamazed/python/pylibamazed/Filter.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/Filter.py b/pylibamazed/python/pylibamazed/Filter.py
index 868da36..8f2ac1b 100644
--- a/pylibamazed/python/pylibamazed/Filter.py
+++ b/pylibamazed/python/pylibamazed/Filter.py
@@ -75,13 +75,17 @@ class FilterItem:
             and self.value == __value.value
 
     def compliant_lines(self, df: pd.DataFrame) -> pd.Series:
-        if self.key not in df:
+        column = self._column_name(df)
+        if column not in df:
             raise APIException(
                 ErrorCode.INVALID_FILTER_KEY,
                 f"Column {self.key} does not exist"
             )
         comparator = self._comparator_from_instruction()
-        return comparator(df[self.key])
+        return comparator(df[column])
+
+    def _column_name(self, df: pd.DataFrame) -> str:
+        return self.key
 
     def _comparator_from_instruction(self) -> Callable:
         str_to_action = {
@@ -151,7 +155,13 @@ class FilterItem:
 
 
 class SpectrumFilterItem(FilterItem):
-    pass
+    # names of the mandatory columns in the filters of the parameter file: name in the reader's dataframe
+    column_names = {"Wave": "waves", "Flux": "fluxes", "Err": "errors"}
+
+    def _column_name(self, df: pd.DataFrame) -> str:
+        if self.key in df:
+            return self.key
+        return self.column_names.get(self.key, self.key)
 
 
 class FilterList:
-- 
2.43.0


From 9e0524787a5df8b252d3f6a17d356441ca91d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 10/60] fix: know the peckreeder1972 air-vacuum conversion by
 its name in the parameters

---
 RedshiftLibrary/src/lib/line/airvacuum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/airvacuum.cpp b/RedshiftLibrary/src/lib/line/airvacuum.cpp
index 8bd8b4e..a48fbe9 100644
--- a/RedshiftLibrary/src/lib/line/airvacuum.cpp
+++ b/RedshiftLibrary/src/lib/line/airvacuum.cpp
@@ -51,7 +51,8 @@ CAirVacuumConverter::Get(const std::string &converterName) {
     return (std::make_shared<CAirVacEdlen1953>());
   else if (converterName == "edlen1966")
     return (std::make_shared<CAirVacEdlen1966>());
-  else if (converterName == "PeckReeder1972")
+  else if (converterName == "peckreeder1972" ||
+           converterName == "PeckReeder1972")
     return (std::make_shared<CAirVacPeckReeder1972>());
   else if (converterName == "ciddor1996")
     return (std::make_shared<CAirVacCiddor1996>());
-- 
2.43.0


From b89fb0ae873982994a2c7b21b5d907c601208d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 11/60] fix: validate and correct the sample at the upper end
 of the wavelength range

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 09197c3..02bc487 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -454,6 +454,8 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
                 << "CSpectrum::ValidateFlux - checking on the true observed "
                    "spectral axis lambdarange = ("
                 << m_SpectralAxis[iMin] << ", " << m_SpectralAxis[iMax] << ")");
+  if (m_SpectralAxis[iMax] <= LambdaMax)
+    ++iMax; // the sample at LambdaMax is also in the range
 
   const CSpectrumFluxAxis &flux = GetFluxAxis();
   std::map<string, int> invalidElements = {};
@@ -504,6 +506,8 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
                 << "CSpectrum::ValidateNoise - checking on the true observed "
                    "spectral axis lambdarange = ("
                 << m_SpectralAxis[iMin] << ", " << m_SpectralAxis[iMax] << ")");
+  if (m_SpectralAxis[iMax] <= LambdaMax)
+    ++iMax; // the sample at LambdaMax is also in the range
 
   std::map<string, int> invalidElements = {};
 
@@ -536,6 +540,8 @@ bool CSpectrum::correctSpectrum(Float64 LambdaMin, Float64 LambdaMax,
 
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  if (m_SpectralAxis[iMax] <= LambdaMax)
+    ++iMax; // the sample at LambdaMax is also in the range
 
   bool corrected =
       GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iMax, coeffCorr);
-- 
2.43.0


From 37ff84b14d903a8653b24e1081a95d555163931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 12/60] fix: wavelength grid flags no longer survive operations
 that change its samples

---
 .../RedshiftLibrary/spectrum/axis.h           |  5 ++++-
 .../RedshiftLibrary/spectrum/spectralaxis.h   |  7 +++++--
 .../src/lib/spectrum/spectralaxis.cpp         | 21 +++++++++++--------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/axis.h b/RedshiftLibrary/RedshiftLibrary/spectrum/axis.h
index 9f48d9f..971b19f 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/axis.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/axis.h
@@ -110,7 +110,10 @@ inline const TAxisSampleList &CSpectrumAxis::GetSamplesVector() const {
   return m_Samples;
 }
 
-inline TAxisSampleList &CSpectrumAxis::GetSamplesVector() { return m_Samples; }
+inline TAxisSampleList &CSpectrumAxis::GetSamplesVector() {
+  resetAxisProperties();
+  return m_Samples;
+}
 
 inline bool CSpectrumAxis::isEmpty() const { return m_Samples.size() == 0; }
 
diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h
index 66a793f..54aceef 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h
@@ -143,8 +143,11 @@ inline CSpectrumSpectralAxis
 CSpectrumSpectralAxis::extract(Int32 startIdx, Int32 endIdx) const {
   CSpectrumSpectralAxis spcaxis = CSpectrumAxis::extract(startIdx, endIdx);
   spcaxis.m_isSorted = m_isSorted;
-  spcaxis.m_isLogSampled = m_isLogSampled;
-  spcaxis.m_regularLogSamplingStep = m_regularLogSamplingStep;
+  // a part of an axis that is not log sampled may be log sampled
+  if (bool(m_isLogSampled) && spcaxis.GetSamplesCount() > 1) {
+    spcaxis.m_isLogSampled = m_isLogSampled;
+    spcaxis.m_regularLogSamplingStep = m_regularLogSamplingStep;
+  }
   return spcaxis;
 }
 } // namespace NSEpic
diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 73ad893..0033391 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -99,7 +99,7 @@ CSpectrumSpectralAxis::CSpectrumSpectralAxis(Int32 n, Float64 value)
 
 CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator*=(const Float64 op) {
   CSpectrumAxis::operator*=(op);
-  if (op < 0 && !indeterminate(m_isSorted))
+  if (op < 0 && GetSamplesCount() > 1 && !indeterminate(m_isSorted))
     m_isSorted = m_isSorted ? static_cast<tribool>(false) : indeterminate;
   if (!op)
     m_isSorted = (GetSamplesCount() < 2);
@@ -107,7 +107,7 @@ CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator*=(const Float64 op) {
 }
 CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator/=(const Float64 op) {
   CSpectrumAxis::operator/=(op);
-  if (op < 0 && !indeterminate(m_isSorted))
+  if (op < 0 && GetSamplesCount() > 1 && !indeterminate(m_isSorted))
     m_isSorted = m_isSorted ? static_cast<tribool>(false) : indeterminate;
   if (!op)
     m_isSorted = (GetSamplesCount() < 2);
@@ -116,7 +116,8 @@ CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator/=(const Float64 op) {
 CSpectrumSpectralAxis
 CSpectrumSpectralAxis::MaskAxis(const TFloat64List &mask) const {
   CSpectrumSpectralAxis spc_axis = CSpectrumAxis::MaskAxis(mask);
-  spc_axis.m_isSorted = m_isSorted;
+  if (bool(m_isSorted)) // samples taken out of an unsorted axis may be sorted
+    spc_axis.m_isSorted = true;
   if (spc_axis.GetSamplesCount() < 2)
     spc_axis.m_isSorted = true;
   spc_axis.m_isLogSampled = indeterminate;
@@ -126,12 +127,10 @@ CSpectrumSpectralAxis::MaskAxis(const TFloat64List &mask) const {
 void CSpectrumSpectralAxis::SetSize(Int32 s) {
   Float64 sample_size = GetSamplesCount();
   CSpectrumAxis::SetSize(s);
+  if (sample_size != s)
+    resetAxisProperties();
   if (s < 2)
     m_isSorted = true;
-  else {
-    if (sample_size < s)
-      resetAxisProperties();
-  }
 }
 /**
  * Shift current axis the input offset in the input direction.
@@ -169,8 +168,8 @@ void CSpectrumSpectralAxis::ApplyOffset(Float64 wavelengthOffset) {
   for (Int32 i = 0; i < nSamples; i++) {
     m_Samples[i] += wavelengthOffset;
   }
-  if (!wavelengthOffset)
-    m_isLogSampled = false;
+  if (wavelengthOffset)
+    m_isLogSampled = indeterminate;
 }
 
 /**
@@ -343,6 +342,10 @@ Int32 CSpectrumSpectralAxis::GetIndexAtWaveLength(Float64 waveLength) const {
  * Check if spectralAxis is well rebinned in log
  */
 bool CSpectrumSpectralAxis::CheckLoglambdaSampling() const {
+  if (GetSamplesCount() < 2) {
+    m_isLogSampled = false;
+    return false;
+  }
   Float64 logGridStep = log(m_Samples[1] / m_Samples[0]);
 
   Float64 relativelogGridStepTol =
-- 
2.43.0


From 4e812bc6d86210a9149b30a929aa232cfdc7a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 13/60] fix: assigning a spectrum also copies its photometric
 data and observation id

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 02bc487..52b1b0a 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -173,6 +173,8 @@ CSpectrum &CSpectrum::operator=(const CSpectrum &other) {
   m_medianWindowSize = other.m_medianWindowSize;
   m_medianEvenReflection = other.m_medianEvenReflection;
   m_Name = other.m_Name;
+  m_photData = other.m_photData;
+  m_obsId = other.m_obsId;
   alreadyRemoved = other.alreadyRemoved;
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
   return *this;
@@ -192,6 +194,8 @@ CSpectrum &CSpectrum::operator=(CSpectrum &&other) {
   m_medianWindowSize = other.m_medianWindowSize;
   m_medianEvenReflection = other.m_medianEvenReflection;
   m_Name = std::move(other.m_Name);
+  m_photData = std::move(other.m_photData);
+  m_obsId = std::move(other.m_obsId);
   alreadyRemoved = other.alreadyRemoved;
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
 
-- 
2.43.0


From 1c5b85a3146f1c392def64840c4539e8790de83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 14/60] fix: drop the precomputed rebinning grid whenever the
 flux or axis it was computed from changes

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 52b1b0a..8ccd717 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -209,6 +209,7 @@ void CSpectrum::SetSpectralAxis(const CSpectrumSpectralAxis &spectralaxis) {
            "not the same size than flux axis");
   }
   m_SpectralAxis = spectralaxis;
+  m_rebin->reset();
 }
 
 void CSpectrum::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
@@ -218,6 +219,7 @@ void CSpectrum::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
            "not the same size than flux axis");
   }
   m_SpectralAxis = std::move(spectralaxis);
+  m_rebin->reset();
 }
 
 void CSpectrum::SetFluxAxis(const CSpectrumFluxAxis &fluxaxis) {
@@ -292,6 +294,7 @@ void CSpectrum::ResetContinuum() const {
 
   m_ContinuumFluxAxis.clear();
   m_WithoutContinuumFluxAxis.clear();
+  m_rebin->reset();
 }
 
 bool CSpectrum::RemoveContinuum(CContinuum &remover) const {
@@ -350,6 +353,7 @@ bool CSpectrum::InvertFlux() {
     m_ContinuumFluxAxis.Invert();
     m_WithoutContinuumFluxAxis.Invert();
   }
+  m_rebin->reset();
   return true;
 }
 
-- 
2.43.0


From 36ed4710573eaa2af22ea17b7a294c94b4807cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 15/60] fix: a continuum given by hand is part of the spectrum
 at once

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 8ccd717..68413ce 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -603,15 +603,17 @@ void CSpectrum::SetContinuumEstimationMethod(std::string method) const {
 
 void CSpectrum::SetContinuumEstimationMethod(
     const CSpectrumFluxAxis &ContinuumFluxAxis) {
-  m_estimationMethod = "manual";
-  ResetContinuum();
-
   if (ContinuumFluxAxis.GetSamplesCount() != GetSampleCount()) {
     THROWG(ErrorCode::INTERNAL_ERROR,
            "Cannot set continuum flux: non-matching size with spectral axis");
   }
 
-  m_ContinuumFluxAxis = ContinuumFluxAxis;
+  // the given axis may be the current continuum, cleared by the reset
+  CSpectrumFluxAxis continuum = ContinuumFluxAxis;
+  m_estimationMethod = "manual";
+  ResetContinuum();
+  m_ContinuumFluxAxis = std::move(continuum);
+  EstimateContinuum();
 }
 
 void CSpectrum::setRebinInterpMethod(const std::string &opt_interp) const {
-- 
2.43.0


From 3e3e2b025f5dc360cbe360749af102bc17c44aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 16/60] fix: continuum of NaN when the median kernel is under
 four samples wide

---
 RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index e95f33e..ce4cf2d 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -351,8 +351,8 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
 
   {
     // mean smoothing
-    // mean smooth size=meanSmoothAmplitude/4
-    ysmoobig = MeanSmooth(ysmoobig, (Int32)meanSmoothAmplitude / 4);
+    // mean smooth size=meanSmoothAmplitude/4 (an empty window has no mean)
+    ysmoobig = MeanSmooth(ysmoobig, max(1, meanSmoothAmplitude / 4));
   }
 
   // Copy spectrum before k0
-- 
2.43.0


From e2c33a109b48521ea502ac93f0203909ff010ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 17/60] fix: endless recursion estimating the continuum when it
 is the selected flux

---
 RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h      | 2 ++
 .../src/lib/continuum/irregularsamplingmedian.cpp        | 3 ++-
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp            | 9 +++++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
index ee5410d..ece192c 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
@@ -138,6 +138,8 @@ public:
   bool GetMeanAndStdFluxInRange(TFloat64Range wlRange, Float64 &mean,
                                 Float64 &std) const;
   bool GetLinearRegInRange(TFloat64Range wlRange, Float64 &a, Float64 &b) const;
+  bool GetLinearRegInRange(TFloat64Range wlRange, const CSpectrumFluxAxis &flux,
+                           Float64 &a, Float64 &b) const;
 
   bool RemoveContinuum(CContinuum &remover) const;
   void ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const;
diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index ce4cf2d..7735423 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -193,7 +193,8 @@ Float64 CContinuumIrregularSamplingMedian::FitBorder(const CSpectrum &s,
 
   Float64 a;
   Float64 b;
-  bool ret = s.GetLinearRegInRange(range, a, b);
+  // the selected flux may be the one being estimated
+  bool ret = s.GetLinearRegInRange(range, fluxAxis, a, b);
   Int32 k = isRightBorder ? kend : kstart;
   Float64 fitValue = ret ? spectralAxis[k] * a + b : fluxAxis[k];
 
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 68413ce..e81a5b4 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -398,13 +398,18 @@ bool CSpectrum::GetMeanAndStdFluxInRange(TFloat64Range wlRange, Float64 &mean,
 
 bool CSpectrum::GetLinearRegInRange(TFloat64Range wlRange, Float64 &a,
                                     Float64 &b) const {
+  return GetLinearRegInRange(wlRange, GetFluxAxis(), a, b);
+}
+
+bool CSpectrum::GetLinearRegInRange(TFloat64Range wlRange,
+                                    const CSpectrumFluxAxis &flux, Float64 &a,
+                                    Float64 &b) const {
   // wlrange should be totally included in the spectrum lambdarange
   if (wlRange.GetBegin() < m_SpectralAxis.GetLambdaRange().GetBegin() ||
       wlRange.GetEnd() > m_SpectralAxis.GetLambdaRange().GetEnd())
     return false;
 
-  const CSpectrumNoiseAxis &error = GetErrorAxis();
-  const CSpectrumFluxAxis &flux = GetFluxAxis();
+  const CSpectrumNoiseAxis &error = flux.GetError();
 
   TInt32Range iRange = m_SpectralAxis.GetIndexesAtWaveLengthRange(wlRange);
   Int32 n = iRange.GetLength() + 1;
-- 
2.43.0


From 0860731a0d3074ab924fa4c2f78e931954da6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 18/60] fix: look up a template by name past a cleared slot

---
 RedshiftLibrary/src/lib/spectrum/template/catalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
index b0358ab..b97bf88 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
@@ -101,7 +101,7 @@ CTemplateCatalog::GetTemplateByName(const TStringList &tplCategoryList,
     if (!map.count(cat))
       continue;
     for (const auto &tpl : map.at(cat))
-      if (tpl->GetName() == tplName)
+      if (tpl && tpl->GetName() == tplName)
         return tpl;
   }
   THROWG(ErrorCode::INTERNAL_ERROR,
-- 
2.43.0


From bb3478814104d68265fb560411997d80035814f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 19/60] fix: replacing the last template left keeps its index

---
 .../src/lib/spectrum/template/catalog.cpp          | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
index b97bf88..8579df0 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
@@ -177,14 +177,18 @@ void CTemplateCatalog::SetTemplate(const std::shared_ptr<CTemplate> &tpl,
                                    Int32 i) {
   const std::string category = tpl->GetCategory();
 
-  // first clear given template
+  if (!GetTemplateCount(category)) {
+    Add(tpl);
+    return;
+  }
+
+  // first clear given template (clearing the last one also drops the list)
+  TTemplateRefList tplList = GetList().at(category);
   ClearTemplates(category, m_orthogonal, m_logsampling, i);
 
   // assign new template
-  if (!GetTemplateCount(category))
-    Add(tpl);
-  else
-    GetList().at(category).at(i) = tpl;
+  tplList.at(i) = tpl;
+  GetList().at(category) = std::move(tplList);
 }
 
 // clear all templates in a category
-- 
2.43.0


From 4cb0d8d89154d8d689cfa8e2ad4b22b14e81a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 20/60] fix: clearing a template whose derived view is shorter
 does not fail half way

---
 .../src/lib/spectrum/template/catalog.cpp           | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
index 8579df0..affdd04 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
@@ -221,13 +221,16 @@ void CTemplateCatalog::ClearTemplates(const std::string &category,
       ClearTemplates(category, opt_ortho, opt_logsampling, 0, true);
   }
 
-  // Other templates clearing rules
+  // Other templates clearing rules (a derived list may be shorter)
+  auto const clearDerived = [&](bool ortho, bool logsampling) {
+    if (alltemplates || i < GetTemplateCount(category, ortho, logsampling))
+      ClearTemplates(category, ortho, logsampling, i, alltemplates);
+  };
   if (!opt_ortho) // if not ortho clear associated ortho
-    ClearTemplates(category, 1, opt_logsampling, i, alltemplates);
+    clearDerived(1, opt_logsampling);
   if (!opt_logsampling && !opt_ortho) { // if original, clear log-sampled
-    ClearTemplates(category, 0, 1, i,
-                   alltemplates); // clear log-sampled (will clear log-sampled
-                                  // ortho recursively)
+    clearDerived(0, 1); // clear log-sampled (will clear log-sampled
+                        // ortho recursively)
   }
 }
 
-- 
2.43.0


From b000e5dabd047bf79b3fff0226e9c2933d9570ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 21/60] fix: size the corrected amplitudes of the best ratio
 catalogue

---
 RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
index ec84330..30d4f9e 100644
--- a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
+++ b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
@@ -196,7 +196,7 @@ Float64 CLineCatalogsTplRatio::GetBestFit(const TInt32List &validLinesIndex,
   // coeff min normalization
   // coeffMin = sqrt(coeffMin);
   // coeffMin /= 1.0;
-  amplitudesCorrected.clear();
+  amplitudesCorrected.assign(validLinesIndex.size(), NAN);
   if (coeffMin < 0.)
     return coeffMin;
 
-- 
2.43.0


From b646570603f7f58cc4a9aeed34ee6876057fdf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 22/60] fix: convolve the IGM curves by the LSF of the current
 spectrum

---
 .../RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h     | 5 +++++
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp     | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
index da05e50..6ebc5cf 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
@@ -71,6 +71,11 @@ public:
   void convolveByLSF(const std::shared_ptr<const CLSF> &lsf,
                      const TFloat64Range &lambdaRange);
   bool isConvolved() { return m_convolved; };
+  // forget the convolved curves, to be called before convolving by another LSF
+  void resetConvolution() {
+    m_corrections.clear();
+    m_convolved = false;
+  };
   Int32 getIdxCount() const {
     return m_rawCorrections[0].fluxcorr.size();
   }; // harcoded value from the number of cols in the ascii files
diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 5c3d229..88c78cf 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -207,6 +207,12 @@ void CInputContext::Init() {
                                                      *clampedLambdaRange_ptr);
   }
 
+  // the IGM curves convolved by the LSF of a previous spectrum are not valid
+  // for this one
+  if (m_igmcorrectionMeiksin->isConvolved() &&
+      m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
+    m_igmcorrectionMeiksin->resetConvolution();
+
   // validate spectra and initialize spectra continuum removal
   for (auto const &[spectrum_ptr, lambdaRange_ptr] :
        boost::combine(m_spectra, m_lambdaRanges)) {
@@ -214,8 +220,7 @@ void CInputContext::Init() {
     spectrum_ptr->InitSpectrumContinuum(*m_ParameterStore);
     // convolve IGM by LSF
 
-    if (!m_igmcorrectionMeiksin->isConvolved() ||
-        m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
+    if (!m_igmcorrectionMeiksin->isConvolved())
       m_igmcorrectionMeiksin->convolveByLSF(spectrum_ptr->GetLSF(),
                                             *lambdaRange_ptr);
   }
-- 
2.43.0


From 1dd52796b245ae3aba3d93e4045b7ff81e586ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 23/60] fix: a refused extinction configuration leaves the
 template unchanged

---
 .../src/lib/spectrum/template/template.cpp    | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 814215d..24506e7 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -324,29 +324,33 @@ void CTemplate::InitIsmIgmConfig(
     THROWG(ErrorCode::INTERNAL_ERROR, "kend outside range");
   }
 
-  m_kDust = -1;
-  m_meiksinIdx = -1;
-
-  m_IsmIgm_kstart = kstart;
-  m_Ism_kend = kend;
-  m_Igm_kend = -1;
-
+  Int32 redshiftIdx = undefIdx;
+  Int32 igm_kend = -1;
   if (!MeiksinInitFailed()) {
-    m_meiksinRedshiftIdx = m_igmCorrectionMeiksin->getRedshiftIndex(
+    redshiftIdx = m_igmCorrectionMeiksin->getRedshiftIndex(
         redshift); // index for IGM Meiksin redshift range
 
     // get last index in spectral axis where igm can be applied
-    m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
+    igm_kend = GetIgmEndIndex(kstart, kend);
 
-    if (m_meiksinRedshiftIdx == undefIdx && m_Igm_kend != undefIdx)
+    if (redshiftIdx == undefIdx && igm_kend != undefIdx)
       THROWG(ErrorCode::INTERNAL_ERROR,
              Formatter() << "CTemplate::InitIsmIgmConfig: missing "
                             "igm extinction curve for redshift z="
                          << redshift << " and wavelength range =["
-                         << m_SpectralAxis[m_IsmIgm_kstart] << " ; "
-                         << m_SpectralAxis[m_Igm_kend] << "]");
+                         << m_SpectralAxis[kstart] << " ; "
+                         << m_SpectralAxis[igm_kend] << "]");
   }
 
+  // change the configuration only once it is known to be valid
+  m_kDust = -1;
+  m_meiksinIdx = -1;
+
+  m_IsmIgm_kstart = kstart;
+  m_Ism_kend = kend;
+  m_Igm_kend = igm_kend;
+  m_meiksinRedshiftIdx = redshiftIdx;
+
   if (m_NoIsmIgmFluxAxis.isEmpty()) // initialize when called for the first time
     m_NoIsmIgmFluxAxis = GetFluxAxis();
   else                                   // reset the fluxAxis
-- 
2.43.0


From 7235000f89412e1a3d08926f1ccfb0e18d55d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 24/60] fix: a refused dust setting is not reported as applied

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 24506e7..7158005 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -207,14 +207,13 @@ bool CTemplate::ApplyDustCoeff(Int32 kDust) {
 
   if (m_kDust == kDust)
     return true;
-  m_kDust = kDust;
 
   CSpectrumFluxAxis &FluxAxis = GetFluxAxis_();
   const CSpectrumSpectralAxis &SpectralAxis = m_SpectralAxis;
   const CSpectrumFluxAxis &NoIsmIgmFluxAxis = m_NoIsmIgmFluxAxis;
 
   for (Int32 k = m_IsmIgm_kstart; k < m_Ism_kend + 1; k++) {
-    if (m_kDust > -1)
+    if (kDust > -1)
       m_computedDustCoeff[k] =
           m_ismCorrectionCalzetti->GetDustCoeff(kDust, SpectralAxis[k]);
     else
@@ -223,6 +222,7 @@ bool CTemplate::ApplyDustCoeff(Int32 kDust) {
     FluxAxis[k] = NoIsmIgmFluxAxis[k] * m_computedMeiksingCoeff[k] *
                   m_computedDustCoeff[k];
   }
+  m_kDust = kDust;
   return true;
 }
 
-- 
2.43.0


From 462a6060a6393b326fbf56c13d0c760419eb304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 25/60] fix: masked copy of a template whose whole extinction
 range is masked

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 7158005..0484c47 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -106,7 +106,9 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
                                           m_IsmIgm_kstart, m_Ism_kend);
     } catch (const AmzException &exception) {
       if (exception.getErrorCode() ==
-          ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE) {
+              ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE ||
+          exception.getErrorCode() == ErrorCode::CRANGE_NO_INTERSECTION ||
+          exception.getErrorCode() == ErrorCode::EMPTY_LIST) {
         rangeIsMasked = true;
       } else {
         throw exception;
-- 
2.43.0


From dc98ae88238e3c205edbd6892b5a62dc3ff0af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 26/60] fix: keep the range of the IGM extinction in the masked
 copy of a template

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 0484c47..64dd62e 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -128,6 +128,9 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
           CSpectrumAxis::maskVector(mask, other.m_computedDustCoeff);
       m_computedMeiksingCoeff =
           CSpectrumAxis::maskVector(mask, other.m_computedMeiksingCoeff);
+
+      if (other.m_Igm_kend != -1)
+        m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
     }
   }
 }
-- 
2.43.0


From 73d158c000fef484f8a135b36acacbeddb59a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 27/60] fix: redshift sub-grids crossing the border of the grid
 keep it sorted

---
 RedshiftLibrary/src/lib/common/zgridparam.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/common/zgridparam.cpp b/RedshiftLibrary/src/lib/common/zgridparam.cpp
index 6df3a4a..d3734c1 100644
--- a/RedshiftLibrary/src/lib/common/zgridparam.cpp
+++ b/RedshiftLibrary/src/lib/common/zgridparam.cpp
@@ -81,11 +81,22 @@ std::tuple<Int32, Int32> CZGridListParams::insertSubgrid(TFloat64List &subgrid,
   range_epsilon.getClosedIntervalIndices(zgrid, imin, imax);
 
   // deal with subgrid front or end
-  // if truncated by intersection with zgrid
-  if (range_epsilon.GetBegin() == zgrid.front())
+  // if truncated by intersection with zgrid: the samples outside zgrid are
+  // removed, except the closest which is moved to the border
+  if (range_epsilon.GetBegin() == zgrid.front()) {
+    subgrid.erase(subgrid.begin(),
+                  std::upper_bound(subgrid.begin(), subgrid.end(),
+                                   zgrid.front() + epsilon) -
+                      1);
     subgrid.front() = zgrid.front();
-  if (range_epsilon.GetEnd() == zgrid.back())
+  }
+  if (range_epsilon.GetEnd() == zgrid.back()) {
+    subgrid.erase(std::lower_bound(subgrid.begin(), subgrid.end(),
+                                   zgrid.back() - epsilon) +
+                      1,
+                  subgrid.end());
     subgrid.back() = zgrid.back();
+  }
 
   Int32 ndup = imax - imin + 1;
   insertWithDuplicates(zgrid, imin, subgrid, ndup);
-- 
2.43.0


From 570f50ba657ee0ceb48fd1fb50e745af834677b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 28/60] fix: inserting a redshift sub-grid coarser than the
 grid

---
 .../RedshiftLibrary/common/vectorOperations.h        | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h b/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h
index 126927f..431802b 100644
--- a/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h
+++ b/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h
@@ -48,6 +48,11 @@ namespace NSEpic {
 template <typename T>
 inline void insertWithDuplicates(std::vector<T> &dest, Int32 pos,
                                  std::vector<T> src, Int32 ndup) {
+  const Int32 nsrc = src.size();
+  if (ndup > nsrc) { // less values than those to be replaced
+    dest.erase(dest.begin() + pos + nsrc, dest.begin() + pos + ndup);
+    ndup = nsrc;
+  }
   const auto src_first = src.cbegin();
   const auto src_end = src.cend();
   const auto src_last_insert = src.cend() - ndup;
@@ -60,7 +65,12 @@ template <typename T>
 inline void insertWithDuplicates(std::vector<T> &dest, Int32 pos,
                                  std::size_t count, const T &value,
                                  Int32 ndup) {
-  Int32 ninsert = count - ndup;
+  const Int32 nsrc = count;
+  if (ndup > nsrc) { // less values than those to be replaced
+    dest.erase(dest.begin() + pos + nsrc, dest.begin() + pos + ndup);
+    ndup = nsrc;
+  }
+  Int32 ninsert = nsrc - ndup;
   dest.insert(dest.begin() + pos, ninsert, value);
   std::fill(dest.begin() + pos + ninsert, dest.begin() + pos + count,
             value); // replace existing values with the defaultV
-- 
2.43.0


From 7616b8c96be99d64fcee9fa4eb9913bbd12f16e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 29/60] fix: rank the peaks which remain after the merit cut

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index b2d69b3..f79c63e 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -120,6 +120,7 @@ TPointList CExtremum::Find(const TFloat64List &xAxis, const TFloat64List &yAxis,
   Int32 keepMinN = 1;
   if (m_meritCut > 0.0 && maxX.size() > keepMinN) {
     Cut_Threshold(maxX, maxY, keepMinN);
+    SortIndexes(maxY); // indices of the peaks which remain
   }
 
   // refine: eliminate very close candidates when possible.
-- 
2.43.0


From c8011ad12ad15c3ffcf5db59b21aadf199c98e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 30/60] fix: peaks of plateaus reached by a descent or
 following a low plateau

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index f79c63e..fdc0248 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -337,7 +337,7 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
     if (isStartHighPlank(i)) {
       // plank start point
       plank = true;
-      cnt_plk++;
+      cnt_plk = 1;
       continue;
     }
     if (!goflat(i - 1))
@@ -363,13 +363,14 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
       continue;
     }
     // Plank is getting larger
-    cnt_plk++;
+    if (plank)
+      cnt_plk++;
   }
 
   if (!m_allow_extrema_at_border)
     return result;
   // last element: check if plank is extended
-  if (godown(EndIndex - 1))
+  if (godown(EndIndex - 1) || (goflat(EndIndex - 1) && !plank))
     return result;
 
   cnt_plk += Int32(plank); // if no plank, cnt_plk+=0
-- 
2.43.0


From 9791a51ade013afc11ecf0aa42991c7ffc0fd0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 31/60] fix: integration windows of candidates close to a
 dropped duplicate

---
 .../src/lib/statistics/pdfcandidatesz.cpp     | 101 ++++++++++--------
 1 file changed, 58 insertions(+), 43 deletions(-)

diff --git a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
index 94417e0..70e11b7 100644
--- a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
+++ b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
@@ -109,53 +109,68 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
               return candidates[Id1]->Redshift < candidates[Id2]->Redshift;
             });
 
-  // trim overlapping ranges
-  TStringList duplicates = {};
-  for (auto candidateKey = candidatesKeys.begin();
-       candidateKey != candidatesKeys.end() - 1; ++candidateKey) {
-    std::string &candidateKeyHigh = *candidateKey;
-    std::string &candidateKeyLow = *(candidateKey + 1);
-    Float64 &zHigh = candidates[candidateKeyHigh]->Redshift;
-    Float64 &zLow = candidates[candidateKeyLow]->Redshift;
-
-    Float64 zSizeHighRange =
-        ranges[candidateKeyHigh].GetEnd() - ranges[candidateKeyHigh].GetBegin();
-    Float64 zSizeLowRange =
-        ranges[candidateKeyLow].GetEnd() - ranges[candidateKeyLow].GetBegin();
-
+  // candidates are very close when the overlap of their ranges is a large part
+  // of one of them
+  auto getOverlap = [&ranges](const std::string &keyHigh,
+                              const std::string &keyLow) {
+    return ranges[keyLow].GetEnd() - ranges[keyHigh].GetBegin();
+  };
+  auto areVeryClose = [&](const std::string &key1, const std::string &key2) {
+    bool isFirstHigh = candidates[key1]->Redshift >= candidates[key2]->Redshift;
     Float64 overlap =
-        ranges[candidateKeyLow].GetEnd() - ranges[candidateKeyHigh].GetBegin();
+        isFirstHigh ? getOverlap(key1, key2) : getOverlap(key2, key1);
+    return overlap > 0 && (overlap / ranges[key1].GetLength() >=
+                               OVERLAP_THRESHOLD_PDF_INTEGRATION ||
+                           overlap / ranges[key2].GetLength() >=
+                               OVERLAP_THRESHOLD_PDF_INTEGRATION);
+  };
 
-    if (overlap <= 0)
+  // among very close candidates only the most probable is kept, the others are
+  // duplicates
+  TStringList keysByProba = candidatesKeys;
+  std::stable_sort(keysByProba.begin(), keysByProba.end(),
+                   [&candidates](std::string Id1, std::string Id2) {
+                     return candidates[Id1]->ValProba >
+                            candidates[Id2]->ValProba;
+                   });
+  TStringList duplicates = {};
+  TStringList kept = {};
+  for (const auto &key : keysByProba) {
+    auto closeKey =
+        std::find_if(kept.cbegin(), kept.cend(), [&](const std::string &k) {
+          return areVeryClose(k, key);
+        });
+    if (closeKey == kept.cend()) {
+      kept.push_back(key);
       continue;
-
-    // in the case of duplicates, split equally the overlap between both
-    // candidates
-    Float64 overlapHighRatio = overlap / zSizeHighRange;
-    Float64 overlapLowRatio = overlap / zSizeLowRange;
-    if (overlapHighRatio < OVERLAP_THRESHOLD_PDF_INTEGRATION &&
-        overlapLowRatio < OVERLAP_THRESHOLD_PDF_INTEGRATION) {
-      Log.LogDebug(Formatter()
-                   << "    CPdfCandidatesZ::SetIntegrationRanges: integration "
-                      "supports overlap for "
-                   << zHigh << " and " << zLow);
-      Float64 midOverlap = ranges[candidateKeyLow].GetEnd() - 0.5 * overlap;
-      ranges[candidateKeyLow].SetEnd(midOverlap);
-      ranges[candidateKeyHigh].SetBegin(midOverlap);
-    } else {
-      Log.LogInfo(Formatter()
-                  << " CPdfCandidatesZ::SetIntegrationRanges: very close "
-                     "candidates are identified "
-                  << zHigh << " and " << zLow);
-      std::string candidateKeyToRemove;
-      if (candidates[candidateKeyLow]->ValProba >
-          candidates[candidateKeyHigh]->ValProba) {
-        candidateKeyToRemove = candidateKeyHigh;
-      } else {
-        candidateKeyToRemove = candidateKeyLow;
-      }
-      duplicates.push_back(candidateKeyToRemove);
     }
+    Log.LogInfo(Formatter()
+                << " CPdfCandidatesZ::SetIntegrationRanges: very close "
+                   "candidates are identified "
+                << candidates[*closeKey]->Redshift << " and "
+                << candidates[key]->Redshift);
+    duplicates.push_back(key);
+  }
+
+  // trim overlapping ranges: split equally the overlap between both candidates
+  std::sort(kept.rbegin(), kept.rend(),
+            [&candidates](std::string Id1, std::string Id2) {
+              return candidates[Id1]->Redshift < candidates[Id2]->Redshift;
+            });
+  for (size_t i = 1; i < kept.size(); ++i) {
+    const std::string &candidateKeyHigh = kept[i - 1];
+    const std::string &candidateKeyLow = kept[i];
+    Float64 overlap = getOverlap(candidateKeyHigh, candidateKeyLow);
+    if (overlap <= 0)
+      continue;
+    Log.LogDebug(Formatter()
+                 << "    CPdfCandidatesZ::SetIntegrationRanges: integration "
+                    "supports overlap for "
+                 << candidates[candidateKeyHigh]->Redshift << " and "
+                 << candidates[candidateKeyLow]->Redshift);
+    Float64 midOverlap = ranges[candidateKeyLow].GetEnd() - 0.5 * overlap;
+    ranges[candidateKeyLow].SetEnd(midOverlap);
+    ranges[candidateKeyHigh].SetBegin(midOverlap);
   }
 
   // iterate over computed ranges and check that corresponding zcandidates
-- 
2.43.0


From 6a807dc9996f0e27db5c649ce1bc3c05321aa69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 32/60] fix: regular conversion of a PDF does not read beyond
 its grid steps

---
 RedshiftLibrary/src/lib/operator/logZPdfResult.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
index e6bbe00..5ec8cef 100644
--- a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
+++ b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
@@ -155,8 +155,6 @@ void CLogZPdfResult::convertToRegular(bool fine) {
   zstep.resize(1);
 
   auto param = getZGridParams()[0];
-  if (fine)
-    param.zstep = zstep[1];
   auto target_redshifts = param.getZGrid(logsampling);
 
   interpolateOnGrid(target_redshifts);
-- 
2.43.0


From 4aa62ccb12ab5c943a63d3c664dacd982e6051ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 33/60] fix: keep the PDF value at the border of the regular
 grid despite rounding

---
 RedshiftLibrary/src/lib/operator/logZPdfResult.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
index 5ec8cef..692aa6a 100644
--- a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
+++ b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
@@ -105,6 +105,7 @@ void CLogZPdfResult::interpolateOnGrid(TFloat64List targetGrid) {
                             << " to zEnd=" << targetGrid.back()
                             << " (n=" << targetGrid.size() << ")");
 
+  const Float64 epsilon = 1E-8;
   TFloat64List outputValues(targetGrid.size(), NAN);
 
   // initialise and allocate the gsl objects
@@ -117,9 +118,12 @@ void CLogZPdfResult::interpolateOnGrid(TFloat64List targetGrid) {
 
   for (Int32 j = 0; j < targetGrid.size(); j++) {
     Float64 Xrebin = targetGrid[j];
-    if (Xrebin < redshifts.front() || Xrebin > redshifts.back()) {
+    if (Xrebin < redshifts.front() - epsilon ||
+        Xrebin > redshifts.back() + epsilon) {
       continue;
     }
+    // borders of both grids can differ by rounding
+    Xrebin = std::min(std::max(Xrebin, redshifts.front()), redshifts.back());
     outputValues[j] =
         gsl_interp_eval(interpolation, &redshifts.front(), &valProbaLog.front(),
                         Xrebin, accelerator); // lin
-- 
2.43.0


From bd1dedff04608381f71ad4490a159d9f2698b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 34/60] fix: classify spectra when some models have no redshift
 solver

---
 .../src/lib/method/classificationsolve.cpp           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/method/classificationsolve.cpp b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
index 874fccb..cd7e6e4 100644
--- a/RedshiftLibrary/src/lib/method/classificationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
@@ -55,11 +55,15 @@ std::shared_ptr<CSolveResult> CClassificationSolve::compute() {
   std::map<std::string, bool> hasResult;
   std::string stage = "redshiftSolver";
   for (const std::string &spectrumModel : inputContext->m_categories) {
-    const std::string &method =
-        inputContext->GetParameterStore()->Get<std::string>(
-            spectrumModel + "." + stage + ".method");
+    // some models may have no redshift solver
+    const std::string methodScope = spectrumModel + "." + stage + ".method";
+    const std::string method =
+        inputContext->GetParameterStore()->Has<std::string>(methodScope)
+            ? inputContext->GetParameterStore()->Get<std::string>(methodScope)
+            : "";
 
-    if (resultStore->hasSolveResult(spectrumModel, stage, method)) {
+    if (!method.empty() &&
+        resultStore->hasSolveResult(spectrumModel, stage, method)) {
       results[spectrumModel] = std::dynamic_pointer_cast<const CPdfSolveResult>(
           resultStore->GetSolveResult(spectrumModel, stage, method).lock());
       hasResult[spectrumModel] = true;
-- 
2.43.0


From 2ba86cf53c98fa16d81edb55178e96b1cf522a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 35/60] fix: running a solver twice is an error, not the end of
 the process

---
 RedshiftLibrary/RedshiftLibrary/method/solve.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/method/solve.h b/RedshiftLibrary/RedshiftLibrary/method/solve.h
index 494803e..ccf625e 100644
--- a/RedshiftLibrary/RedshiftLibrary/method/solve.h
+++ b/RedshiftLibrary/RedshiftLibrary/method/solve.h
@@ -83,7 +83,12 @@ class CAutoSaveFlagToResultStore {
 public:
   CAutoSaveFlagToResultStore() = default;
   ~CAutoSaveFlagToResultStore() {
-    Context.GetResultStore()->StoreScopedFlagResult("warningFlag");
+    // a destructor must not throw: the flag may already be stored
+    try {
+      Context.GetResultStore()->StoreScopedFlagResult("warningFlag");
+    } catch (AmzException const &e) {
+      e.LogError();
+    }
     Flag.resetFlag();
   };
   CAutoSaveFlagToResultStore(CAutoSaveFlagToResultStore const &) = delete;
-- 
2.43.0


From 7d03456311c301bb4db9e10b8eaf9185f5268822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 36/60] fix: limiting a line amplitude keeps lines outside
 range unfitted and absorption below its limit

---
 RedshiftLibrary/src/lib/linemodel/elementparam.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
index a65b8ba..6362e75 100644
--- a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
@@ -249,11 +249,17 @@ bool TLineModelElementParam::LimitFittedAmplitude(Int32 line_index,
     limited = true;
     m_FittedAmplitudes[line_index] = std::max(0.0, limit);
 
-    // now update the amplitude of the other lines
+    // now update the amplitude of the other lines, excepted those which are not
+    // fitted (outside lambda range)
     Float64 amplitudeRef =
         GetFittedAmplitude(line_index) / m_NominalAmplitudes[line_index];
     for (Int32 index = 0; index != size(); ++index) {
+      if (std::isnan(m_FittedAmplitudes[index]))
+        continue;
       m_FittedAmplitudes[index] = m_NominalAmplitudes[index] * amplitudeRef;
+      if (m_SignFactors[index] == -1 && m_absLinesLimit > 0.0)
+        m_FittedAmplitudes[index] =
+            std::min(m_FittedAmplitudes[index], m_absLinesLimit);
     }
   }
   return limited;
-- 
2.43.0


From 2a0e9f1d10eaf96bce5c03e26f3eab1f5db80efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 37/60] fix: ratio range rule corrects lines whose nominal
 amplitude is not one

---
 RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
index 0d1ecc0..99c4ca8 100644
--- a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
+++ b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
@@ -154,8 +154,16 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
   constructLogMsg(m_LineA, ampA, correctedA);
   constructLogMsg(m_LineB, ampB, correctedB);
 
-  LineModelElementList.SetElementAmplitude(i1, corrected1, er1);
-  LineModelElementList.SetElementAmplitude(i2, corrected2, er2);
+  // the elements amplitudes are relative to the nominal amplitudes of the lines
+  auto const &params = LineModelElementList.getElementParam();
+  Float64 const nominal1 =
+      params[i1]->GetNominalAmplitude(i1 == iEltA ? idA : idB);
+  Float64 const nominal2 =
+      params[i2]->GetNominalAmplitude(i2 == iEltA ? idA : idB);
+  LineModelElementList.SetElementAmplitude(i1, corrected1 / nominal1,
+                                           er1 / nominal1);
+  LineModelElementList.SetElementAmplitude(i2, corrected2 / nominal2,
+                                           er2 / nominal2);
 }
 
 void CRuleRatioRange::constructLogMsg(const std::string &lineStrA, Float64 ampA,
-- 
2.43.0


From 2e1185bddf0e9acdd56bd2bbd8eff12b8bd65741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:27 +0000
Subject: [PATCH 38/60] fix: amplitude rules consider the wavelength ranges of
 all the spectra

---
 .../line/ruleStrongHigherThanWeak.h              |  5 ++---
 .../RedshiftLibrary/linemodel/elementlist.h      |  4 ++++
 .../src/lib/line/rule2singlelinesamplitude.cpp   |  3 +--
 .../src/lib/line/ruleOIIRatioRange.cpp           |  4 ++--
 .../src/lib/line/ruleStrongHigherThanWeak.cpp    | 13 ++++++-------
 .../src/lib/linemodel/lmeltlistvector.cpp        | 16 ++++++++++++++++
 6 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/line/ruleStrongHigherThanWeak.h b/RedshiftLibrary/RedshiftLibrary/line/ruleStrongHigherThanWeak.h
index 6e247f8..ad86d2c 100644
--- a/RedshiftLibrary/RedshiftLibrary/line/ruleStrongHigherThanWeak.h
+++ b/RedshiftLibrary/RedshiftLibrary/line/ruleStrongHigherThanWeak.h
@@ -73,9 +73,8 @@ private:
                        const std::string &strongName, Float64 ampB,
                        Float64 maxB);
   Float64 maxAmplitude(Float64 ampStrong, Float64 erStrong);
-  void correctLineModelElement(CLineModelElement &element,
-                               const TLineModelElementParam_ptr &elt_param_ptr,
-                               Float64 maxAmplitude,
+  void correctLineModelElement(CLMEltListVector &LineModelElementList,
+                               Int32 iElement, Float64 maxAmplitude,
                                const std::string &nameStrong);
 };
 } // namespace NSEpic
diff --git a/RedshiftLibrary/RedshiftLibrary/linemodel/elementlist.h b/RedshiftLibrary/RedshiftLibrary/linemodel/elementlist.h
index a6dc57d..292d2fc 100644
--- a/RedshiftLibrary/RedshiftLibrary/linemodel/elementlist.h
+++ b/RedshiftLibrary/RedshiftLibrary/linemodel/elementlist.h
@@ -180,6 +180,10 @@ public:
 
   void setGlobalOutsideLambdaRangeFromSpectra();
 
+  // true if outside the lambda range of all the spectra
+  bool isOutsideAllLambdaRanges(Int32 elt_index) const;
+  bool isOutsideAllLambdaRangesLine(Int32 elt_index, Int32 line_index) const;
+
   Int32 GetModelNonZeroElementsNDdl() const;
 
 private:
diff --git a/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp b/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
index fd4aae6..5d496ff 100644
--- a/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
+++ b/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
@@ -98,8 +98,7 @@ void CRule2SingleLinesAmplitude::Correct(
                              << " has same index as line " << m_LineB);
     return;
   }
-  if (LineModelElementList.getElementList()[iEltA]->IsOutsideLambdaRange() ==
-      false) {
+  if (!LineModelElementList.isOutsideAllLambdaRanges(iEltA)) {
     Float64 ampA =
         LineModelElementList.getElementParam()[iEltA]->GetFittedAmplitude(idA);
     Float64 ampB =
diff --git a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
index 99c4ca8..3de9ed9 100644
--- a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
+++ b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
@@ -95,8 +95,8 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
   if (iEltA == iEltB)
     return;
 
-  if (LineModelElementList.getElementList()[iEltA]->IsOutsideLambdaRange() ||
-      LineModelElementList.getElementList()[iEltB]->IsOutsideLambdaRange())
+  if (LineModelElementList.isOutsideAllLambdaRanges(iEltA) ||
+      LineModelElementList.isOutsideAllLambdaRanges(iEltB))
     return;
 
   Float64 ampA =
diff --git a/RedshiftLibrary/src/lib/line/ruleStrongHigherThanWeak.cpp b/RedshiftLibrary/src/lib/line/ruleStrongHigherThanWeak.cpp
index 34a0b71..db1acef 100644
--- a/RedshiftLibrary/src/lib/line/ruleStrongHigherThanWeak.cpp
+++ b/RedshiftLibrary/src/lib/line/ruleStrongHigherThanWeak.cpp
@@ -87,25 +87,24 @@ void CRuleStrongHigherThanWeak::Correct(
 
   for (Int32 iElement = 0;
        iElement < LineModelElementList.getElementList().size(); iElement++) {
-    auto &element_ptr = LineModelElementList.getElementList()[iElement];
     const TLineModelElementParam_ptr &element_param_ptr =
         LineModelElementList.getElementParam()[iElement];
 
     // Consider only desired line types
     if (element_param_ptr->GetElementType() != m_LineType)
       continue;
-    correctLineModelElement(*element_ptr, element_param_ptr, maxAmp,
-                            nameStrong);
+    correctLineModelElement(LineModelElementList, iElement, maxAmp, nameStrong);
   }
   Log.LogInfo(Logs);
 }
 
 void CRuleStrongHigherThanWeak::correctLineModelElement(
-    CLineModelElement &element, const TLineModelElementParam_ptr &elt_param_ptr,
+    CLMEltListVector &LineModelElementList, Int32 iElement,
     Float64 maxAmplitude, const std::string &nameStrong) {
+  auto const &elt_param_ptr = LineModelElementList.getElementParam()[iElement];
 
-  for (Int32 iLine = 0; iLine != element.GetSize(); ++iLine) {
-    if (element.IsOutsideLambdaRangeLine(iLine))
+  for (Int32 iLine = 0; iLine != elt_param_ptr->size(); ++iLine) {
+    if (LineModelElementList.isOutsideAllLambdaRangesLine(iElement, iLine))
       continue;
     auto const &line = elt_param_ptr->GetLines()[iLine];
     if (line.IsWeak()) {
@@ -226,7 +225,7 @@ std::pair<Int32, Int32> CRuleStrongHigherThanWeak::FindLowestStrongLineIndex(
 
     for (Int32 iLine = 0; iLine != element_ptr->GetSize(); ++iLine) {
       auto const &line = element_param_ptr->GetLines()[iLine];
-      if (element_ptr->IsOutsideLambdaRangeLine(iLine))
+      if (LineModelElementList.isOutsideAllLambdaRangesLine(iElement, iLine))
         continue;
 
       if (line.IsStrong()) {
diff --git a/RedshiftLibrary/src/lib/linemodel/lmeltlistvector.cpp b/RedshiftLibrary/src/lib/linemodel/lmeltlistvector.cpp
index 1b6292f..8cfa3f8 100644
--- a/RedshiftLibrary/src/lib/linemodel/lmeltlistvector.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/lmeltlistvector.cpp
@@ -113,6 +113,22 @@ bool CLMEltListVector::computeOutsideLambdaRange(Int32 elt_index) {
   return true;
 }
 
+bool CLMEltListVector::isOutsideAllLambdaRanges(Int32 elt_index) const {
+  return std::all_of(m_ElementsVector.cbegin(), m_ElementsVector.cend(),
+                     [elt_index](auto const &elements) {
+                       return elements[elt_index]->IsOutsideLambdaRange();
+                     });
+}
+
+bool CLMEltListVector::isOutsideAllLambdaRangesLine(Int32 elt_index,
+                                                    Int32 line_index) const {
+  return std::all_of(
+      m_ElementsVector.cbegin(), m_ElementsVector.cend(),
+      [elt_index, line_index](auto const &elements) {
+        return elements[elt_index]->IsOutsideLambdaRangeLine(line_index);
+      });
+}
+
 void CLMEltListVector::AddElementParam(CLineVector lines) {
   size_t nb_lines = lines.size();
 
-- 
2.43.0


From 8780470f8f37b50c713fda625737475c7bb99dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 39/60] fix: write string results of any length to HDF5

String lists holding a single item, or only empty strings, could not be
written: the whole spectrum failed with EXTERNAL_LIB_ERROR.
---
 pylibamazed/python/pylibamazed/H5Writer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/H5Writer.py b/pylibamazed/python/pylibamazed/H5Writer.py
index 5f6a00b..0243f93 100644
--- a/pylibamazed/python/pylibamazed/H5Writer.py
+++ b/pylibamazed/python/pylibamazed/H5Writer.py
@@ -37,6 +37,8 @@
 # knowledge of the CeCILL-C license and that you accept its terms.
 # ============================================================================
 
+import h5py
+import numpy as np
 import pandas as pd
 from pylibamazed.AbstractOutput import root_stages, spectrum_model_stages
 from pylibamazed.Exception import APIException
@@ -52,7 +54,7 @@ def _create_dataset_from_dict(h5_node, name, source, compress=False):
     dtypes = dict()
     for (k, v) in dict(df.dtypes).items():
         if v == "O":
-            dtypes[k] = f'S{df[k].str.len().max()}'
+            dtypes[k] = f'S{max(df[k].str.len().max(), 1)}'
         else:
             dtypes[k] = str(v)
 
@@ -64,6 +66,12 @@ def _create_dataset_from_dict(h5_node, name, source, compress=False):
                            compression="lzf")
 
 
+def _set_attribute(h5_node, name, value):
+    if isinstance(value, np.ndarray) and value.dtype.kind == "U":
+        value = value.astype(h5py.string_dtype())  # hdf5 has no equivalent of numpy unicode strings
+    h5_node.attrs[name] = value
+
+
 class H5Writer():
 
     def __init__(self, output):
@@ -74,7 +82,7 @@ class H5Writer():
         for ds in self.output.get_available_datasets("root"):
             dsg = hdf5_spectrum_node.create_group(ds)
             for attr_name, attr in self.output.get_dataset(None, ds).items():
-                dsg.attrs[attr_name] = attr
+                _set_attribute(dsg, attr_name, attr)
 
     def write_hdf5_object_level(self, object_type, object_results_node):
         for ds in self.output.get_available_datasets("object",
@@ -92,7 +100,7 @@ class H5Writer():
             else:
                 object_results_node.create_group(ds)
                 for attr_name, attr in dataset.items():
-                    object_results_node.get(ds).attrs[attr_name] = attr
+                    _set_attribute(object_results_node.get(ds), attr_name, attr)
 
     def write_hdf5_candidate_level(self, object_type, object_results_node):
         if self.output.parameters.get_redshift_solver_method(object_type):
@@ -113,7 +121,7 @@ class H5Writer():
                     elif ds_dim == 1:
                         candidate.create_group(ds)
                         for attr_name, attr in dataset.items():
-                            candidate.get(ds).attrs[attr_name] = attr
+                            _set_attribute(candidate.get(ds), attr_name, attr)
                     else:
                         try:
                             _create_dataset_from_dict(candidate,
-- 
2.43.0


From c56dfca5d9e2ca77652306ef19fa5e3f3da74b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:19 +0000
Subject: [PATCH 40/60] fix: log-rebinned templates are added to the catalogue
 once all are rebinned

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index d4d8510..3fc81f0 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -369,11 +369,13 @@ TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
         std::const_pointer_cast<const CTemplateCatalog>(tplcat)
             ->GetTemplateList(TStringList{spectrumModel});
     tplcat->m_logsampling = true;
-    for (auto tpl : TplList) {
-      std::shared_ptr<CTemplate> rebinnedTpl =
-          loglambdaRebinTemplate(tpl, lambdaRange_tpl, loglambda_count_tpl);
+    // add them once all are rebinned: a partial list would be taken as complete
+    TTemplateRefList rebinnedTplList;
+    for (auto tpl : TplList)
+      rebinnedTplList.push_back(
+          loglambdaRebinTemplate(tpl, lambdaRange_tpl, loglambda_count_tpl));
+    for (auto const &rebinnedTpl : rebinnedTplList)
       tplcat->Add(rebinnedTpl);
-    }
   }
   tplcat->m_logsampling = false;
 
-- 
2.43.0


From 60e8ecbd4c427038a1ce064ea1b0d3f65d1f46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 41/60] fix: chi-square of IGM loop when the fit range is
 entirely inside the IGM range

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index df1c61c..ca7f0af 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -289,6 +289,12 @@ TCrossProductResult COperatorTemplateFitting::ComputeCrossProducts(
   }
 
   if (m_option_igmFastProcessing) {
+    if (sumsIgmSaved == 0) {
+      // the whole fitted range is inside IGM range
+      sumCross_IGM = sumCross;
+      sumT_IGM = sumT;
+      sumS_IGM = sumS;
+    }
     if (kM == 0) {
       m_sumCross_outsideIGM[spcIndex][kEbmv_] = sumCross - sumCross_IGM;
       m_sumT_outsideIGM[spcIndex][kEbmv_] = sumT - sumT_IGM;
-- 
2.43.0


From 27fe772efa650e43212916092c4913d9763318c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 42/60] fix: IGM fit without dust at redshifts where no pixel
 is in the IGM range

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index ca7f0af..3602d6c 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -111,6 +111,9 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
   if (opt_extinction)
     opt_extinction = igmIsInRange(currentRanges);
 
+  // no igm processing when no igm extinction is applied
+  m_option_igmFastProcessing = m_option_igmFastProcessing && opt_extinction;
+
   if (opt_dustFitting || opt_extinction) {
     for (Int32 spcIndex = 0; spcIndex < m_spectra.size(); spcIndex++) {
       InitIsmIgmConfig(redshift, m_kStart[spcIndex], m_kEnd[spcIndex],
-- 
2.43.0


From fe6b5b14b5c6f643daa18d6fa4c5ba62a0a95660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 43/60] fix: tpl-combination model spectrum is sampled on the
 observed wavelengths

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 7c7d479..7b0462b 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -652,8 +652,6 @@ COperatorTplcombination::ComputeSpectrumModel(
       modelFlux[k] += amplitudes[iddl] * tmp[k] * extinction[k];
     }
   }
-  modelSpcAxis.ShiftByWaveLength((1.0 + redshift),
-                                 CSpectrumSpectralAxis::nShiftForward);
 
   // Deallocate the rebined template and mask buffers
   m_templatesRebined_bf.clear();
-- 
2.43.0


From d9dfcf3785494e380c90412342a587934670337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 44/60] fix: tpl-combination keeps the amplitudes of its best
 ISM/IGM fit

---
 .../src/lib/operator/tplcombination.cpp       | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 7b0462b..03236b0 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -300,37 +300,35 @@ void COperatorTplcombination::BasicFit(
 
       // save the fitted amps and fitErrors, etc...
       Float64 a, err2, err, sA = 0, sE = 0;
+      TFloat64List fittedAmplitudes(nddl);
+      TFloat64List fittedErrors(nddl);
+      TFloat64List fittedSigmas(nddl);
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
         a = gsl_vector_get(c, iddl);
-        fittingResults.fittingAmplitudes[iddl] = a * normFactor;
+        fittedAmplitudes[iddl] = a * normFactor;
         err2 = COV(iddl, iddl);
         err = std::sqrt(err2);
-        fittingResults.fittingAmplitudeErrors[iddl] = err * normFactor;
-        fittingResults.fittingAmplitudeSigmas[iddl] = a / err;
+        fittedErrors[iddl] = err * normFactor;
+        fittedSigmas[iddl] = a / err;
         sA += a * a;
         sE += err2;
       }
       SNR = std::sqrt(sA / sE);
       fittingResults.fittingAmplitudesInterm[kEbmv_][kigm] =
-          fittingResults.fittingAmplitudes; // saving
-
-      // save covariance matrix into MtM
-      for (Int32 iddl = 0; iddl < nddl; iddl++) {
-        for (Int32 iddc = 0; iddc < nddl; iddc++) {
-          fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
-        }
-      }
-      if (fittingResults.fittingAmplitudes.size() != nddl) {
-        Log.LogDebug(Formatter() << " Found nfittedamps(="
-                                 << fittingResults.fittingAmplitudes.size()
-                                 << ") "
-                                    "different than nddl(="
-                                 << nddl << ")");
-      }
+          fittedAmplitudes; // saving
 
       if (chisq < fittingResults.chiSquare) {
         fittingResults.chiSquare = chisq;
         fittingResults.SNR = SNR;
+        fittingResults.fittingAmplitudes = fittedAmplitudes;
+        fittingResults.fittingAmplitudeErrors = fittedErrors;
+        fittingResults.fittingAmplitudeSigmas = fittedSigmas;
+        // save covariance matrix into MtM
+        for (Int32 iddl = 0; iddl < nddl; iddl++) {
+          for (Int32 iddc = 0; iddc < nddl; iddc++) {
+            fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+          }
+        }
         fittingResults.MeiksinIdx =
             igmCorrectionAppliedOnce ? meiksinIdx : undefIdx;
         fittingResults.EbmvCoeff = coeffEBMV;
-- 
2.43.0


From 33d8fd16d005537272b4a37e3aa4e173ccd813fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:56 +0000
Subject: [PATCH 45/60] fix: empty redshift range in the FFT template fitting

---
 RedshiftLibrary/src/lib/operator/templatefittinglog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
index 8e83cf2..529ce18 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
@@ -391,7 +391,9 @@ COperatorTemplateFittingLog::FindZRanges(const TFloat64List &redshifts) {
           break;
         Int32 iz = -1;
         TFloat64Index::getClosestLowerIndex(redshifts, z, iz);
-        zsplit.push_back(iz);
+        // no empty range when the redshift step is larger than the bins
+        if (zsplit.empty() || iz > zsplit.back())
+          zsplit.push_back(iz);
       }
     }
 
-- 
2.43.0


From fd94bf188b8a9504659b561a2dd9eacb3f5e1dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:18 +0000
Subject: [PATCH 46/60] fix: IGM range of the tpl-combination fit at negative
 redshifts

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 03236b0..eb71c82 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -210,9 +210,7 @@ void COperatorTplcombination::BasicFit(
     bool igmCorrectionAppliedOnce = false;
     // applyMeiksin on all templates
     if (opt_extinction) {
-      if (currentRange.GetBegin() / (1 + redshift) >
-          RESTLAMBDA_LYA) // bug??: why dividing by (1+z) if currentRange is
-                          // already in restframe??
+      if (currentRange.GetBegin() > RESTLAMBDA_LYA)
         // if(COperatorTemplateFitting::CheckLyaIsInCurrentRange(currentRange))
         igmCorrectionAppliedOnce = false;
       else {
-- 
2.43.0


From 47471362b3684207b91089ccf9ea6acc67d75c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 47/60] fix: a failing template fitting solve restores
 component types and sampling

---
 .../RedshiftLibrary/method/autorestore.h      | 86 +++++++++++++++++++
 .../src/lib/method/templatefittingsolve.cpp   | 15 ++--
 .../src/lib/method/tplcombinationsolve.cpp    | 20 ++---
 3 files changed, 97 insertions(+), 24 deletions(-)
 create mode 100644 RedshiftLibrary/RedshiftLibrary/method/autorestore.h

diff --git a/RedshiftLibrary/RedshiftLibrary/method/autorestore.h b/RedshiftLibrary/RedshiftLibrary/method/autorestore.h
new file mode 100644
index 0000000..3eb3847
--- /dev/null
+++ b/RedshiftLibrary/RedshiftLibrary/method/autorestore.h
@@ -0,0 +1,86 @@
+// ============================================================================
+//
+// This file is part of: AMAZED
+//
+// Copyright  Aix Marseille Univ, CNRS, CNES, LAM/CeSAM
+//
+// https://www.lam.fr/
+//
+// This software is a computer program whose purpose is to estimate the
+// spectrocopic redshift of astronomical sources (galaxy/quasar/star)
+// from there 1D spectrum.
+//
+// This software is governed by the CeCILL-C license under French law and
+// abiding by the rules of distribution of free software.  You can  use,
+// modify and/ or redistribute the software under the terms of the CeCILL-C
+// license as circulated by CEA, CNRS and INRIA at the following URL
+// "http://www.cecill.info".
+//
+// As a counterpart to the access to the source code and  rights to copy,
+// modify and redistribute granted by the license, users are provided only
+// with a limited warranty  and the software's author,  the holder of the
+// economic rights,  and the successive licensors  have only  limited
+// liability.
+//
+// In this respect, the user's attention is drawn to the risks associated
+// with loading,  using,  modifying and/or developing or reproducing the
+// software by the user in light of its specific status of free software,
+// that may mean  that it is complicated to manipulate,  and  that  also
+// therefore means  that it is reserved for developers  and  experienced
+// professionals having in-depth computer knowledge. Users are therefore
+// encouraged to load and test the software's suitability as regards their
+// requirements in conditions enabling the security of their systems and/or
+// data to be ensured and,  more generally, to use and operate it in the
+// same conditions as regards security.
+//
+// The fact that you are presently reading this means that you have had
+// knowledge of the CeCILL-C license and that you accept its terms.
+// ============================================================================
+#ifndef _REDSHIFT_METHOD_AUTORESTORE_
+#define _REDSHIFT_METHOD_AUTORESTORE_
+
+#include <memory>
+#include <vector>
+
+#include "RedshiftLibrary/spectrum/spectrum.h"
+#include "RedshiftLibrary/spectrum/template/catalog.h"
+
+namespace NSEpic {
+
+// automatically restore the component types of spectra and templates when
+// leaving scope, even with exceptions
+class CAutoRestoreTypes {
+public:
+  CAutoRestoreTypes() = default;
+  ~CAutoRestoreTypes() {
+    for (auto const &[spectrum, type] : m_saved)
+      spectrum->SetType(type);
+  };
+  void Save(const CSpectrum &spectrum) {
+    m_saved.emplace_back(&spectrum, spectrum.GetType());
+  }
+  CAutoRestoreTypes(CAutoRestoreTypes const &) = delete;
+  CAutoRestoreTypes &operator=(CAutoRestoreTypes const &) = delete;
+
+private:
+  std::vector<std::pair<const CSpectrum *, CSpectrum::EType>> m_saved;
+};
+
+// automatically restore the sampling of the template catalog when leaving
+// scope, even with exceptions
+class CAutoRestoreSampling {
+public:
+  explicit CAutoRestoreSampling(const CTemplateCatalog &tplCatalog)
+      : m_tplCatalog(tplCatalog), m_logsampling(tplCatalog.m_logsampling) {}
+  ~CAutoRestoreSampling() { m_tplCatalog.m_logsampling = m_logsampling; };
+  CAutoRestoreSampling(CAutoRestoreSampling const &) = delete;
+  CAutoRestoreSampling &operator=(CAutoRestoreSampling const &) = delete;
+
+private:
+  const CTemplateCatalog &m_tplCatalog;
+  const bool m_logsampling;
+};
+
+} // namespace NSEpic
+
+#endif
diff --git a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
index 9c776a2..a3e13d4 100644
--- a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
@@ -42,6 +42,7 @@
 #include "RedshiftLibrary/operator/modelspectrumresult.h"
 
 #include "RedshiftLibrary/log/log.h"
+#include "RedshiftLibrary/method/autorestore.h"
 #include "RedshiftLibrary/operator/modelphotvalueresult.h"
 #include "RedshiftLibrary/operator/pdfz.h"
 #include "RedshiftLibrary/operator/templatefitting.h"
@@ -99,6 +100,7 @@ std::shared_ptr<CSolveResult> CTemplateFittingSolve::compute() {
            "fftProcessing not "
            "implemented with photometry enabled");
 
+  CAutoRestoreSampling autoRestoreSampling(tplCatalog);
   if (fft_processing) {
     m_templateFittingOperator =
         std::make_shared<COperatorTemplateFittingLog>(m_redshifts);
@@ -232,10 +234,10 @@ void CTemplateFittingSolve::Solve(
     _ntype = 3;
   }
 
-  std::vector<CSpectrum::EType> save_spcTypes;
-  for (auto spc : Context.getSpectra())
-    save_spcTypes.push_back(spc->GetType());
-  const CSpectrum::EType save_tplType = tpl->GetType();
+  CAutoRestoreTypes autoRestoreTypes;
+  for (auto const &spc : Context.getSpectra())
+    autoRestoreTypes.Save(*spc);
+  autoRestoreTypes.Save(*tpl);
 
   for (Int32 i = 0; i < _ntype; i++) {
     if (spctype == nType_all) {
@@ -281,11 +283,6 @@ void CTemplateFittingSolve::Solve(
     resultStore->StoreScopedPerTemplateResult(tpl, scopeStr.c_str(),
                                               templateFittingResult);
   }
-
-  int i = 0;
-  for (auto spc : Context.getSpectra())
-    spc->SetType(save_spcTypes[i++]);
-  tpl->SetType(save_tplType);
 }
 
 ChisquareArray CTemplateFittingSolve::BuildChisquareArray(
diff --git a/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp b/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
index b8c5556..747266f 100644
--- a/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
@@ -39,6 +39,7 @@
 #include <cfloat>
 
 #include "RedshiftLibrary/log/log.h"
+#include "RedshiftLibrary/method/autorestore.h"
 #include "RedshiftLibrary/method/tplcombinationsolve.h"
 #include "RedshiftLibrary/method/tplcombinationsolveresult.h"
 #include "RedshiftLibrary/operator/pdfz.h"
@@ -185,12 +186,10 @@ bool CTplCombinationSolve::Solve(
   if (spctype == nType_all)
     _ntype = 3;
 
-  const CSpectrum::EType save_spcType = spc.GetType();
-  std::vector<CSpectrum::EType> save_tplTypes(tplList.size());
-  std::transform(tplList.begin(), tplList.end(), save_tplTypes.begin(),
-                 [](std::shared_ptr<const NSEpic::CTemplate> tpl) {
-                   return tpl->GetType();
-                 });
+  CAutoRestoreTypes autoRestoreTypes;
+  autoRestoreTypes.Save(spc);
+  for (auto const &tpl : tplList)
+    autoRestoreTypes.Save(*tpl);
 
   for (Int32 i = 0; i < _ntype; i++) {
     if (spctype == nType_all)
@@ -223,15 +222,6 @@ bool CTplCombinationSolve::Solve(
     Log.LogDetail("tplcombinationsolver: Save tplcombination results");
     resultStore->StoreScopedGlobalResult(scopeStr.c_str(), result);
   }
-
-  // restore component types
-  spc.SetType(save_spcType);
-  auto it = save_tplTypes.begin();
-  std::for_each(tplList.begin(), tplList.end(),
-                [&it](std::shared_ptr<const NSEpic::CTemplate> tpl) {
-                  tpl->SetType(*it);
-                  it++;
-                });
   return true;
 }
 
-- 
2.43.0


From 61d73a7731a0503e6b926e2d7b1d30f18564eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:49 +0000
Subject: [PATCH 48/60] fix: peak detection reads before its buffer when the
 window is narrower than the sampling

---
 RedshiftLibrary/src/lib/operator/peakdetection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/peakdetection.cpp b/RedshiftLibrary/src/lib/operator/peakdetection.cpp
index 89be03d..52962da 100644
--- a/RedshiftLibrary/src/lib/operator/peakdetection.cpp
+++ b/RedshiftLibrary/src/lib/operator/peakdetection.cpp
@@ -203,6 +203,8 @@ void CPeakDetection::FindPossiblePeaks(
                                   spectralAxis[i] - m_winsize / 2.0));
     Int32 stop = std::min(s, spectralAxis.GetIndexAtWaveLength(
                                  spectralAxis[i] + m_winsize / 2.0));
+    // the window holds one sample at least, even when narrower than the sampling
+    stop = std::max(stop, start + 1);
 
     med[i] = medianFilter.Find(fluxVector.begin() + start,
                                fluxVector.begin() + stop);
-- 
2.43.0


From 5642144b8a56d996e60b9eaf181d93d2541303d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:54 +0000
Subject: [PATCH 49/60] fix: line matching rules test the lines against the
 spectrum range, not the window size (operator precedence)

---
 RedshiftLibrary/src/lib/line/rules.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/rules.cpp b/RedshiftLibrary/src/lib/line/rules.cpp
index a66c09b..d795245 100644
--- a/RedshiftLibrary/src/lib/line/rules.cpp
+++ b/RedshiftLibrary/src/lib/line/rules.cpp
@@ -218,7 +218,8 @@ Float64 CRules::getRestLineLambda(std::string nametag) const {
 }
 
 bool CRules::isLineInsideRange(Float64 lambda, bool winsize) const {
-  Float64 start = m_lambdaRange.GetBegin() + winsize ? m_winsize : 0.;
-  Float64 end = m_lambdaRange.GetEnd() + winsize ? m_winsize : 0.;
+  Float64 const margin = winsize ? m_winsize : 0.;
+  Float64 const start = m_lambdaRange.GetBegin() + margin;
+  Float64 const end = m_lambdaRange.GetEnd() - margin;
   return (lambda >= start && lambda <= end);
 }
-- 
2.43.0


From 3367558c9544e6219a17383fb240b84e3af28a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:54 +0000
Subject: [PATCH 50/60] fix: strong lines outside the spectrum do not
 contradict a line matching solution

---
 RedshiftLibrary/src/lib/line/rules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/rules.cpp b/RedshiftLibrary/src/lib/line/rules.cpp
index d795245..4129664 100644
--- a/RedshiftLibrary/src/lib/line/rules.cpp
+++ b/RedshiftLibrary/src/lib/line/rules.cpp
@@ -124,7 +124,7 @@ bool CRules::checkRule01(
     maxNoiseWeak = std::max(maxNoiseWeak, noiseWeak);
   }
   // estimate the strong lines SNR
-  for (const auto &[_, line] : strongRestLineList) {
+  for (const auto &[_, line] : strongRestLinesInsideLambdaRangeList) {
     Float64 const lambda = line.GetPosition() * (1 + z);
     TFloat64Range const lambdarange(lambda - m_winsize / 2.0,
                                     lambda + m_winsize / 2.0);
-- 
2.43.0


From 0d34117dd03dcea7bbcb2252667aec5eff10fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:37 +0000
Subject: [PATCH 51/60] fix: linear rebinning marks no sample after the end of
 the range

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
index 405389e..97dd934 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
@@ -61,7 +61,7 @@ void CRebinLinear::rebin(CSpectrumFluxAxis &rebinedFluxAxis,
     // For each sample in the target spectrum that are in between two
     // continous source sample
     while (cursor < targetSpectralAxis.GetSamplesCount() &&
-           Xtgt[cursor] <= Xsrc[k + 1]) {
+           Xtgt[cursor] <= Xsrc[k + 1] && Xtgt[cursor] <= range.GetEnd()) {
       // perform linear interpolation of the flux
       Float64 xSrcStep = (Xsrc[k + 1] - Xsrc[k]);
       Float64 t = (Xtgt[cursor] - Xsrc[k]) / xSrcStep;
-- 
2.43.0


From d21083b77f9847aa732edc30c3509e7fe7b05b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:02 +0000
Subject: [PATCH 52/60] fix: fine grid rebinning gave a null flux next to the
 last sample

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
index f2bd3f5..ff7ed4d 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
@@ -74,10 +74,12 @@ void CRebinFineGrid::rebinFineGrid() {
   Float64 x = 0.0;
   for (k = 0; k < nTgt; k++) {
     x = lmin + k * m_dLambdaFineGrid;
-    if (x < spectralAxis[0] || x > spectralAxis[n - 1]) {
+    // up to half a step after the last sample, a grid point is the nearest one
+    // of positions inside the spectrum
+    if (x < lmin || x > lmax + 0.5 * m_dLambdaFineGrid) {
       m_pfgFlux[k] = 0.0;
     } else {
-      m_pfgFlux[k] = gsl_spline_eval(spline, x, accelerator);
+      m_pfgFlux[k] = gsl_spline_eval(spline, std::min(x, lmax), accelerator);
     }
   }
   gsl_spline_free(spline);
-- 
2.43.0


From c1faa93e44d2063ea40443a89b850df2ee22ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 53/60] fix: a change of the flux clears the fine grid kept
 while another interpolation is selected

---
 RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
index cbe7860..8df40e0 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
@@ -67,7 +67,12 @@ public:
                CSpectrum &rebinedSpectrum, CMask &rebinedMask,
                const std::string opt_error_interp);
 
-  virtual void reset(){};
+  // the precomputed grid is handed over by convert: it is cleared whatever the
+  // type is now
+  virtual void reset() {
+    m_FineGridInterpolated = false;
+    m_pfgFlux.clear();
+  };
   virtual const std::string &getType() = 0;
 
 protected:
-- 
2.43.0


From 8ab6515c28a3176212c698ba78dc5c8918815bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:50 +0000
Subject: [PATCH 54/60] fix: a change of the extinction or error of a spectrum
 clears its precomputed fine grid

---
 .../RedshiftLibrary/spectrum/spectrum.h         | 16 ----------------
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp   | 17 +++++++++++++++++
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
index ece192c..a9f1342 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
@@ -237,22 +237,6 @@ inline const CSpectrumFluxAxis &CSpectrum::GetFluxAxis() const {
   }
 }
 
-inline CSpectrumFluxAxis &CSpectrum::GetFluxAxis_() {
-  switch (m_spcType) {
-  case nType_raw:
-    return GetRawFluxAxis_();
-    break;
-  case nType_continuumOnly:
-    return GetContinuumFluxAxis_();
-    break;
-  case nType_noContinuum:
-    return GetWithoutContinuumFluxAxis_();
-    break;
-  default:
-    return GetRawFluxAxis_();
-  }
-}
-
 inline const CSpectrumFluxAxis &CSpectrum::GetRawFluxAxis() const {
   return m_RawFluxAxis;
 }
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index e81a5b4..252177c 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -297,6 +297,23 @@ void CSpectrum::ResetContinuum() const {
   m_rebin->reset();
 }
 
+CSpectrumFluxAxis &CSpectrum::GetFluxAxis_() {
+  m_rebin->reset(); // the flux is about to be changed
+  switch (m_spcType) {
+  case nType_raw:
+    return GetRawFluxAxis_();
+    break;
+  case nType_continuumOnly:
+    return GetContinuumFluxAxis_();
+    break;
+  case nType_noContinuum:
+    return GetWithoutContinuumFluxAxis_();
+    break;
+  default:
+    return GetRawFluxAxis_();
+  }
+}
+
 bool CSpectrum::RemoveContinuum(CContinuum &remover) const {
   ResetContinuum();
 
-- 
2.43.0


From 74ffc9b24d91ddd76f0b5a7fbf5ac5901a652561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 55/60] fix: line supports sharing one sample overlap, the
 sample was fitted twice

---
 RedshiftLibrary/src/lib/linemodel/element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/element.cpp b/RedshiftLibrary/src/lib/linemodel/element.cpp
index 69a5cb0..f9ab487 100644
--- a/RedshiftLibrary/src/lib/linemodel/element.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/element.cpp
@@ -320,7 +320,7 @@ void CLineModelElement::prepareSupport(
         // compute overlapping region
         Int32 max = std::max(x1, y1);
         Int32 min = std::min(x2, y2);
-        if (max - min < 0) { // case of overlapping
+        if (max - min <= 0) { // case of overlapping
           m_StartNoOverlap[i] = std::min(x1, y1);
           m_EndNoOverlap[i] = std::max(x2, y2);
           m_StartNoOverlap[j] =
@@ -384,7 +384,7 @@ void CLineModelElement::prepareSupport(
         y2 = m_EndNoOverlap[j];
         Int32 max = std::max(x1, y1);
         Int32 min = std::min(x2, y2);
-        if (max - min < 0) {
+        if (max - min <= 0) {
           supportNoOverlap_has_duplicates = true;
           break;
         }
-- 
2.43.0


From 9dfd7aab7363acbc8d84de01866bd29b1b4a170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 56/60] fix: velocity groups list each element once, the
 duplicates were removed from a copy

---
 RedshiftLibrary/src/lib/linemodel/elementlist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/elementlist.cpp b/RedshiftLibrary/src/lib/linemodel/elementlist.cpp
index 870bf1a..5dc519b 100644
--- a/RedshiftLibrary/src/lib/linemodel/elementlist.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/elementlist.cpp
@@ -130,7 +130,7 @@ CLineModelElementList::GetModelVelfitGroups(CLine::EType lineType) const {
   }
 
   // remove duplicate elements in each groups
-  for (auto [_, group] : tag_groups) {
+  for (auto &[_, group] : tag_groups) {
     std::sort(group.begin(), group.end());
     group.erase(std::unique(group.begin(), group.end()), group.end());
   }
-- 
2.43.0


From 4642e3c60f11ce73cd1d612cc0202b0d9bdddb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 57/60] fix: with all the lines removed, the observed flux is
 blended with the continuum, not with the lines

---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 076539e..3710130 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -219,6 +219,8 @@ CSpectrum CSpectrumModel::GetObservedSpectrumWithLinesRemoved(
     refreshModel(CLine::EType::nType_Absorption);
   else if (lineTypeFilter == CLine::EType::nType_Absorption)
     refreshModel(CLine::EType::nType_Emission);
+  else
+    reinitModel();
   TFloat64List fluxAndContinuum = fluxAxis.GetSamplesVector();
 
   refreshModel(lineTypeFilter);
-- 
2.43.0


From 904939301cc20bfd658d31ff0861d5a474e717bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 58/60] fix: the weighted residual under lines uses the error
 of the observed spectrum

---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 3710130..4e4bc7d 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -388,12 +388,9 @@ std::pair<Float64, Float64>
 CSpectrumModel::getModelSquaredResidualUnderElements(TInt32List const &EltsIdx,
                                                      bool with_continuum,
                                                      bool with_weight) const {
-  // before elementlistcutting this variable was
-  // CElementList::m_ErrorNoContinuum, a reference initialized twice in
-  // CElementList constructor, first init to m_spcFluxAxisNoContinuum.GetError()
-  // and after to spectrumFluxAxis.GetError
+  // the model flux axis has no error of its own: use the observed one
   const CSpectrumNoiseAxis &errorNoContinuum =
-      m_SpectrumModel.GetFluxAxis().GetError();
+      m_inputSpc->GetRawFluxAxis().GetError();
   const CSpectrumFluxAxis &fluxRef =
       with_continuum ? getSpcFluxAxis() : getSpcFluxAxisNoContinuum();
 
-- 
2.43.0


From 5dc269ff7ee047b7fd42bc62a621c8b941e51718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 59/60] fix: a perfectly fitted spectrum counts in the residual
 rms over spectra

---
 RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h b/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
index 6418faf..6258045 100644
--- a/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
+++ b/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
@@ -157,8 +157,6 @@ public:
       auto [fit, sumErr] =
           getSpectrumModel().getModelSquaredResidualUnderElements(
               EltsIdx, with_continuum, with_weight);
-      if (fit == 0.0)
-        continue;
       if (std::isnan(fit)) {
         nb_nan++;
         continue;
-- 
2.43.0


From 42b7a501dd3ae2ab7e5e5d747eecca297eb77eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:54 +0000
Subject: [PATCH 60/60] fix: the continuum under lines includes the absorption
 lines of all the elements

---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 4e4bc7d..3d7bac8 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -526,9 +526,14 @@ CSpectrumModel::getContinuumUnderLines(const TInt32RangeList &indexRangeList,
   CSpectrumFluxAxis continuumFlux(ContinuumFluxAxis.GetSamplesCount());
 
   CSpectrumFluxAxis absLinesModelFlux;
-  if (substract_abslinesmodel)
-    absLinesModelFlux = getModel(
-        eIdx_list, CLine::EType::nType_Absorption); // contains the continuum
+  if (substract_abslinesmodel) { // contains the continuum
+    absLinesModelFlux = ContinuumFluxAxis;
+    for (auto const &elt : *m_Elements)
+      if (elt->getElementParam()->GetElementType() ==
+          CLine::EType::nType_Absorption)
+        elt->addToSpectrumModel(spectralAxis, absLinesModelFlux,
+                                ContinuumFluxAxis, m_Redshift);
+  }
 
   CSpectrumFluxAxis ampOffsetModelFlux;
   if (m_enableAmplitudeOffsets) {
-- 
2.43.0

