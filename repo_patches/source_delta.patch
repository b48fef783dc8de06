From 58ae533a1fa081407463c57ff16b339f60229203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 01/93] fix: slices with several free axes keep bin order;
 refuse slice bins out of range

---
 src/histogram/Histogram.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index db9cbb8..ab0e305 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -321,6 +321,12 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
                                 << "Histogram::GetSlice::Tried "
                                 << "to get slice of non existent axis "
                                 << it->first << "!");
+
+        if (it->second >= fAxes.GetAxis(it->first).GetNBins())
+            throw NotFoundError(Formatter()
+                                << "Histogram::GetSlice::Tried "
+                                << "to get slice at non existent bin "
+                                << it->second << " of axis " << it->first << "!");
     }
 
     // want to support multidimensional slices
@@ -385,12 +391,15 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
     std::cout << "Number of combinations found: " << localIdx.size() << std::endl;
 
     // for every combination, obtain the global flat idx in original histogram
-    size_t bin = 0;
+    std::vector<size_t> sliceCoords(newAxisIndexes.size());
     for (size_t idx = 0; idx < localIdx.size(); idx++)
     {
+        // the slice bin has the same indices along the free axes
+        for (size_t i = 0; i < newAxisIndexes.size(); i++)
+            sliceCoords[i] = localIdx.at(idx).at(newAxisIndexes[i]);
+
         size_t oldGlobalBin = fAxes.FlattenIndices(localIdx.at(idx));
-        slice.AddBinContent(bin, fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
-        bin += 1;
+        slice.AddBinContent(slice.FlattenIndices(sliceCoords), fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
     }
 
     return slice;
-- 
2.43.0


From c60107e8cd4057917e7cc229b016b964c64c1e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 02/93] fix: refuse interpolation outside the lattice of bin
 centres instead of reading unrelated bins

---
 src/histogram/Histogram.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index ab0e305..c6eb7be 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -513,7 +513,16 @@ Histogram::GetLatticePointValues(const std::vector<double>& vals, std::vector<st
     GetBinCentres(vals_bin, vals_bin_centre);
 
     std::vector<bool> vals_is_larger; 
-    for (size_t dim=0; dim<fNDims; dim++) { vals_is_larger.push_back(vals.at(dim) >= vals_bin_centre.at(dim)); }
+    for (size_t dim=0; dim<fNDims; dim++)
+    {
+        // the lattice ends at the outermost bin centres: there is nothing to interpolate between beyond them
+        const BinAxis &axis = fAxes.GetAxis(dim);
+        const size_t last_bin = axis.GetNBins() - 1;
+        if (!last_bin || !(vals.at(dim) >= axis.GetBinCentre(0) && vals.at(dim) <= axis.GetBinCentre(last_bin)))
+            throw ValueError(Formatter() << "Histogram::GetLatticePointValues(): value " << vals.at(dim)
+                                         << " on axis " << axis.GetName() << " is outside of the range of bin centres");
+        vals_is_larger.push_back(vals.at(dim) >= vals_bin_centre.at(dim) && vals_bin_idxs.at(dim) != last_bin);
+    }
     // Obtain information about surrounding 2^N lattice points
     const size_t N_L_POINTS = 1 << fNDims;
     constexpr size_t MAX_DIMS = 20; // If you've got 20 dimensions in your histogram...tough luck! (arbitrary large number)
-- 
2.43.0


From d31c70abb5892fe85819a59ecb53e90c156ff394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 03/93] fix: reading or adding to the bin just past the end of
 a histogram is refused

---
 src/histogram/Histogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index c6eb7be..c5d4295 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -109,7 +109,7 @@ Histogram::FindBin(double value) const
 double
 Histogram::GetBinContent(size_t bin_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -118,7 +118,7 @@ Histogram::GetBinContent(size_t bin_) const
 
 void Histogram::AddBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
-- 
2.43.0


From b5c777954fc081225fadf70f48edb4ca4f318d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 04/93] fix: events refuse indices out of range and access by
 name before names are set

---
 src/data/Event.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7890b18..0b092cf 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -43,7 +43,7 @@ void Event::SetDatum(size_t index_, double val_)
 {
     try
     {
-        fObservations[index_] = val_;
+        fObservations.at(index_) = val_;
     }
 
     catch (const std::out_of_range &e_)
@@ -56,11 +56,12 @@ void Event::SetDatum(const std::string &name_, double val_)
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    SetDatum(it - fObsNames->begin(), val_);
+    SetDatum(it - names.begin(), val_);
 }
 
 double
@@ -68,11 +69,12 @@ Event::GetDatum(const std::string &name_) const
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    return GetDatum(it - fObsNames->begin());
+    return GetDatum(it - names.begin());
 }
 
 std::vector<double>
-- 
2.43.0


From 143acf8e8fe537883f88e25d84c4babe81f1379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 05/93] fix: concatenating data sets leaves the operands alone;
 copies use their own observable names

---
 src/data/OXSXDataSet.cpp | 17 +++++++++++++----
 src/data/OXSXDataSet.h   |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 7b93c19..9a9b09f 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -24,7 +24,10 @@ Event OXSXDataSet::GetEntry(size_t eventIndex_) const
 {
     try
     {
-        return fData.at(eventIndex_);
+        // events of a copied data set should look up their observables in the copy
+        Event event(fData.at(eventIndex_));
+        event.SetObservableNames(&fObservableNames);
+        return event;
     }
     catch (std::out_of_range &)
     {
@@ -50,12 +53,18 @@ OXSXDataSet::GetObservableNames() const
 }
 
 OXSXDataSet
-OXSXDataSet::operator+(const OXSXDataSet &other_)
+OXSXDataSet::operator+(const OXSXDataSet &other_) const
 {
+    OXSXDataSet sum(*this);
+    if (sum.fObservableNames.empty())
+        sum.fObservableNames = other_.fObservableNames;
+    else if (!other_.fObservableNames.empty() && sum.fObservableNames != other_.fObservableNames)
+        throw ValueError("OXSXDataSet::operator+ data sets have different observables!");
+
     for (size_t i = 0; i < other_.GetNEntries(); i++)
-        AddEntry(other_.GetEntry(i));
+        sum.AddEntry(other_.GetEntry(i));
 
-    return *this;
+    return sum;
 }
 
 void OXSXDataSet::Reserve(int i)
diff --git a/src/data/OXSXDataSet.h b/src/data/OXSXDataSet.h
index 54fff34..06c22b6 100644
--- a/src/data/OXSXDataSet.h
+++ b/src/data/OXSXDataSet.h
@@ -25,7 +25,7 @@ public:
     std::vector<std::string> GetObservableNames() const;
 
     // concatenate
-    OXSXDataSet operator+(const OXSXDataSet &other_);
+    OXSXDataSet operator+(const OXSXDataSet &other_) const;
 
     void Reserve(int);
 
-- 
2.43.0


From 0c94250ce6ced2120802da05b74da51762975c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 06/93] fix: assigning a cut collection to itself keeps its
 cuts

---
 src/cut/CutCollection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 2853c10..f631ebf 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -48,6 +48,9 @@ CutCollection::CutCollection(const CutCollection &other_)
 CutCollection &
 CutCollection::operator=(const CutCollection &other_)
 {
+  if (this == &other_)
+    return *this;
+
   for (size_t i = 0; i < fCuts.size(); i++)
     delete fCuts.at(i);
 
-- 
2.43.0


From 264c4fe16940b2abebd70f4ea6ae46d2a7ecd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 07/93] fix: saving a cut log to a file that cannot be opened
 is an error

---
 src/cut/CutLog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 514ea05..e6dddf3 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -120,11 +120,11 @@ void CutLog::SaveAs(const std::string &title_,
                     const std::string &path_)
 {
     std::ofstream fs;
-    if (fs.is_open())
+    fs.open(path_.c_str());
+    if (!fs.is_open())
     {
         throw IOError("CutLog::SaveAs - couldn't open file" + path_);
     }
-    fs.open(path_.c_str());
     fs << "-----------------------------------"
        << "-----------------------------------"
        << std::endl
-- 
2.43.0


From 812b3fa16273272a84610e0ecfb1321d112469c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 08/93] fix: event systematics refuse unphysical values set
 through the parameter interface

---
 src/eventSystematic/EventReconvolution.cpp | 4 ++--
 src/eventSystematic/EventScale.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eventSystematic/EventReconvolution.cpp b/src/eventSystematic/EventReconvolution.cpp
index 9a4486a..093df2e 100644
--- a/src/eventSystematic/EventReconvolution.cpp
+++ b/src/eventSystematic/EventReconvolution.cpp
@@ -36,7 +36,7 @@ void EventReconvolution::SetParameter(const std::string &name_, double value)
 {
     if (name_ != fParamName)
         throw ParameterError("EventReconvolution: can't set " + name_ + ", " + fParamName + " is the only parameter");
-    fCorrection = value;
+    SetCorrection(value);
 }
 
 double
@@ -51,7 +51,7 @@ void EventReconvolution::SetParameters(const ParameterDict &pd_)
 {
     try
     {
-        fCorrection = pd_.at(fParamName);
+        SetCorrection(pd_.at(fParamName));
     }
     catch (const std::out_of_range &e_)
     {
diff --git a/src/eventSystematic/EventScale.cpp b/src/eventSystematic/EventScale.cpp
index 85514ec..c298d3a 100644
--- a/src/eventSystematic/EventScale.cpp
+++ b/src/eventSystematic/EventScale.cpp
@@ -37,7 +37,7 @@ void EventScale::SetParameter(const std::string &name_, double value)
 {
     if (name_ != fParamName)
         throw ParameterError("EventScale: can't set " + name_ + ", " + fParamName + " is the only parameter");
-    fScale = value;
+    SetScale(value);
 }
 
 double
@@ -52,7 +52,7 @@ void EventScale::SetParameters(const ParameterDict &pd_)
 {
     try
     {
-        fScale = pd_.at(fParamName);
+        SetScale(pd_.at(fParamName));
     }
     catch (const std::out_of_range &e_)
     {
-- 
2.43.0


From 94aa4d22325126eda64f65799e5aecd7482e1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 09/93] fix: counting backgrounds again replaces the previous
 counts; counting an unset signal is refused

---
 src/count/CountingExperiment.cpp | 7 +++++++
 src/count/CountingExperiment.h   | 1 +
 src/count/CountingResult.cpp     | 8 ++++++++
 src/count/CountingResult.h       | 1 +
 4 files changed, 17 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index c4a39f2..747d96b 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -1,6 +1,7 @@
 #include <CountingExperiment.h>
 #include <Event.h>
 #include <DataSet.h>
+#include <Exceptions.h>
 #include <Formatter.hpp>
 #include <iostream>
 #include <cmath>
@@ -21,6 +22,9 @@ void CountingExperiment::CountData(DataSet *testData_)
 
 void CountingExperiment::CountBackgrounds()
 {
+    // counting again replaces the previous background counts
+    fResult.ClearBackgrounds();
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
@@ -45,6 +49,9 @@ void CountingExperiment::CountBackgrounds()
 
 void CountingExperiment::CountSignal()
 {
+    if (!fSignalDataSet)
+        throw NULLPointerAccessError("CountingExperiment::CountSignal", "Have you set the signal?");
+
     int signalCount = 0;
     CutLog cutLog = (fCuts.GetCutNames());
     for (size_t i = 0; i < fSignalDataSet->GetNEntries(); i++)
diff --git a/src/count/CountingExperiment.h b/src/count/CountingExperiment.h
index 4411219..ce950f3 100644
--- a/src/count/CountingExperiment.h
+++ b/src/count/CountingExperiment.h
@@ -10,6 +10,7 @@ class EventSystematic;
 class CountingExperiment
 {
 public:
+   CountingExperiment() : fTestDataSet(NULL), fSignalDataSet(NULL) {}
    void CountData(DataSet *);
    void CountBackgrounds();
    void CountSignal();
diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 768d6f2..c9b1a75 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -20,6 +20,14 @@ void CountingResult::AddBackground(double expectedRate_, const std::string &name
     fBackgroundLogs.push_back(log_);
 }
 
+void CountingResult::ClearBackgrounds()
+{
+    fExpectedRates.clear();
+    fExpectedRateErrors.clear();
+    fBackgroundNames.clear();
+    fBackgroundLogs.clear();
+}
+
 void CountingResult::SetDataLog(const CutLog &log_)
 {
     fDataLog = log_;
diff --git a/src/count/CountingResult.h b/src/count/CountingResult.h
index ef0c40c..6c3da32 100644
--- a/src/count/CountingResult.h
+++ b/src/count/CountingResult.h
@@ -10,6 +10,7 @@ public:
    CountingResult() : fObservedCounts(-1), fSignalEfficiency(-1) {}
    void AddBackground(double expectedRate_, const std::string &name_,
                       double error_, const CutLog &);
+   void ClearBackgrounds();
    void SetSignal(double sigEff_, const std::string &name_, const CutLog &);
 
    void SetDataLog(const CutLog &);
-- 
2.43.0


From 1134cb68ffbf5bc84b581d7aa8dd828d9e6086e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 10/93] fix: copies of an event convolution keep its name and
 free their old kernel

---
 src/eventSystematic/EventConvolution.cpp | 29 +++++++++++++-----------
 src/eventSystematic/EventConvolution.h   |  2 +-
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index c2d7aa1..a017485 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -21,18 +21,24 @@ EventConvolution::EventConvolution(const EventConvolution &other_)
     fDist = other_.fDist->Clone();
   else
     fDist = NULL;
+  fName = other_.fName;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
 }
 
-EventConvolution
+EventConvolution &
 EventConvolution::operator=(const EventConvolution &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  delete fDist;
   if (other_.fDist)
     fDist = other_.fDist->Clone();
   else
     fDist = NULL;
 
+  fName = other_.fName;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
   return *this;
@@ -44,24 +50,21 @@ EventConvolution::operator=(const EventConvolution &other_)
 
 void EventConvolution::SetPDF(PDF *f_)
 {
-  if (!f_)
-    fDist = NULL;
+  if (f_ && f_->GetNDims() != 1)
+    throw DimensionError("EventConvolution::SetFunction", 1,
+                         f_->GetNDims(), "Only implemented for 1D functions");
 
-  else
-  {
-    if (f_->GetNDims() != 1)
-      throw DimensionError("EventConvolution::SetFunction", 1,
-                           f_->GetNDims(), "Only implemented for 1D functions");
+  delete fDist;
+  fDist = NULL;
+  if (f_)
     fDist = static_cast<ConditionalPDF *>(new JumpPDF("kernel", f_));
-  }
 }
 
 void EventConvolution::SetConditionalPDF(ConditionalPDF *c_)
 {
-  if (!c_)
-    fDist = NULL;
-  else
-    fDist = c_->Clone();
+  ConditionalPDF *dist = c_ ? c_->Clone() : NULL;
+  delete fDist;
+  fDist = dist;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/src/eventSystematic/EventConvolution.h b/src/eventSystematic/EventConvolution.h
index 5e601b1..3a418aa 100644
--- a/src/eventSystematic/EventConvolution.h
+++ b/src/eventSystematic/EventConvolution.h
@@ -15,7 +15,7 @@ public:
   EventConvolution(const std::string &name_) : fDist(NULL), fName(name_) {}
   ~EventConvolution();
   EventConvolution(const EventConvolution &);
-  EventConvolution operator=(const EventConvolution &);
+  EventConvolution &operator=(const EventConvolution &);
 
   // Get/Set
   void SetPDF(PDF *f);
-- 
2.43.0


From 74c8828fe2419101a414680935897d7e1d4feeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 11/93] fix: Gaussian parameters are read from the right index,
 renaming terminates and unknown names are refused

---
 src/function/GaussianFitter.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 2b96f13..723e068 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -47,14 +47,14 @@ void GaussianFitter::RenameParameter(const std::string &old_, const std::string
     while (it != fMeansNames.end())
     {
         *it = new_;
-        it = find(it++, fMeansNames.end(), old_);
+        it = find(++it, fMeansNames.end(), old_);
     }
 
     it = find(fStdDevsNames.begin(), fStdDevsNames.end(), old_);
     while (it != fStdDevsNames.end())
     {
         *it = new_;
-        it = find(it++, fStdDevsNames.end(), old_);
+        it = find(++it, fStdDevsNames.end(), old_);
     }
 }
 
@@ -73,6 +73,9 @@ GaussianFitter::GetStdDevNames() const
 void GaussianFitter::SetParameter(const std::string &name_, double value_)
 {
     std::vector<std::string>::iterator it;
+    if (find(fMeansNames.begin(), fMeansNames.end(), name_) == fMeansNames.end() && find(fStdDevsNames.begin(), fStdDevsNames.end(), name_) == fStdDevsNames.end())
+        throw NotFoundError(Formatter() << "GaussianFitter:: Can't set parameter " << name_ << ", it wasn't found. Available names: " << ToString(GetParameterNames()));
+
     it = find(fMeansNames.begin(), fMeansNames.end(), name_);
     while (it != fMeansNames.end())
     {
@@ -101,16 +104,19 @@ GaussianFitter::GetParameter(const std::string &name_) const
         it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
         if (it == fStdDevsNames.end())
             throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
-        return fOrignalFunc->GetStDev(std::distance(it, fStdDevsNames.begin()));
+        return fOrignalFunc->GetStDev(std::distance(fStdDevsNames.begin(), it));
     }
-    return fOrignalFunc->GetMean(std::distance(it, fMeansNames.begin()));
+    return fOrignalFunc->GetMean(std::distance(fMeansNames.begin(), it));
 }
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
 {
+    // the set may hold parameters of other components too, take only those known here
+    const std::set<std::string> names = GetParameterNames();
     for (ParameterDict::const_iterator i = ps_.begin(); i != ps_.end(); ++i)
     {
-        SetParameter(i->first, i->second);
+        if (names.find(i->first) != names.end())
+            SetParameter(i->first, i->second);
     }
 }
 
-- 
2.43.0


From 718eea0804a26f4409a0aa394daa6ab7cb6ab3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 12/93] fix: means and widths beyond a Gaussian's dimension are
 refused

---
 src/function/Gaussian.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 907e3d1..8e3b2e5 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -109,21 +109,29 @@ Gaussian::GetStDev(size_t dimension_) const
 
 void Gaussian::SetMean(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fMeans.size())
+        throw NotFoundError("Gaussian::Tried to set Gaussian mean beyond function dimensionality!");
     fMeans[dim_] = value_;
 }
 
 void Gaussian::SetStDev(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fStdDevs.size())
+        throw NotFoundError("Gaussian::Tried to set Gaussian stdDev beyond function dimensionality!");
     fStdDevs[dim_] = value_;
 }
 
 void Gaussian::SetMeans(const std::vector<double> &means_)
 {
+    if (means_.size() != fNDims)
+        throw DimensionError("Gaussian::SetMeans", fNDims, means_.size());
     fMeans = means_;
 }
 
 void Gaussian::SetStDevs(const std::vector<double> &stddevs_)
 {
+    if (stddevs_.size() != fNDims)
+        throw DimensionError("Gaussian::SetStDevs", fNDims, stddevs_.size());
     fStdDevs = stddevs_;
 }
 
-- 
2.43.0


From 20119889876887ce033dfb7953e325d312d50b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 13/93] fix: copies of varying and jump distributions own their
 functions and kernels

---
 src/function/JumpPDF.cpp    |  6 +++-
 src/function/JumpPDF.h      |  2 +-
 src/function/VaryingCDF.cpp | 55 +++++++++++++++++++++++++++----------
 src/function/VaryingCDF.h   |  3 ++
 4 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 308d0f2..48f6a0c 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -33,9 +33,13 @@ JumpPDF::JumpPDF(const JumpPDF &other_)
   fName = other_.fName;
 }
 
-JumpPDF
+JumpPDF &
 JumpPDF::operator=(const JumpPDF &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  delete fPDF;
   if (other_.fPDF)
     fPDF = static_cast<PDF *>(other_.fPDF->Clone());
   else
diff --git a/src/function/JumpPDF.h b/src/function/JumpPDF.h
index f62d966..bae9037 100644
--- a/src/function/JumpPDF.h
+++ b/src/function/JumpPDF.h
@@ -13,7 +13,7 @@ public:
   JumpPDF(const std::string &name_, PDF *);
   ~JumpPDF();
   JumpPDF(const JumpPDF &);
-  JumpPDF operator=(const JumpPDF &);
+  JumpPDF &operator=(const JumpPDF &);
   ConditionalPDF *Clone() const;
 
   // ConditDist Interface, just execute the function on x - x2
diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 8e3fa45..2aebe85 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -16,7 +16,7 @@ using ContainerTools::ToString;
 // Constructory Things //
 /////////////////////////
 
-VaryingCDF::VaryingCDF(const std::string &name_ = "")
+VaryingCDF::VaryingCDF(const std::string &name_ = "") : fCdf(NULL)
 {
     if (name_ == "")
         fName = std::string("VaryingCDF");
@@ -25,29 +25,47 @@ VaryingCDF::VaryingCDF(const std::string &name_ = "")
 }
 VaryingCDF::~VaryingCDF()
 {
-    delete fCdf;
-    for (std::map<std::string, Function *>::const_iterator parameter_ = fFunctions.begin(); parameter_ != fFunctions.end(); ++parameter_)
-    {
-        delete parameter_->second;
-    }
+    Clear();
 }
 
-VaryingCDF::VaryingCDF(const VaryingCDF &copy_)
+VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : fCdf(NULL)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
-    fName = copy_.fName;
+    CopyFrom(copy_);
 }
 
 VaryingCDF &
 VaryingCDF::operator=(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
-    fName = copy_.fName;
+    if (this != &copy_)
+    {
+        Clear();
+        CopyFrom(copy_);
+    }
     return *this;
 }
 
+void VaryingCDF::Clear()
+{
+    delete fCdf;
+    fCdf = NULL;
+    for (std::map<std::string, Function *>::const_iterator parameter_ = fFunctions.begin(); parameter_ != fFunctions.end(); ++parameter_)
+    {
+        delete parameter_->second;
+    }
+    fFunctions.clear();
+}
+
+void VaryingCDF::CopyFrom(const VaryingCDF &copy_)
+{
+    for (std::map<std::string, Function *>::const_iterator parameter_ = copy_.fFunctions.begin(); parameter_ != copy_.fFunctions.end(); ++parameter_)
+    {
+        fFunctions[parameter_->first] = parameter_->second->Clone();
+    }
+    if (copy_.fCdf)
+        fCdf = copy_.fCdf->Clone();
+    fName = copy_.fName;
+}
+
 ConditionalPDF *
 VaryingCDF::Clone() const
 {
@@ -77,7 +95,11 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
-    fFunctions[paraName_] = func_->Clone();
+    Function *func = func_->Clone();
+    std::map<std::string, Function *>::iterator old = fFunctions.find(paraName_);
+    if (old != fFunctions.end())
+        delete old->second;
+    fFunctions[paraName_] = func;
 }
 
 double
@@ -93,7 +115,9 @@ VaryingCDF::Integral(const std::vector<double> &mins_,
 
 void VaryingCDF::SetKernel(ConditionalPDF *PDF_)
 {
-    fCdf = PDF_->Clone();
+    ConditionalPDF *kernel = PDF_->Clone();
+    delete fCdf;
+    fCdf = kernel;
 }
 
 void VaryingCDF::SetKernel(PDF *PDF_)
@@ -101,6 +125,7 @@ void VaryingCDF::SetKernel(PDF *PDF_)
     // BL : If we are passed a PDF we transform to a JumpPDF in order to preserve
     // the structure of shifting a function to a bin center and integrating over
     // over bins relative to that shift.
+    delete fCdf;
     fCdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
 }
 
diff --git a/src/function/VaryingCDF.h b/src/function/VaryingCDF.h
index c9ea292..7c69a30 100644
--- a/src/function/VaryingCDF.h
+++ b/src/function/VaryingCDF.h
@@ -81,6 +81,9 @@ public:
    void SetName(const std::string &);
 
 private:
+   void Clear();
+   void CopyFrom(const VaryingCDF &);
+
    std::map<std::string, Function *> fFunctions;
    ConditionalPDF *fCdf;
 
-- 
2.43.0


From fb2ac2292f407893a015c039b928b9ee30c8b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 14/93] fix: parameters of a varying distribution go to the
 functions that have them

---
 src/function/VaryingCDF.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 2aebe85..c4f94f5 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -140,10 +140,17 @@ VaryingCDF::Sample(const std::vector<double> &x2_) const
 
 void VaryingCDF::SetParameter(const std::string &name_, double value_)
 {
+    // the functions that depend on it, each has its own parameters
+    bool found = false;
     for (std::map<std::string, Function *>::iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(name_))
+            continue;
         function->second->SetParameter(name_, value_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Can't set parameter " << name_ << ". Parameters available : " << ToString(GetParameterNames()));
 }
 
 double
@@ -152,13 +159,8 @@ VaryingCDF::GetParameter(const std::string &name_) const
     // This returns parameters of the parameter functions that have been defined.
     for (const auto &function : fFunctions)
     {
-        try
-        {
+        if (function.second->GetParameterNames().count(name_))
             return function.second->GetParameter(name_);
-        }
-        catch (const NotFoundError &e_)
-        {
-        }
     }
     // Parameter couldn't be found, so throw exception.
     std::vector<std::string> functionNames;
@@ -193,12 +195,8 @@ VaryingCDF::GetParameters() const
 size_t
 VaryingCDF::GetParameterCount() const
 {
-    size_t number = 0;
-    for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
-    {
-        number += function->second->GetParameterCount();
-    }
-    return number;
+    // functions may share parameters
+    return GetParameterNames().size();
 }
 
 std::set<std::string>
@@ -215,9 +213,13 @@ VaryingCDF::GetParameterNames() const
 
 void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    if (!GetParameterNames().count(old_))
+        throw NotFoundError(Formatter() << "VaryingCDF:: Can't rename parameter " << old_ << ". Parameters available : " << ToString(GetParameterNames()));
+
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
-        function->second->RenameParameter(old_, new_);
+        if (function->second->GetParameterNames().count(old_))
+            function->second->RenameParameter(old_, new_);
     }
 }
 
-- 
2.43.0


From 4e90b3ab4f8acd67f8ee239f3bdd87bcac650f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 15/93] fix: multiplying matrices leaves the left operand alone
 and keeps track of the shape

---
 src/core/DenseMatrix.cpp  |  4 ++++
 src/core/SparseMatrix.cpp | 11 ++++++++---
 src/core/SparseMatrix.h   |  2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index 83c7080..f8351dc 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -61,7 +61,11 @@ DenseMatrix::operator()(const std::vector<double> &input_) const
 DenseMatrix
 DenseMatrix::operator*=(const DenseMatrix &other_)
 {
+    if (fNCols != other_.fNRows)
+        throw DimensionError(Formatter() << "DenseMatrix::operator*= : Can't multiply (" << fNRows << "x" << fNCols
+                                         << ") by (" << other_.fNRows << "x" << other_.fNCols << ")");
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index d4a8284..ee74179 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -67,15 +67,20 @@ SparseMatrix::operator()(const std::vector<double> &input_) const
 SparseMatrix
 SparseMatrix::operator*=(const SparseMatrix &other_)
 {
+    if (fNCols != other_.fNRows)
+        throw DimensionError(Formatter() << "SparseMatrix::operator*= : Can't multiply (" << fNRows << "x" << fNCols
+                                         << ") by (" << other_.fNRows << "x" << other_.fNCols << ")");
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
 SparseMatrix
-SparseMatrix::operator*(const SparseMatrix &other_)
+SparseMatrix::operator*(const SparseMatrix &other_) const
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
-    return *this;
+    SparseMatrix product(*this);
+    product *= other_;
+    return product;
 }
 
 void SparseMatrix::SetZeros()
diff --git a/src/core/SparseMatrix.h b/src/core/SparseMatrix.h
index b95801e..8b684ca 100644
--- a/src/core/SparseMatrix.h
+++ b/src/core/SparseMatrix.h
@@ -26,7 +26,7 @@ public:
                       const std::vector<double> &values_);
 
    SparseMatrix operator*=(const SparseMatrix &other_);
-   SparseMatrix operator*(const SparseMatrix &other_);
+   SparseMatrix operator*(const SparseMatrix &other_) const;
    size_t GetNRows() const { return fNRows; }
    size_t GetNCols() const { return fNCols; }
    void SetZeros();
-- 
2.43.0


From b191c4a1ab443c775a3f4e67550754f678aa4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 16/93] fix: matrices refuse components outside them and
 identities that are not square

---
 src/core/DenseMatrix.cpp  | 2 +-
 src/core/SparseMatrix.cpp | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index f8351dc..1dd837f 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -78,7 +78,7 @@ void DenseMatrix::SetZeros()
 
 void DenseMatrix::SetToIdentity()
 {
-    if (!fNRows || !fNCols)
+    if (!fNRows || !fNCols || fNCols != fNRows)
         throw DimensionError(Formatter() << "DenseMatrix:: Can't set identity as matrix is not square. (rows,cols) : (" << fNRows << "," << fNCols << ")");
     fArmaMat.eye();
 }
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index ee74179..4737900 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -105,6 +105,14 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
     if (rowIndices_.size() != values_.size() || colIndices_.size() != values_.size())
         throw DimensionError("SparseMatrix::SetComponent() #values != #locations");
 
+    for (size_t i = 0; i < values_.size(); i++)
+        if (rowIndices_[i] >= fNRows || colIndices_[i] >= fNCols)
+            throw NotFoundError(Formatter()
+                                << "Attempted out of bounds access on  matrix ("
+                                << rowIndices_[i] << "," << colIndices_[i] << ")."
+                                << "Matrix is (" << fNRows << "x" << fNCols
+                                << ")");
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
-- 
2.43.0


From 26921c79e40271939c5819a224df32ff861cc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 17/93] fix: systematics match bins again when their axes or
 observables change

---
 src/systematic/Convolution.cpp | 4 ++--
 src/systematic/Convolution.h   | 3 +--
 src/systematic/Scale.h         | 3 +--
 src/systematic/ScaleFunction.h | 3 +--
 src/systematic/Shape.h         | 6 ++----
 src/systematic/Shift.h         | 3 +--
 src/systematic/Systematic.cpp  | 3 +++
 src/systematic/Systematic.h    | 3 +++
 8 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b22318f..c60ae2a 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -130,7 +130,7 @@ void Convolution::Construct()
     if (!fDist || !N)
         throw LogicError("Convolution::Construct() : Tried to construct convolution without axes or function/distribution, or both!!");
     // Only work out what the mapping from blocked index to true bin index if not cached already
-    if (!fCachedIndexPermutations)
+    if (!fCachedBinMapping)
         CacheIndexPermutations();
 
     // Work out the transition probabilitites within this sub set of the bins
@@ -224,7 +224,7 @@ void Convolution::CacheIndexPermutations()
         fColumnPerms.at(idx_blocked) = i;
     }
 
-    fCachedIndexPermutations = true;
+    fCachedBinMapping = true;
 }
 
 ///////////////////////////////
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 5cc7a2d..2cdad54 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -17,7 +17,7 @@ class Convolution : public Systematic
 {
 public:
    // Constructor/Destructor
-   Convolution(const std::string &name_) : fDist(NULL), fName(name_), fCachedIndexPermutations(false) {}
+   Convolution(const std::string &name_) : fDist(NULL), fName(name_) {}
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
@@ -43,7 +43,6 @@ private:
    ConditionalPDF *fDist; // kernel used in convolution
    std::string fName;     // name of this object
    // Members needed for efficient calculations:
-   bool fCachedIndexPermutations;                    // have we run the CacheIndexPermutations() method yet?
    AxisCollection fSubMapAxes;                       // axes in fAxes associated with fTransObs
    AxisCollection fNotSubMapAxes;                    // axes in fAxes NOT associated with fTransObs
    std::vector<long long unsigned int> fColumnPerms; // Mapping from blocked matrix bin index -> true bin index
diff --git a/src/systematic/Scale.h b/src/systematic/Scale.h
index eefca3e..e92adb5 100644
--- a/src/systematic/Scale.h
+++ b/src/systematic/Scale.h
@@ -10,7 +10,7 @@
 class Scale : public Systematic
 {
 public:
-   Scale(const std::string &name_) : fScaleFactor(1), fName(name_), fParamName("scaleFactor"), fCachedBinMapping(false) {}
+   Scale(const std::string &name_) : fScaleFactor(1), fName(name_), fParamName("scaleFactor") {}
    void SetScaleFactor(double);
    double GetScaleFactor() const;
 
@@ -37,7 +37,6 @@ private:
 
    std::vector<size_t> fDistTransBinMapping;
    DenseMatrix fMappingDistAndTrans;
-   bool fCachedBinMapping;
 
    void CacheBinMapping();
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
diff --git a/src/systematic/ScaleFunction.h b/src/systematic/ScaleFunction.h
index 52e9d70..941db10 100644
--- a/src/systematic/ScaleFunction.h
+++ b/src/systematic/ScaleFunction.h
@@ -20,7 +20,7 @@ typedef std::function<double(const ParameterDict &,
 class ScaleFunction : public Systematic
 {
 public:
-   ScaleFunction(const std::string &name_) : fScaleFunc(), fParamDict(), fName(name_), fCachedBinMapping(false) {}
+   ScaleFunction(const std::string &name_) : fScaleFunc(), fParamDict(), fName(name_) {}
 
    void SetScaleFunction(const ScaleFunc &scale_func,
                          const std::vector<std::string> &param_names);
@@ -48,7 +48,6 @@ private:
 
    std::vector<size_t> fDistTransBinMapping;
    DenseMatrix fMappingDistAndTrans;
-   bool fCachedBinMapping;
 
    void CacheBinMapping();
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 4f25d4c..2a0eb15 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -21,8 +21,7 @@ typedef std::function<double(const ParameterDict &,
 class Shape : public Systematic
 {
 public:
-    Shape(const std::string &name_) : fShapeFunc(), fParamDict(), fName(name_),
-                                      fCachedBinMapping(false) {}
+    Shape(const std::string &name_) : fShapeFunc(), fParamDict(), fName(name_) {}
 
     void SetShapeFunction(const ShapeFunction &shape_func,
                           const std::vector<std::string> &param_names);
@@ -50,8 +49,7 @@ private:
 
     AxisCollection fTransAxes;
     std::vector<size_t> fDistTransBinMapping;
-    bool fCachedBinMapping;
-
+ 
     void CacheBinMapping();
 };
 
diff --git a/src/systematic/Shift.h b/src/systematic/Shift.h
index 7e4a0e3..d4d9e08 100644
--- a/src/systematic/Shift.h
+++ b/src/systematic/Shift.h
@@ -10,7 +10,7 @@
 class Shift : public Systematic
 {
 public:
-   Shift(const std::string &name_) : fShift(1), fName(name_), fParamName("shift"), fCachedBinMapping(false) {}
+   Shift(const std::string &name_) : fShift(1), fName(name_), fParamName("shift") {}
    void SetShift(double);
    double GetShift() const;
 
@@ -37,7 +37,6 @@ private:
 
    std::vector<size_t> fDistTransBinMapping;
    DenseMatrix fMappingDistAndTrans;
-   bool fCachedBinMapping;
 
    void CacheBinMapping();
    double GetBinContribution(const BinAxis &shiftAxis, double shiftedLow,
diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index c83a9df..3e78df6 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -40,6 +40,7 @@ Systematic::GetResponse() const
 void Systematic::SetTransformationObs(const ObsSet &rep_)
 {
     fTransObs = rep_;
+    fCachedBinMapping = false;
 }
 
 ObsSet
@@ -51,6 +52,7 @@ Systematic::GetTransformationObs() const
 void Systematic::SetDistributionObs(const ObsSet &rep_)
 {
     fDistObs = rep_;
+    fCachedBinMapping = false;
 }
 
 ObsSet
@@ -94,5 +96,6 @@ Systematic::GetAxes() const
 void Systematic::SetAxes(const AxisCollection &axes_)
 {
     fAxes = axes_;
+    fCachedBinMapping = false;
     SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
 }
diff --git a/src/systematic/Systematic.h b/src/systematic/Systematic.h
index 6a5d323..e620986 100644
--- a/src/systematic/Systematic.h
+++ b/src/systematic/Systematic.h
@@ -19,6 +19,7 @@
 class Systematic : public FitComponent
 {
 public:
+   Systematic() : fCachedBinMapping(false) {}
    virtual ~Systematic() {}
 
    BinnedED
@@ -46,6 +47,8 @@ protected:
    // obs of the pdfs it will act on, needs to be at least the lenth of the
    // systematics representation
 
+   bool fCachedBinMapping; // is the mapping between the bins of the above up to date?
+
    // methods below used for index manipilation between pdf and response
    bool BinsCompatible(size_t bin1, size_t bin2) const;
    bool VectorContains(const std::vector<size_t> &, size_t) const;
-- 
2.43.0


From 17298619e4cf95e8e03f8e8e792de1c08d845904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 18/93] fix: convolutions accept their observables in any order

---
 src/systematic/Convolution.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index c60ae2a..4fbde0e 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -163,22 +163,19 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
      * convert to the bin number that would be used if we asserted that
      * we counted in the transformed axes first.
      */
-    if (relativeIndices.size() == fAxes.GetNDimensions())
-    {
-        return bin_index; // case where all axes are being transformed is trivial!
-    }
     // First - unpack indices for each axis
     const std::vector<size_t> bin_idxs = fAxes.UnpackIndices(bin_index);
     // Now split these indices into those within the transforing sub-collection, and those which aren't
+    // (the sub-collection has its axes in the order of the transformed observables)
     std::vector<size_t> bin_idxs_sub;
     std::vector<size_t> bin_idxs_notsub;
+    for (size_t i = 0; i < relativeIndices.size(); i++)
+    {
+        bin_idxs_sub.push_back(bin_idxs.at(relativeIndices.at(i)));
+    }
     for (size_t ax_idx = 0; ax_idx < fAxes.GetNDimensions(); ax_idx++)
     {
-        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) != std::end(relativeIndices))
-        {
-            bin_idxs_sub.push_back(bin_idxs.at(ax_idx));
-        }
-        else
+        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) == std::end(relativeIndices))
         {
             bin_idxs_notsub.push_back(bin_idxs.at(ax_idx));
         }
@@ -186,7 +183,7 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
     // Re-pack each individually, the combine to get bin index if going through transformed
     // sub-collection first
     const size_t idx_sub = fSubMapAxes.FlattenIndices(bin_idxs_sub);
-    const size_t idx_notsub = fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
+    const size_t idx_notsub = bin_idxs_notsub.empty() ? 0 : fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
     const size_t idx_blocked = idx_sub + idx_notsub * fSubMapAxes.GetNBins();
 
     return idx_blocked;
-- 
2.43.0


From 10b46d3746e0f784bbd65fec0313198d3f8b0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 19/93] fix: copies of a convolution own their kernel

---
 src/systematic/Convolution.cpp | 22 ++++++++++++++++++++++
 src/systematic/Convolution.h   |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index 4fbde0e..7264258 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -23,6 +23,28 @@ Convolution::~Convolution()
     delete fDist;
 }
 
+Convolution::Convolution(const Convolution &other_) : Systematic(other_), fName(other_.fName),
+                                                      fSubMapAxes(other_.fSubMapAxes), fNotSubMapAxes(other_.fNotSubMapAxes),
+                                                      fColumnPerms(other_.fColumnPerms)
+{
+    fDist = other_.fDist ? other_.fDist->Clone() : NULL;
+}
+
+Convolution &Convolution::operator=(const Convolution &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    Systematic::operator=(other_);
+    delete fDist;
+    fDist = other_.fDist ? other_.fDist->Clone() : NULL;
+    fName = other_.fName;
+    fSubMapAxes = other_.fSubMapAxes;
+    fNotSubMapAxes = other_.fNotSubMapAxes;
+    fColumnPerms = other_.fColumnPerms;
+    return *this;
+}
+
 void Convolution::ConstructSubmatrix(std::vector<long long unsigned int> &column_indices, std::vector<long long unsigned int> &row_indices,
                                      std::vector<double> &vals) const
 {
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 2cdad54..08aa9df 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -19,6 +19,8 @@ public:
    // Constructor/Destructor
    Convolution(const std::string &name_) : fDist(NULL), fName(name_) {}
    ~Convolution();
+   Convolution(const Convolution &);
+   Convolution &operator=(const Convolution &);
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
    void SetConditionalPDF(ConditionalPDF *function_); // ...Or create a ConditionalPDF object first yourself
-- 
2.43.0


From a0e22e8119e542f5340c4ef599f21f9796a9c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 20/93] fix: convolutions and shapes that are not set up are
 refused

---
 src/systematic/Convolution.cpp | 15 +++++++++++++++
 src/systematic/Convolution.h   |  1 +
 src/systematic/Shape.cpp       |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index 7264258..6148dfc 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -151,6 +151,8 @@ void Convolution::Construct()
     const size_t N = fAxes.GetNBins();
     if (!fDist || !N)
         throw LogicError("Convolution::Construct() : Tried to construct convolution without axes or function/distribution, or both!!");
+    if (!fTransObs.GetNObservables())
+        throw RepresentationError("Convolution::Construct() : No observables to transform!");
     // Only work out what the mapping from blocked index to true bin index if not cached already
     if (!fCachedBinMapping)
         CacheIndexPermutations();
@@ -252,24 +254,34 @@ void Convolution::CacheIndexPermutations()
 
 // Fitting this dist to data means adjusting the underlying function
 
+void Convolution::CheckKernel() const
+{
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the function/distribution to convolve with?");
+}
+
 void Convolution::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    CheckKernel();
     fDist->RenameParameter(old_, new_);
 }
 
 void Convolution::SetParameter(const std::string &name_, double value_)
 {
+    CheckKernel();
     fDist->SetParameter(name_, value_);
 }
 
 double
 Convolution::GetParameter(const std::string &name_) const
 {
+    CheckKernel();
     return fDist->GetParameter(name_);
 }
 
 void Convolution::SetParameters(const ParameterDict &ps_)
 {
+    CheckKernel();
     try
     {
         fDist->SetParameters(ps_);
@@ -283,18 +295,21 @@ void Convolution::SetParameters(const ParameterDict &ps_)
 ParameterDict
 Convolution::GetParameters() const
 {
+    CheckKernel();
     return fDist->GetParameters();
 }
 
 size_t
 Convolution::GetParameterCount() const
 {
+    CheckKernel();
     return fDist->GetParameterCount();
 }
 
 std::set<std::string>
 Convolution::GetParameterNames() const
 {
+    CheckKernel();
     return fDist->GetParameterNames();
 }
 
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 08aa9df..dd9ead8 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -49,6 +49,7 @@ private:
    AxisCollection fNotSubMapAxes;                    // axes in fAxes NOT associated with fTransObs
    std::vector<long long unsigned int> fColumnPerms; // Mapping from blocked matrix bin index -> true bin index
 
+   void CheckKernel() const;
    AxisCollection DetermineAxisSubCollection(const std::vector<size_t> &rel_indices) const;
    size_t BlockedBinningIndex(size_t bin_index, const std::vector<size_t> &relativeIndices) const;
    void CacheIndexPermutations();
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index b210796..69a7c90 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -30,6 +30,8 @@ void Shape::Construct()
     {
         throw LogicError("Shape::Construct(): Tried to construct response matrix without either a shape function defined, or an axis collection!");
     }
+    if (!fTransObs.GetNObservables())
+        throw RepresentationError("Shape::Construct(): No observables to transform!");
     // If haven't already, generate mapping from full pdf bin IDs
     //--> transforming subspace bin IDs
     if (!fCachedBinMapping)
-- 
2.43.0


From ca7f26d44ad0aaf05522c5f9364928a7990bf38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 21/93] fix: shape, scale function and renorm systematics keep
 to their own parameters

---
 src/systematic/Renorm.cpp        | 11 ++++++++---
 src/systematic/ScaleFunction.cpp | 11 ++++++++---
 src/systematic/Shape.cpp         | 11 ++++++++---
 src/systematic/Shape.h           |  2 +-
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index b48d08e..98877f8 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -47,17 +47,20 @@ double Renorm::GetParameter(const std::string &name_) const
 
 void Renorm::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the set may hold parameters of other components too, take only those known here
+    ParameterDict params = fParamDict;
+    for (auto &&pair : params)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Renorm: cannot set parameter " + pair.first);
+            throw ParameterError("Renorm: set dictionary is missing " + pair.first);
         }
     }
+    fParamDict = params;
 }
 
 std::set<std::string> Renorm::GetParameterNames() const
@@ -74,6 +77,8 @@ void Renorm::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Renorm: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Renorm: can't rename " + old_ + " to " + new_ + ", that parameter already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index bb5b815..3ea9cfe 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -98,17 +98,20 @@ ScaleFunction::GetParameter(const std::string &name_) const
 
 void ScaleFunction::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the set may hold parameters of other components too, take only those known here
+    ParameterDict params = fParamDict;
+    for (auto &&pair : params)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("ScaleFunction: cannot set parameter " + pair.first);
+            throw ParameterError("ScaleFunction: set dictionary is missing " + pair.first);
         }
     }
+    fParamDict = params;
 }
 
 std::set<std::string>
@@ -126,6 +129,8 @@ void ScaleFunction::RenameParameter(const std::string &old_, const std::string &
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("ScaleFunction: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("ScaleFunction: can't rename " + old_ + " to " + new_ + ", that parameter already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index 69a7c90..dcae0c3 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -85,17 +85,20 @@ double Shape::GetParameter(const std::string &name_) const
 
 void Shape::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the set may hold parameters of other components too, take only those known here
+    ParameterDict params = fParamDict;
+    for (auto &&pair : params)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Shift: cannot set parameter " + pair.first);
+            throw ParameterError("Shape: set dictionary is missing " + pair.first);
         }
     }
+    fParamDict = params;
 }
 
 std::set<std::string> Shape::GetParameterNames() const
@@ -112,6 +115,8 @@ void Shape::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Shift: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Shape: can't rename " + old_ + " to " + new_ + ", that parameter already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 2a0eb15..cbea095 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -49,7 +49,7 @@ private:
 
     AxisCollection fTransAxes;
     std::vector<size_t> fDistTransBinMapping;
- 
+
     void CacheBinMapping();
 };
 
-- 
2.43.0


From 6784b503001204dd8518ea031d6a9d740781de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 22/93] fix: a renormalisation starts out neutral instead of
 uninitialised

---
 src/systematic/Renorm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systematic/Renorm.h b/src/systematic/Renorm.h
index d44c918..7b981ce 100644
--- a/src/systematic/Renorm.h
+++ b/src/systematic/Renorm.h
@@ -9,7 +9,7 @@
 class Renorm : public Systematic
 {
 public:
-Renorm(const std::string &name_) : fParamDict(), fName(name_){}
+    Renorm(const std::string &name_) : fScaleFactor(1), fParamDict(), fName(name_) {}
     void Construct();
 
     void SetScaleFactor(double);
-- 
2.43.0


From 7cbf787516afac96c7f7e37e35d5a35241dcb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 23/93] fix: scale functions that decrease no longer lose the
 contents of bins

---
 src/systematic/ScaleFunction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index 3ea9cfe..8c2e3e4 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -1,4 +1,5 @@
 #include <ScaleFunction.h>
+#include <algorithm>
 #include <sstream>
 #include <DoubleParameter.h>
 #include <Exceptions.h>
@@ -47,8 +48,11 @@ void ScaleFunction::Construct()
     for (size_t bin = 0; bin < scaleAxis.GetNBins(); bin++)
     {
         // First - work out edges of scaled bin interval along axis
-        const double scaledLow = fScaleFunc(fParamDict, scaleAxis.GetBinLowEdge(bin));
-        const double scaledHigh = fScaleFunc(fParamDict, scaleAxis.GetBinHighEdge(bin));
+        // (a decreasing function swaps the two edges)
+        const double lowTo = fScaleFunc(fParamDict, scaleAxis.GetBinLowEdge(bin));
+        const double highTo = fScaleFunc(fParamDict, scaleAxis.GetBinHighEdge(bin));
+        const double scaledLow = std::min(lowTo, highTo);
+        const double scaledHigh = std::max(lowTo, highTo);
         // Then - which unscaled bins do these edges lie in?
         const size_t scaledLowIndex = scaleAxis.FindBin(scaledLow);
         const size_t scaledHighIndex = scaleAxis.FindBin(scaledHigh);
-- 
2.43.0


From 48914e28d5e4b00ff785773ebbc682eb69e273da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 24/93] fix: negative widths of a Gaussian are refused however
 they are set

---
 src/function/Gaussian.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 8e3b2e5..2a11bec 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -118,6 +118,8 @@ void Gaussian::SetStDev(const size_t &dim_, const double &value_)
 {
     if (dim_ >= fStdDevs.size())
         throw NotFoundError("Gaussian::Tried to set Gaussian stdDev beyond function dimensionality!");
+    if (value_ < 0)
+        throw ValueError("Gaussian::Gaussian standard deviation must not be negative!");
     fStdDevs[dim_] = value_;
 }
 
@@ -132,6 +134,9 @@ void Gaussian::SetStDevs(const std::vector<double> &stddevs_)
 {
     if (stddevs_.size() != fNDims)
         throw DimensionError("Gaussian::SetStDevs", fNDims, stddevs_.size());
+    for (const auto &std_dev : stddevs_)
+        if (std_dev < 0)
+            throw ValueError("Gaussian::Gaussian standard deviation must not be negative!");
     fStdDevs = stddevs_;
 }
 
-- 
2.43.0


From fd6b905e450923d98b4300cd2e8d801c42d79122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 25/93] fix: setting no components empties a sparse matrix
 instead of reading an empty vector

---
 src/core/SparseMatrix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index 4737900..9a104b1 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -113,6 +113,12 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
                                 << "Matrix is (" << fNRows << "x" << fNCols
                                 << ")");
 
+    if (values_.empty())
+    {
+        SetZeros();
+        return;
+    }
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
-- 
2.43.0


From d75eabfd7b7b235f76abfc002310d1dc4aa6e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 26/93] fix: systematic groups that do not exist are reported
 instead of read, and groups are counted

---
 src/fitutil/SystematicManager.cpp | 8 +++-----
 src/fitutil/SystematicManager.h   | 1 -
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 4b5fb6c..d1f7143 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -62,14 +62,12 @@ void SystematicManager::Add(Systematic *sys_, const std::string &groupName_)
         return;
     }
     fGroups[groupName_].push_back(sys_);
-    fNGroups = fGroups.size();
 }
 
 void SystematicManager::Add(Systematic *sys_)
 {
     checkAllOtherGroups(sys_);
     fGroups[""].push_back(sys_);
-    fNGroups = fGroups.size();
 }
 
 void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
@@ -113,7 +111,7 @@ void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
             if (allname.find(group.at(j)->GetName()) == allname.end())
                 allname.insert(group.at(j)->GetName());
             else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(i)->GetName() << " is in more than one group.");
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(j)->GetName() << " is in more than one group.");
         }
     }
     // Check the "" group only after everything else has been checked and
@@ -191,7 +189,7 @@ SystematicManager::GetNSystematicsInGroup(const std::string &name_) const
 {
     try
     {
-        return fGroups.find(name_)->second.size();
+        return fGroups.at(name_).size();
     }
     catch (const std::out_of_range &e_)
     {
@@ -280,5 +278,5 @@ SystematicManager::GetNSystematics() const
 size_t
 SystematicManager::GetNGroups() const
 {
-    return fNGroups;
+    return fGroups.size();
 }
diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 5cf43af..0e830d9 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -59,7 +59,6 @@ public:
    void Construct();
 
 private:
-   size_t fNGroups;
    std::map<std::string, SparseMatrix> fTotalReponses;
    std::map<std::string, std::vector<Systematic *>> fGroups;
 
-- 
2.43.0


From 5614b0d7bb2a8c99c4060ce400253501aad5d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 27/93] fix: a global systematic can be added after others were
 put in several groups

---
 src/fitutil/SystematicManager.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index d1f7143..92b4bb9 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -72,27 +72,16 @@ void SystematicManager::Add(Systematic *sys_)
 
 void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
 {
-    std::set<std::string> allname;
-    allname.insert(syss_->GetName());
-    for (size_t j = 0; j < fGroups.at("").size(); ++j)
-    {
-        if (allname.find(fGroups.at("").at(j)->GetName()) == allname.end())
-            allname.insert(fGroups.at("").at(j)->GetName());
-        else
-            throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << fGroups.at("").at(j)->GetName() << " is in the global systematic group more than once.");
-    }
+    // only the systematic being added matters here: the others may share groups between themselves
     for (std::map<std::string, std::vector<Systematic *>>::const_iterator i = fGroups.begin(); i != fGroups.end(); ++i)
     {
-        if (i->first == "")
-            continue;
         for (std::vector<Systematic *>::const_iterator sys = i->second.begin(); sys != i->second.end(); ++sys)
         {
-            if (allname.find((*sys)->GetName()) == allname.end())
-            {
-                allname.insert((*sys)->GetName());
-            }
-            else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << (*sys)->GetName() << " is in the another group and therefore can't be added to the global systematics.");
+            if ((*sys)->GetName() != syss_->GetName())
+                continue;
+            if (i->first == "")
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << syss_->GetName() << " is in the global systematic group more than once.");
+            throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << syss_->GetName() << " is in the another group and therefore can't be added to the global systematics.");
         }
     }
 }
-- 
2.43.0


From 968b27562e6a044790c064e104302f7fc221f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 28/93] fix: adding a systematic to a group so that it would be
 applied twice is refused in any order

---
 src/fitutil/SystematicManager.cpp | 29 +++++++++++++++++++++++++++++
 src/fitutil/SystematicManager.h   |  1 +
 2 files changed, 30 insertions(+)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 92b4bb9..0b8918a 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -1,6 +1,7 @@
 #include <SystematicManager.h>
 #include <Exceptions.h>
 #include <Formatter.hpp>
+#include <algorithm>
 #include <ContainerTools.hpp>
 
 using ContainerTools::GetKeys;
@@ -61,6 +62,7 @@ void SystematicManager::Add(Systematic *sys_, const std::string &groupName_)
         Add(sys_);
         return;
     }
+    checkNotAppliedTwice(sys_, groupName_);
     fGroups[groupName_].push_back(sys_);
 }
 
@@ -86,6 +88,33 @@ void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
     }
 }
 
+void SystematicManager::checkNotAppliedTwice(const Systematic *syss_, const std::string &groupName_)
+{
+    // groups whose systematics act together with those of this one: itself, the global one
+    // and any that a distribution is in as well
+    std::set<std::string> together;
+    together.insert("");
+    together.insert(groupName_);
+    for (std::map<std::string, std::vector<std::string>>::const_iterator it = fEDGroups.begin(); it != fEDGroups.end(); ++it)
+    {
+        if (std::find(it->second.begin(), it->second.end(), groupName_) != it->second.end())
+            together.insert(it->second.begin(), it->second.end());
+    }
+
+    for (std::set<std::string>::const_iterator name = together.begin(); name != together.end(); ++name)
+    {
+        if (fGroups.find(*name) == fGroups.end())
+            continue;
+        const std::vector<Systematic *> &group = fGroups.at(*name);
+        for (size_t i = 0; i < group.size(); i++)
+        {
+            if (group.at(i)->GetName() == syss_->GetName())
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << syss_->GetName() << " is already in group \"" << *name
+                                                << "\" and would be applied twice if added to " << groupName_);
+        }
+    }
+}
+
 void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
 {
     std::set<std::string> allname;
diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 0e830d9..b955341 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -65,6 +65,7 @@ private:
    std::map<std::string, std::vector<std::string>> fEDGroups;
    void UniqueSystematics(const std::vector<std::string> &);
    void checkAllOtherGroups(const Systematic *syss_);
+   void checkNotAppliedTwice(const Systematic *syss_, const std::string &groupName_);
    size_t CountNSystematics() const;
 };
 #endif
-- 
2.43.0


From 502c4d133175358af6c989835725d4efd8eb8dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 29/93] fix: distributions without systematics keep their
 contents and normalisation when distorting

---
 src/fitutil/SystematicManager.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 0b8918a..b6a4cd3 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -162,16 +162,24 @@ void SystematicManager::DistortEDs(const std::vector<BinnedED> &OrignalEDs_,
                                    std::vector<BinnedED> &WorkingEDs_,
                                    std::vector<double> *norms) const
 {
+    if (norms != nullptr && norms->size() < WorkingEDs_.size())
+        norms->resize(WorkingEDs_.size(), 0);
+
     for (size_t j = 0; j < WorkingEDs_.size(); j++)
     {
         const std::string name = OrignalEDs_.at(j).GetName();
 
-        if (fEDGroups.find(name) == fEDGroups.end())
-            continue;
-
         // Copy EDs because WorkingED_s have to have the same binning as OrignalEDs_s.
         WorkingEDs_[j] = OrignalEDs_.at(j);
 
+        // No systematics act on distributions that haven't been added
+        if (fEDGroups.find(name) == fEDGroups.end())
+        {
+            if (norms != nullptr)
+                norms->at(j) = WorkingEDs_.at(j).Integral();
+            continue;
+        }
+
         // If we haven't explicitly added the "" group to this dist's fEDGroups, apply that group first
         if (std::find(fEDGroups.at(name).begin(), fEDGroups.at(name).end(), "") == fEDGroups.at(name).end() && fGroups.at("").size())
         {
@@ -195,7 +203,7 @@ void SystematicManager::DistortEDs(const std::vector<BinnedED> &OrignalEDs_,
         }
         if (norms != nullptr)
         {
-            norms->operator[](j) = WorkingEDs_.at(j).Integral();
+            norms->at(j) = WorkingEDs_.at(j).Integral();
         }
     }
 }
-- 
2.43.0


From 1226fd25720984fa766065fdb1bf677c4b048f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 30/93] fix: a shrinker's bin map is rebuilt when set again
 instead of being appended to

---
 src/fitutil/BinnedEDShrinker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index eb585d5..c531370 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -68,6 +68,11 @@ void BinnedEDShrinker::SetBinMap(const BinnedED &dist_)
   if (!fBuffers.size())
     return;
 
+  // start afresh, nothing is kept from distributions mapped earlier
+  fNewAxes = AxisCollection();
+  fBinVec.clear();
+  fUseContent.clear();
+
   size_t nDims = dist_.GetNDims();
 
   // FIXME Add a check to see if the non zero entries of fBuffers are in the pdf and give warning
@@ -138,6 +143,9 @@ BinnedEDShrinker::ShrinkDist(const BinnedED &dist_) const
   if (!fBuffers.size())
     return dist_;
 
+  if (dist_.GetNBins() != fBinVec.size())
+    throw DimensionError("BinnedEDShrinker::ShrinkDist, has the bin map been set for this binning?", fBinVec.size(), dist_.GetNBins());
+
   // Initialise the new pdf with same observables
 
   BinnedED newDist(dist_.GetName() + "_shrunk", fNewAxes);
-- 
2.43.0


From 8970f7a973982154a7dd0766bbbcfa87b23dbe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 31/93] fix: fitted normalisations go to their own pdf when
 fitting modes are mixed

---
 src/fitutil/BinnedEDManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 6de255d..1610a7f 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -315,11 +315,14 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
         size_t j = 0;
         for (size_t i = 0; i < fNormalisations.size(); i++)
         {
+            if (fAllowNormsFittable.at(i) == FALSE)
+                continue;
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
             {
                 fNormalisations[i] = fFittableNorms.at(j);
-                j++;
             }
+            // every fitted normalisation takes one place in the list, whichever the mode
+            j++;
         }
     }
 }
-- 
2.43.0


From 05aa3807e2b17ad45f37340c52123225d650f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 32/93] fix: normalisations and working pdfs no longer depend
 on earlier evaluations

---
 src/fitutil/BinnedEDManager.cpp | 76 ++++++++++++++++-----------------
 src/fitutil/BinnedEDManager.h   |  5 ++-
 2 files changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 1610a7f..397ce48 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -90,11 +90,21 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
 {
-    // If there are no systematics dont do anything
-    //  ( working pdfs = original pdfs from initialisation)
+    // Always start from the original pdfs: nothing done to the working ones before may be left,
+    // neither in them nor in the normalisations that come from them
+    fEfficiencies.assign(fOriginalPdfs.size(), 1);
+    const bool workingChanged = fWorkingChanged;
+    fWorkingChanged = false;
+    fShrunk = false;
 
     if (!sysMan_.GetNSystematics())
+    {
+        if (workingChanged)
+            fWorkingPdfs = fOriginalPdfs;
+        ReassertNorms();
         return;
+    }
+    fWorkingChanged = true;
     if (fAllNormsDirFittable)
     {
         sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs);
@@ -105,15 +115,10 @@ void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
         sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs, &norms);
         for (size_t i = 0; i < norms.size(); i++)
         {
-            if (fAllowNormsFittable.at(i) == FALSE)
-            {
-                fNormalisations[i] = norms.at(i);
-            }
-            else if (fAllowNormsFittable.at(i) == INDIRECT)
-            {
-                fNormalisations[i] *= norms.at(i);
-            }
+            if (fAllowNormsFittable.at(i) == INDIRECT)
+                fEfficiencies[i] = norms.at(i);
         }
+        ReassertNorms();
     }
 }
 
@@ -130,6 +135,11 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     fNPdfs++;
     fNormalisations.resize(fOriginalPdfs.size(), 0);
     fAllowNormsFittable.push_back(norm_fitting_status);
+    fEfficiencies.push_back(1);
+    if (norm_fitting_status == FALSE)
+    {
+        fNormalisations.back() = pdf_.Integral();
+    }
     if (norm_fitting_status)
     {
         fFittableNorms.push_back(0);
@@ -176,22 +186,9 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
     if (!shrinker_.GetBuffers().size())
         return;
 
-    // If the number of bins in the working PDFs =/= the number of bins in the corresponding original PDF, it's likely the
-    // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
-    // we check if the bins equals the original number minus the shrinking, and if it has we assume the shrinking has already
-    // been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened! For these
-    // tests we assume the buffer and number of bins are the same for all PDFs so just look at the 0th element
-    int bufferBins = 0;
-    std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
-    for (std::map<std::string, std::pair<unsigned, unsigned>>::iterator it = bufferMap.begin(); it != bufferMap.end(); ++it)
-    {
-        bufferBins += it->second.first;
-        bufferBins += it->second.second;
-    }
-    if (fWorkingPdfs.at(0).GetNBins() == fOriginalPdfs.at(0).GetNBins() - bufferBins)
+    // If the working pdfs have been shrunk already since they were last made from the original ones, leave them
+    if (fShrunk)
         return;
-    else if (fWorkingPdfs.at(0).GetNBins() != fOriginalPdfs.at(0).GetNBins() )
-        throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
 
     for (size_t i = 0; i < fWorkingPdfs.size(); i++)
     {
@@ -203,24 +200,17 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
         // Normalise if normalisation is a fittable param, but if indirect then track any change
         if (fAllowNormsFittable.at(i) == DIRECT)
         {
-            fWorkingPdfs[i].Normalise();
+            if (integral_after != 0.)
+                fWorkingPdfs[i].Normalise();
         }
-        else if (fAllowNormsFittable.at(i) == FALSE)
+        else if (fAllowNormsFittable.at(i) == INDIRECT)
         {
-            fNormalisations[i] = integral_after;
-        }
-        else
-        {
-            if (integral_before == 0. && integral_after == 0.)
-            {
-                fNormalisations[i] = 0.;
-            }
-            else
-            {
-                fNormalisations[i] *= integral_after / integral_before;
-            }
+            fEfficiencies[i] *= (integral_before == 0.) ? 0. : integral_after / integral_before;
         }
     }
+    fShrunk = true;
+    fWorkingChanged = true;
+    ReassertNorms();
 }
 
 ////////////////////////////////
@@ -316,10 +306,15 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
         for (size_t i = 0; i < fNormalisations.size(); i++)
         {
             if (fAllowNormsFittable.at(i) == FALSE)
+            {
+                // held by the pdf itself, which doesn't change while probabilities are looked up
+                if (!calcing_binprob)
+                    fNormalisations[i] = fWorkingPdfs.at(i).Integral();
                 continue;
+            }
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
             {
-                fNormalisations[i] = fFittableNorms.at(j);
+                fNormalisations[i] = fFittableNorms.at(j) * (calcing_binprob ? 1 : fEfficiencies.at(i));
             }
             // every fitted normalisation takes one place in the list, whichever the mode
             j++;
@@ -340,6 +335,7 @@ void BinnedEDManager::AssertDimensions(const std::vector<std::string> &observabl
         if (working_pdf.GetObservables() != observables)
         {
             working_pdf = working_pdf.Marginalise(observables);
+            fWorkingChanged = true;
         }
     }
 }
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 18ccce7..49087e4 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,7 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fWorkingChanged(false), fShrunk(false), fNPdfs(0), fName("norms") {}
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
@@ -65,7 +65,10 @@ private:
    std::vector<double> fNormalisations;
    std::vector<NormFittingStatus> fAllowNormsFittable;
    std::vector<double> fFittableNorms;
+   std::vector<double> fEfficiencies; // change of each indirectly fitted norm by systematics and shrinking
    bool fAllNormsDirFittable;
+   bool fWorkingChanged; // have the working pdfs been changed since they were copied from the original ones?
+   bool fShrunk;         // ..and have they been shrunk?
    int fNPdfs;
    size_t fNDims;
 
-- 
2.43.0


From 8d3712d12a9a2c64fa89043ecbf6a9b02589caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 33/93] fix: setting normalisations also sets the fitted ones,
 and adding a pdf keeps those set before

---
 src/fitutil/BinnedEDManager.cpp | 12 ++++++++++++
 src/fitutil/BinnedEDManager.h   |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 397ce48..cd1d5db 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -86,6 +86,11 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
     if (normalisations_.size() != fOriginalPdfs.size())
         throw LogicError("BinnedEDManager: number of norms doesn't match #pdfs");
     fNormalisations = normalisations_;
+    // the fitted ones are these, not a separate set
+    size_t j = 0;
+    for (size_t i = 0; i < fAllowNormsFittable.size(); i++)
+        if (fAllowNormsFittable.at(i) != FALSE)
+            fFittableNorms[j++] = normalisations_.at(i);
 }
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
@@ -130,6 +135,13 @@ BinnedEDManager::GetOriginalPdf(size_t index_) const
 
 void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_fitting_status)
 {
+    // the values set so far live in fNormalisations as long as all are directly fitted
+    if (fAllNormsDirFittable && norm_fitting_status != DIRECT)
+        fFittableNorms = fNormalisations;
+
+    if (!fOriginalPdfs.size())
+        fNDims = pdf_.GetNDims();
+
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 49087e4..2493e46 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,7 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fWorkingChanged(false), fShrunk(false), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fWorkingChanged(false), fShrunk(false), fNPdfs(0), fNDims(0), fName("norms") {}
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
-- 
2.43.0


From 995a0628fa1164598fe05d5acbd83c491e894161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 34/93] fix: copies of a pdf manager have parameters, their own
 normalisations

---
 src/fitutil/BinnedEDManager.cpp | 24 ++++++++++++++++++++++++
 src/fitutil/BinnedEDManager.h   |  4 ++++
 2 files changed, 28 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index cd1d5db..0e4d471 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -5,6 +5,30 @@
 #include <Exceptions.h>
 #include <sstream>
 
+BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_)
+{
+    *this = other_;
+}
+
+BinnedEDManager &
+BinnedEDManager::operator=(const BinnedEDManager &other_)
+{
+    fOriginalPdfs = other_.fOriginalPdfs;
+    fWorkingPdfs = other_.fWorkingPdfs;
+    fNormalisations = other_.fNormalisations;
+    fAllowNormsFittable = other_.fAllowNormsFittable;
+    fFittableNorms = other_.fFittableNorms;
+    fEfficiencies = other_.fEfficiencies;
+    fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fWorkingChanged = other_.fWorkingChanged;
+    fShrunk = other_.fShrunk;
+    fNPdfs = other_.fNPdfs;
+    fNDims = other_.fNDims;
+    fName = other_.fName;
+    RegisterParameters();
+    return *this;
+}
+
 unsigned
 BinnedEDManager::GetNPdfs() const
 {
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 2493e46..50e9eb5 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -24,6 +24,10 @@ class BinnedEDManager : public FitComponent
 public:
    BinnedEDManager() : fAllNormsDirFittable(true), fWorkingChanged(false), fShrunk(false), fNPdfs(0), fNDims(0), fName("norms") {}
 
+   // the parameters of a copy are its own normalisations
+   BinnedEDManager(const BinnedEDManager &);
+   BinnedEDManager &operator=(const BinnedEDManager &);
+
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
                 const std::vector<NormFittingStatus> *norm_fitting_statuses = nullptr);
-- 
2.43.0


From 0fc23bd7a455d01800448031c2e57b1bb386d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 35/93] fix: copies of a distribution manager own their
 distributions

---
 src/fitutil/EDManager.cpp | 25 +++++++++++++++++++++++++
 src/fitutil/EDManager.h   |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 79054c4..a2ebb0e 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -3,6 +3,31 @@
 #include <Event.h>
 #include <Exceptions.h>
 
+EDManager::EDManager(const EDManager &other_) : fNDists(0), fNDims(0)
+{
+    *this = other_;
+}
+
+EDManager &
+EDManager::operator=(const EDManager &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    for (size_t i = 0; i < fDists.size(); i++)
+        delete fDists[i];
+    fDists.clear();
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        fDists.push_back(other_.fDists[i]->Clone());
+
+    fNDists = other_.fNDists;
+    fNDims = other_.fNDims;
+    fNormalisations = other_.fNormalisations;
+    fName = other_.fName;
+    RegisterParameters();
+    return *this;
+}
+
 EDManager::~EDManager()
 {
     for (size_t i = 0; i < fDists.size(); i++)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 53d468e..dda0977 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -11,6 +11,8 @@ class EDManager : public FitComponent
 {
 public:
    EDManager() : fNDists(0), fNDims(0), fName("norms") {}
+   EDManager(const EDManager &); // takes copies of the pdfs
+   EDManager &operator=(const EDManager &);
    ~EDManager(); // free pdf copies
 
    void AddDist(EventDistribution *); // take a copy
-- 
2.43.0


From 53b8671b640042fcbd1adad6e5e44ae66675ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 36/93] fix: data set, binned or given buffers after an
 evaluation is shrunk again, from its original bins

---
 src/teststat/BinnedNLLH.cpp | 20 ++++++++++++--------
 src/teststat/BinnedNLLH.h   |  1 +
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8e18591..0f6be73 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -22,7 +22,7 @@ BinnedNLLH::Evaluate()
     if (!fAlreadyShrunk)
     {
         fPdfShrinker.SetBinMap(fDataDist);
-        fDataDist = fPdfShrinker.ShrinkDist(fDataDist);
+        fShrunkDataDist = fPdfShrinker.ShrinkDist(fDataDist);
         fAlreadyShrunk = true;
     }
 
@@ -30,7 +30,7 @@ BinnedNLLH::Evaluate()
     // Apply systematics
     fPdfManager.ApplySystematics(GetSystematicManager());
     // Marginalise pdfs back to observable dimensions only, if necessary
-    fPdfManager.AssertDimensions(fDataDist.GetObservables());
+    fPdfManager.AssertDimensions(fShrunkDataDist.GetObservables());
     // Apply Shrinking
     fPdfManager.ApplyShrink(fPdfShrinker);
 
@@ -43,7 +43,7 @@ BinnedNLLH::Evaluate()
     }
     double nLogLH = 0;
 
-    for (size_t i = 0; i < fDataDist.GetNBins(); i++)
+    for (size_t i = 0; i < fShrunkDataDist.GetNBins(); i++)
     {
 
         double prob = fPdfManager.BinProbability(i);
@@ -77,7 +77,7 @@ BinnedNLLH::Evaluate()
             // b in quadratic
             double b = prob * sigma2 - 1;
             // b^2-4ac in quadratic
-            double det = b * b + 4 * fDataDist.GetBinContent(i) * sigma2;
+            double det = b * b + 4 * fShrunkDataDist.GetBinContent(i) * sigma2;
 
             if (det < 0.)
             { // imaginary roots
@@ -88,7 +88,7 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = fDataDist.GetBinContent(i) * sigma2 / q;
+            double x2 = fShrunkDataDist.GetBinContent(i) * sigma2 / q;
 
             double beta = (x1 > x2) ? x1 : x2;
 
@@ -101,11 +101,11 @@ BinnedNLLH::Evaluate()
         if (GetDebugMode())
         {
             std::cout << "Bin " << i << ", MC bin probability: " << prob << ", data bin probability: ";
-            std::cout << fDataDist.GetBinContent(i) << std::endl;
+            std::cout << fShrunkDataDist.GetBinContent(i) << std::endl;
         }
 
         // LogL = mu_i - data * log(update MC) + Beta Penalty + Norm Correction
-        nLogLH = nLogLH - fDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
+        nLogLH = nLogLH - fShrunkDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
     }
 
     if (GetDebugMode())
@@ -129,6 +129,7 @@ void BinnedNLLH::BinData()
     fDataDist.Empty();
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
+    fAlreadyShrunk = false;
     SetCalculatedDataDist(true);
     SetSignalCutLog(log);
 }
@@ -276,13 +277,14 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
+    fAlreadyShrunk = false;
     SetCalculatedDataDist(true);
 }
 
 BinnedED
 BinnedNLLH::GetDataDist() const
 {
-    return fDataDist;
+    return fAlreadyShrunk ? fShrunkDataDist : fDataDist;
 }
 
 void BinnedNLLH::SetBarlowBeeston(const bool useBarlowBeeston_)
@@ -293,6 +295,7 @@ void BinnedNLLH::SetBarlowBeeston(const bool useBarlowBeeston_)
 void BinnedNLLH::SetBuffer(const std::string &dim_, unsigned lower_, unsigned upper_)
 {
     fPdfShrinker.SetBuffer(dim_, lower_, upper_);
+    fAlreadyShrunk = false;
 }
 
 std::pair<unsigned, unsigned>
@@ -304,6 +307,7 @@ BinnedNLLH::GetBuffer(const std::string &dim_) const
 void BinnedNLLH::SetBufferAsOverflow(bool b_)
 {
     fPdfShrinker.SetUsingOverflows(b_);
+    fAlreadyShrunk = false;
 }
 
 bool BinnedNLLH::GetBufferAsOverflow() const
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index c50f5b7..dec1aca 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -51,6 +51,7 @@ private:
    BinnedEDShrinker fPdfShrinker;
 
    BinnedED fDataDist;
+   BinnedED fShrunkDataDist; // the above without the buffer bins, once fAlreadyShrunk
    bool fCalculatedDataDist;
    bool fAlreadyShrunk;
 
-- 
2.43.0


From 3dd3cb2a08d297ad5eb279d71fa3311766533ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 37/93] fix: the data set is binned again when cuts or pdfs are
 set after an evaluation

---
 src/teststat/BinnedNLLH.cpp    | 8 +++++++-
 src/teststat/BinnedNLLH.h      | 3 ++-
 src/teststat/TestStatistic.cpp | 2 ++
 src/teststat/TestStatistic.h   | 5 ++++-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 0f6be73..c9548e1 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -15,7 +15,7 @@ BinnedNLLH::Evaluate()
     if (!GetDataSet() && !GetCalculatedDataDist())
         throw LogicError("BinnedNNLH function called with no data set and no DataDist! set one of these first");
 
-    if (!GetCalculatedDataDist())
+    if (!GetCalculatedDataDist() || (fDataDistBinned && fCutsChanged))
         BinData();
     // Make sure that normalisation params in PDF Manager are setup correctly
     fPdfManager.ReassertNorms();
@@ -130,6 +130,8 @@ void BinnedNLLH::BinData()
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
     fAlreadyShrunk = false;
+    fDataDistBinned = true;
+    fCutsChanged = false;
     SetCalculatedDataDist(true);
     SetSignalCutLog(log);
 }
@@ -278,6 +280,7 @@ void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
     fAlreadyShrunk = false;
+    fDataDistBinned = false;
     SetCalculatedDataDist(true);
 }
 
@@ -372,4 +375,7 @@ BinnedNLLH::GetParameterNames() const
 void BinnedNLLH::SetPdfManager(const BinnedEDManager &man_)
 {
     fPdfManager = man_;
+    // data is binned like the pdfs
+    if (fDataDistBinned)
+        SetCalculatedDataDist(false);
 }
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index dec1aca..b5646c7 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -10,7 +10,7 @@ class DataSet;
 class BinnedNLLH : public TestStatistic
 {
 public:
-   BinnedNLLH() : fAlreadyShrunk(false) {}
+   BinnedNLLH() : fAlreadyShrunk(false), fDataDistBinned(false) {}
 
    void SetPdfManager(const BinnedEDManager &);
 
@@ -54,6 +54,7 @@ private:
    BinnedED fShrunkDataDist; // the above without the buffer bins, once fAlreadyShrunk
    bool fCalculatedDataDist;
    bool fAlreadyShrunk;
+   bool fDataDistBinned; // is it made from the data set, as opposed to set directly?
 
    std::vector<unsigned int> fGenRates;
    bool fUseBarlowBeeston = false;
diff --git a/src/teststat/TestStatistic.cpp b/src/teststat/TestStatistic.cpp
index a34f90b..cbc851d 100644
--- a/src/teststat/TestStatistic.cpp
+++ b/src/teststat/TestStatistic.cpp
@@ -130,11 +130,13 @@ bool TestStatistic::GetCalculatedDataDist()
 void TestStatistic::AddCut(const Cut &cut_)
 {
     fCuts.AddCut(cut_);
+    fCutsChanged = true;
 }
 
 void TestStatistic::SetCuts(const CutCollection &cuts_)
 {
     fCuts = cuts_;
+    fCutsChanged = true;
 }
 
 CutCollection TestStatistic::GetCuts()
diff --git a/src/teststat/TestStatistic.h b/src/teststat/TestStatistic.h
index cd8cd9a..5a9d33f 100644
--- a/src/teststat/TestStatistic.h
+++ b/src/teststat/TestStatistic.h
@@ -21,7 +21,7 @@
 class TestStatistic
 {
 public:
-    TestStatistic() : fCalculatedDataDist(false), fDataSet(NULL), fSignalCutEfficiency(1), fDebugMode(false) {}
+    TestStatistic() : fCutsChanged(false), fCalculatedDataDist(false), fDataSet(NULL), fSignalCutEfficiency(1), fDebugMode(false) {}
 
     virtual ~TestStatistic();
 
@@ -77,6 +77,9 @@ public:
     // Set up all the components for a fit
     virtual void RegisterFitComponents() = 0;
 
+protected:
+    bool fCutsChanged; // since this was last reset
+
 private:
     SystematicManager fSystematicManager;
     ConstraintManager fConstraintManager;
-- 
2.43.0


From 59322110944685bb5bf0b945dc3a6382dd618dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 38/93] fix: a pdf refused because of its systematic groups is
 not half added

---
 src/teststat/BinnedNLLH.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index c9548e1..0abb0d4 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -244,16 +244,16 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 {
     if (fUseBarlowBeeston)
         throw OXSXException(Formatter() << "BinnedNLLH:: Must set generated rates if using Barlow-Beeston");
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, syss_);
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
 }
 
 void BinnedNLLH::AddPdf(const BinnedED &pdf_,
                         const int &genrate_,
                         const NormFittingStatus norm_fitting_status)
 {
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, "");
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     fGenRates.push_back(genrate_);
 }
 
@@ -262,8 +262,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 {
     if (fUseBarlowBeeston)
         throw OXSXException(Formatter() << "BinnedNLLH:: Must set generated rates if using Barlow-Beeston");
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, "");
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
 }
 
 void BinnedNLLH::AddPdf(const BinnedED &pdf_,
@@ -271,8 +271,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
                         const int &genrate_,
                         const NormFittingStatus norm_fitting_status)
 {
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, syss_);
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     fGenRates.push_back(genrate_);
 }
 
-- 
2.43.0


From 33a0459ad9a57cfdf91ac56e24b752ff7e4e624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 39/93] fix: Barlow-Beeston is finite for bins without data

---
 src/teststat/BinnedNLLH.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 0abb0d4..14a1c6a 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -88,7 +88,8 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = fShrunkDataDist.GetBinContent(i) * sigma2 / q;
+            // (q is zero only if there is no data, then so is the other root)
+            double x2 = (q == 0.) ? 0. : fShrunkDataDist.GetBinContent(i) * sigma2 / q;
 
             double beta = (x1 > x2) ? x1 : x2;
 
@@ -105,7 +106,10 @@ BinnedNLLH::Evaluate()
         }
 
         // LogL = mu_i - data * log(update MC) + Beta Penalty + Norm Correction
-        nLogLH = nLogLH - fShrunkDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
+        // (bins without data have no log term, even if beta is zero)
+        if (fShrunkDataDist.GetBinContent(i) != 0.)
+            nLogLH -= fShrunkDataDist.GetBinContent(i) * log(newProb);
+        nLogLH += penalty + newProb;
     }
 
     if (GetDebugMode())
-- 
2.43.0


From fb7f4a4d0f9a8582b6f4f731e2afc6de7ec120f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 40/93] fix: the fit components of a copied likelihood are its
 own

---
 src/teststat/BinnedNLLH.cpp | 22 ++++++++++++++++++++++
 src/teststat/BinnedNLLH.h   |  5 ++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 14a1c6a..abd9ac7 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -9,6 +9,28 @@
 #include <iostream>
 #include <Formatter.hpp>
 
+BinnedNLLH::BinnedNLLH(const BinnedNLLH &other_)
+{
+    *this = other_;
+}
+
+BinnedNLLH &
+BinnedNLLH::operator=(const BinnedNLLH &other_)
+{
+    TestStatistic::operator=(other_);
+    fPdfManager = other_.fPdfManager;
+    fPdfShrinker = other_.fPdfShrinker;
+    fDataDist = other_.fDataDist;
+    fShrunkDataDist = other_.fShrunkDataDist;
+    fAlreadyShrunk = other_.fAlreadyShrunk;
+    fDataDistBinned = other_.fDataDistBinned;
+    fGenRates = other_.fGenRates;
+    fUseBarlowBeeston = other_.fUseBarlowBeeston;
+    if (GetComponentManager().GetComponentCount())
+        RegisterFitComponents();
+    return *this;
+}
+
 double
 BinnedNLLH::Evaluate()
 {
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index b5646c7..e242c37 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -12,6 +12,10 @@ class BinnedNLLH : public TestStatistic
 public:
    BinnedNLLH() : fAlreadyShrunk(false), fDataDistBinned(false) {}
 
+   // the fit components of a copy are its own
+   BinnedNLLH(const BinnedNLLH &);
+   BinnedNLLH &operator=(const BinnedNLLH &);
+
    void SetPdfManager(const BinnedEDManager &);
 
    void SetNormalisations(const std::vector<double> &norms_);
@@ -52,7 +56,6 @@ private:
 
    BinnedED fDataDist;
    BinnedED fShrunkDataDist; // the above without the buffer bins, once fAlreadyShrunk
-   bool fCalculatedDataDist;
    bool fAlreadyShrunk;
    bool fDataDistBinned; // is it made from the data set, as opposed to set directly?
 
-- 
2.43.0


From 5059f0e1e04cb3477ae75a75a3e66c42ba819d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 41/93] fix: distributions or parameters with a name already
 taken are refused

---
 src/core/ParameterManager.cpp   | 8 +++++++-
 src/fitutil/BinnedEDManager.cpp | 5 +++++
 src/fitutil/EDManager.cpp       | 5 +++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index c26c45d..c996191 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -54,12 +54,18 @@ ParameterManager::GetParameterCount() const
 
 void ParameterManager::Add(FitParameter *p_, const std::string &n_)
 {
+    // the manager owns its parameters: don't lose one to another of the same name
+    if (HasKey(fParamPtrs, n_))
+    {
+        delete p_;
+        throw ParameterError("Can't add " + n_ + " : parameter already exists! Available: \n" + ToString(GetKeys(fParamPtrs)));
+    }
     fParamPtrs[n_] = p_;
 }
 
 void ParameterManager::AddDouble(double &d_, const std::string &n_)
 {
-    fParamPtrs[n_] = new DoubleParameter(d_);
+    Add(new DoubleParameter(d_), n_);
 }
 
 void ParameterManager::Clear()
diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 0e4d471..dcb2fa3 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -159,6 +159,11 @@ BinnedEDManager::GetOriginalPdf(size_t index_) const
 
 void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_fitting_status)
 {
+    // parameters are known by the names of the pdfs
+    for (size_t i = 0; i < fOriginalPdfs.size(); i++)
+        if (fOriginalPdfs.at(i).GetName() == pdf_.GetName())
+            throw ParameterError("BinnedEDManager::AddPdf, there is already a pdf called " + pdf_.GetName());
+
     // the values set so far live in fNormalisations as long as all are directly fitted
     if (fAllNormsDirFittable && norm_fitting_status != DIRECT)
         fFittableNorms = fNormalisations;
diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index a2ebb0e..01e232d 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -43,6 +43,11 @@ void EDManager::AddDist(EventDistribution *pdf_)
         throw DimensionError("EDManager::AddDist", fNDims, pdf_->GetNDims(),
                              " dimensions in added pdf");
 
+    // parameters are known by the names of the pdfs
+    for (size_t i = 0; i < fDists.size(); i++)
+        if (fDists.at(i)->GetName() == pdf_->GetName())
+            throw ParameterError("EDManager::AddDist, there is already a distribution called " + pdf_->GetName());
+
     fDists.push_back(pdf_->Clone());
     fNDists++;
     fNormalisations.resize(fNDists, 0);
-- 
2.43.0


From efbe68bcdd947781c3d781bda0d69c61ab706c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 42/93] fix: directly fitted normalisations are up to date
 before any bin is looked up

---
 src/fitutil/BinnedEDManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index dcb2fa3..3ebf64c 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -353,10 +353,10 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
                     fNormalisations[i] = fWorkingPdfs.at(i).Integral();
                 continue;
             }
-            if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
-            {
-                fNormalisations[i] = fFittableNorms.at(j) * (calcing_binprob ? 1 : fEfficiencies.at(i));
-            }
+            if (fAllowNormsFittable.at(i) == DIRECT)
+                fNormalisations[i] = fFittableNorms.at(j);
+            else if (!calcing_binprob)
+                fNormalisations[i] = fFittableNorms.at(j) * fEfficiencies.at(i);
             // every fitted normalisation takes one place in the list, whichever the mode
             j++;
         }
-- 
2.43.0


From 6adfde79ca853565f4c0a6fcb39577e6b9509e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 43/93] fix: binning the data without a data set is refused

---
 src/teststat/BinnedNLLH.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index abd9ac7..e7848cf 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -151,6 +151,9 @@ BinnedNLLH::Evaluate()
 
 void BinnedNLLH::BinData()
 {
+    if (!GetDataSet())
+        throw LogicError("BinnedNLLH::BinData() called with no data set!");
+
     fDataDist = BinnedED(fPdfManager.GetOriginalPdf(0)); // make a copy for same binning and data rep
     fDataDist.Empty();
     CutLog log(GetCuts().GetCutNames());
-- 
2.43.0


From f2e557582aa3b9679932742e59ab987e98dca528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 44/93] fix: Barlow-Beeston takes the positive root also when
 the Monte Carlo uncertainty is large

---
 src/teststat/BinnedNLLH.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index e7848cf..09eeeae 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -111,7 +111,7 @@ BinnedNLLH::Evaluate()
 
             double x1 = q;
             // (q is zero only if there is no data, then so is the other root)
-            double x2 = (q == 0.) ? 0. : fShrunkDataDist.GetBinContent(i) * sigma2 / q;
+            double x2 = (q == 0.) ? 0. : -fShrunkDataDist.GetBinContent(i) * sigma2 / q;
 
             double beta = (x1 > x2) ? x1 : x2;
 
-- 
2.43.0


From 88ce290d91b7913b579922af1b1f095c76fbd841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 45/93] fix: constraints with unphysical widths or correlations
 are refused

---
 src/constraint/BivariateQuadraticConstraint.h |  8 ++++++--
 src/constraint/FractionalConstraint.h         |  6 +++++-
 src/constraint/QuadraticConstraint.h          | 13 +++++++++++--
 src/constraint/RatioConstraint.h              |  6 +++++-
 src/constraint/ShapeConstraint.h              |  6 +++++-
 5 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/constraint/BivariateQuadraticConstraint.h b/src/constraint/BivariateQuadraticConstraint.h
index 61a336b..a923267 100644
--- a/src/constraint/BivariateQuadraticConstraint.h
+++ b/src/constraint/BivariateQuadraticConstraint.h
@@ -16,9 +16,13 @@ public:
     // Main constructor
     BivariateQuadraticConstraint(double mean_1, double sigma_1, double mean_2, double sigma_2, double correlation) : fMean1(mean_1), fSigma1(sigma_1), fMean2(mean_2), fSigma2(sigma_2), fCorr(correlation)
     {
-        if (fCorr == 1.)
+        if (!(fCorr > -1. && fCorr < 1.))
         {
-            throw ValueError("BivariateQuadraticConstraint: correlation cannot be equal to 1!");
+            throw ValueError("BivariateQuadraticConstraint: correlation must be between -1 and 1!");
+        }
+        if (!(fSigma1 > 0) || !(fSigma2 > 0))
+        {
+            throw ValueError("BivariateQuadraticConstraint: widths must be greater than 0!");
         }
     }
     // Evaluate constraint at a particular pair of values
diff --git a/src/constraint/FractionalConstraint.h b/src/constraint/FractionalConstraint.h
index 1039271..ed42eb5 100644
--- a/src/constraint/FractionalConstraint.h
+++ b/src/constraint/FractionalConstraint.h
@@ -13,7 +13,11 @@ public:
     // Default constructor
     FractionalConstraint() {}
     // Main constructor
-    FractionalConstraint(double mean_, double sigma_) : fFractionalMean(mean_), fFractionalSigma(sigma_) {}
+    FractionalConstraint(double mean_, double sigma_) : fFractionalMean(mean_), fFractionalSigma(sigma_)
+    {
+        if (!(fFractionalSigma > 0))
+            throw ValueError("FractionalConstraint: width must be greater than 0!");
+    }
 
     // Evaluate constraint at a particular pair of values
     double Evaluate(double val_1, double val_2) const
diff --git a/src/constraint/QuadraticConstraint.h b/src/constraint/QuadraticConstraint.h
index b8f6323..fc21006 100644
--- a/src/constraint/QuadraticConstraint.h
+++ b/src/constraint/QuadraticConstraint.h
@@ -5,15 +5,24 @@
 /***********************************************************************************************/
 #ifndef __OXSX_QUADRATIC_CONSTRAINT__
 #define __OXSX_QUADRATIC_CONSTRAINT__
+#include <Exceptions.h>
 
 class QuadraticConstraint
 {
 public:
     QuadraticConstraint() {}
     // Symmetric constraint constructor
-    QuadraticConstraint(double mean_, double width_) : fMean(mean_), fWidth(width_), fWidth_lo(0), is_asym(false) {}
+    QuadraticConstraint(double mean_, double width_) : fMean(mean_), fWidth(width_), fWidth_lo(0), is_asym(false)
+    {
+        if (!(fWidth > 0))
+            throw ValueError("QuadraticConstraint: width must be greater than 0!");
+    }
     // Asymmetric constraint constructor
-    QuadraticConstraint(double mean_, double width_hi, double width_lo) : fMean(mean_), fWidth(width_hi), fWidth_lo(width_lo), is_asym(true) {}
+    QuadraticConstraint(double mean_, double width_hi, double width_lo) : fMean(mean_), fWidth(width_hi), fWidth_lo(width_lo), is_asym(true)
+    {
+        if (!(fWidth > 0) || !(fWidth_lo > 0))
+            throw ValueError("QuadraticConstraint: widths must be greater than 0!");
+    }
 
     double Evaluate(double val_) const
     {
diff --git a/src/constraint/RatioConstraint.h b/src/constraint/RatioConstraint.h
index 1948b66..badd50a 100644
--- a/src/constraint/RatioConstraint.h
+++ b/src/constraint/RatioConstraint.h
@@ -13,7 +13,11 @@ public:
     // Default constructor
     RatioConstraint() {}
     // Main constructor
-    RatioConstraint(double mean_, double sigma_) : fRatioMean(mean_), fRatioSigma(sigma_) {}
+    RatioConstraint(double mean_, double sigma_) : fRatioMean(mean_), fRatioSigma(sigma_)
+    {
+        if (!(fRatioSigma > 0))
+            throw ValueError("RatioConstraint: width must be greater than 0!");
+    }
 
     // Evaluate constraint at a particular pair of values
     double Evaluate(double val_1, double val_2) const
diff --git a/src/constraint/ShapeConstraint.h b/src/constraint/ShapeConstraint.h
index 37f2e38..e61de5a 100644
--- a/src/constraint/ShapeConstraint.h
+++ b/src/constraint/ShapeConstraint.h
@@ -22,7 +22,11 @@ public:
     // Default constructor
     ShapeConstraint() {}
     // Main constructor
-    ShapeConstraint(const ShapeFunc &shape_func_, double mean_, double sigma_) : fShapeFunc(shape_func_), fShapeMean(mean_), fShapeSigma(sigma_) {}
+    ShapeConstraint(const ShapeFunc &shape_func_, double mean_, double sigma_) : fShapeFunc(shape_func_), fShapeMean(mean_), fShapeSigma(sigma_)
+    {
+        if (!(fShapeSigma > 0))
+            throw ValueError("ShapeConstraint: width must be greater than 0!");
+    }
 
     // Evaluate constraint at a particular pair of values
     double Evaluate(const ParameterDict& ) const;
-- 
2.43.0


From 1007842b096bdf6974bcbfef418fb32a4b873f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 46/93] fix: setting one parameter of a SpectralFitDist sets
 that bin, and renaming can not merge two bins

---
 src/dist/SpectralFitDist.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 91c5454..0e8e19d 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -28,7 +28,7 @@ void SpectralFitDist::SetParameter(const std::string &name_, double value)
     if (it == fBinNames.end())
         throw ParameterError("Can't set " + name_ + ", parameters are called " + ToString(fBinNames));
 
-    *it = value;
+    fHistogram.SetBinContent(it - fBinNames.begin(), value);
 }
 
 double
@@ -76,6 +76,8 @@ void SpectralFitDist::RenameParameter(const std::string &old_, const std::string
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), old_);
     if (it == fBinNames.end())
         throw ParameterError("Can't rename " + old_ + " it doesn't exist, parameters are called: \n " + ToString(fBinNames));
+    if (std::find(fBinNames.begin(), fBinNames.end(), new_) != fBinNames.end())
+        throw ParameterError("Can't rename " + old_ + " to " + new_ + ", that parameter already exists");
     *it = new_;
 }
 
-- 
2.43.0


From c67e47938ad12e4ee8a9e21670a0e6729acf9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 47/93] fix: parameters of a Gaussian tied by renaming share
 one value and count once

---
 src/function/GaussianFitter.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 723e068..4cf2e83 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -43,6 +43,10 @@ void GaussianFitter::RenameParameter(const std::string &old_, const std::string
     if (find(fMeansNames.begin(), fMeansNames.end(), old_) == fMeansNames.end() && find(fStdDevsNames.begin(), fStdDevsNames.end(), old_) == fStdDevsNames.end())
         throw NotFoundError(Formatter() << "GaussianFitter:: When attempting to renaming the parameter " << old_ << ", it wasn't found. Available names: " << ToString(GetParameterNames()));
 
+    // parameters given the same name are tied: they have one value from here on
+    if (old_ != new_ && GetParameterNames().count(new_))
+        SetParameter(old_, GetParameter(new_));
+
     it = find(fMeansNames.begin(), fMeansNames.end(), old_);
     while (it != fMeansNames.end())
     {
@@ -76,18 +80,19 @@ void GaussianFitter::SetParameter(const std::string &name_, double value_)
     if (find(fMeansNames.begin(), fMeansNames.end(), name_) == fMeansNames.end() && find(fStdDevsNames.begin(), fStdDevsNames.end(), name_) == fStdDevsNames.end())
         throw NotFoundError(Formatter() << "GaussianFitter:: Can't set parameter " << name_ << ", it wasn't found. Available names: " << ToString(GetParameterNames()));
 
-    it = find(fMeansNames.begin(), fMeansNames.end(), name_);
-    while (it != fMeansNames.end())
-    {
-        fOrignalFunc->SetMean(it - fMeansNames.begin(), value_);
-        it = find(++it, fMeansNames.end(), name_);
-    }
+    // widths first, as they may refuse the value
     it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
     while (it != fStdDevsNames.end())
     {
         fOrignalFunc->SetStDev(it - fStdDevsNames.begin(), value_);
         it = find(++it, fStdDevsNames.end(), name_);
     }
+    it = find(fMeansNames.begin(), fMeansNames.end(), name_);
+    while (it != fMeansNames.end())
+    {
+        fOrignalFunc->SetMean(it - fMeansNames.begin(), value_);
+        it = find(++it, fMeansNames.end(), name_);
+    }
 }
 
 double
@@ -142,7 +147,8 @@ GaussianFitter::GetParameters() const
 size_t
 GaussianFitter::GetParameterCount() const
 {
-    return fMeansNames.size() + fStdDevsNames.size();
+    // tied parameters count once
+    return GetParameterNames().size();
 }
 
 std::set<std::string>
-- 
2.43.0


From 8fcc5f6d42111f393b67a5e9330920580248173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 48/93] fix: renaming a VaryingCDF parameter onto another one
 is refused

---
 src/function/VaryingCDF.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index c4f94f5..47515e3 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -216,6 +216,9 @@ void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new
     if (!GetParameterNames().count(old_))
         throw NotFoundError(Formatter() << "VaryingCDF:: Can't rename parameter " << old_ << ". Parameters available : " << ToString(GetParameterNames()));
 
+    if (GetParameterNames().count(new_))
+        throw ParameterError(Formatter() << "VaryingCDF:: Can't rename parameter " << old_ << " to " << new_ << ", that parameter already exists");
+
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
         if (function->second->GetParameterNames().count(old_))
-- 
2.43.0


From cd39c1324d7b42efe5ef1be61723b207b2cc8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 49/93] fix: scaling a sparse matrix by zero does not bring
 back components set to zero

---
 src/core/SparseMatrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index 9a104b1..6b103ea 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -129,5 +129,6 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
 
 void SparseMatrix::Scale(double scale_)
 {
-    fArmaMat *= scale_;
+    // in place, armadillo brings back components set to zero since
+    fArmaMat = arma::sp_mat(fArmaMat * scale_);
 }
-- 
2.43.0


From 89c6474246847796b36cbbd483620d8ac3a55f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 50/93] fix: loading without an open config file is refused,
 also after a failed opening

---
 src/config/ConfigLoader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index bf956f8..c578a65 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -14,13 +14,15 @@ void ConfigLoader::Load(const std::string &section_, const std::string &fieldNam
 
 void ConfigLoader::Open(const std::string &fileName_)
 {
+    // whatever happens, nothing is read from the previous file any more
+    Close();
+
     std::ifstream ss;
     ss.open(fileName_.c_str());
     if (!ss)
     {
         throw IOError("Can't find config file " + fileName_);
     }
-    delete fParser;
     fParser = new INI::Parser(ss);
 }
 
@@ -41,6 +43,8 @@ ConfigLoader::ListSections()
 
 void ConfigLoader::CheckExists(const std::string &section_, const std::string &field_)
 {
+    if (!fParser)
+        throw IOError("Can't load " + field_ + ", no config file is open");
 
     if (fParser->top().sections.find(section_) == fParser->top().sections.end())
         throw ConfigSectionMissing("Can't find section " + section_);
-- 
2.43.0


From 65529be61b7ef73a2f8de0af4322efb960bdd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 51/93] fix: malformed section headers in config files are
 refused, blanks around section names ignored

---
 src/config/ini.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config/ini.hpp b/src/config/ini.hpp
index 8d9cded..79365fe 100644
--- a/src/config/ini.hpp
+++ b/src/config/ini.hpp
@@ -117,7 +117,12 @@ namespace INI
       if (line_[depth] != '[')
         break;
 
-    sname = line_.substr(depth, line_.length() - 2 * depth);
+    // as many closing brackets, at the end of the line
+    if (line_.length() < 2 * depth || line_.find(']') != line_.length() - depth ||
+        line_.find_first_not_of(']', line_.length() - depth) != std::string::npos)
+      err("malformed section header");
+
+    sname = trim(line_.substr(depth, line_.length() - 2 * depth));
   }
 
   inline void
-- 
2.43.0


From f5c13cec6a7307e963d3d864a8f532607b000c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 52/93] fix: indented comment lines in config files are ignored

---
 src/config/ini.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/config/ini.hpp b/src/config/ini.hpp
index 79365fe..7f8a36c 100644
--- a/src/config/ini.hpp
+++ b/src/config/ini.hpp
@@ -131,10 +131,8 @@ namespace INI
     while (std::getline(*f_, line_))
     {
       ++ln_;
-      if (line_[0] == '#' || line_[0] == ';')
-        continue;
       line_ = trim(line_);
-      if (line_.empty())
+      if (line_.empty() || line_[0] == '#' || line_[0] == ';')
         continue;
       if (line_[0] == '[')
       {
-- 
2.43.0


From 79e4350ae45a4aed2444ed651937fa79e9065c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 53/93] fix: config values that are only in part a number of
 the type asked for are refused

---
 src/config/ConfigLoader.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/ConfigLoader.hpp b/src/config/ConfigLoader.hpp
index 1eec7f0..aa8963d 100644
--- a/src/config/ConfigLoader.hpp
+++ b/src/config/ConfigLoader.hpp
@@ -25,7 +25,10 @@ Converter<TargetType>::operator()(const std::string &s_) const
   TargetType val;
   buffer >> val;
 
-  if (buffer.fail())
+  // the whole value has to be used, only a comment may follow; and >> would wrap negative numbers round
+  char rest = '#';
+  if (buffer.fail() || ((buffer >> rest) && rest != '#' && rest != ';') ||
+      (!std::numeric_limits<TargetType>::is_signed && s_.find('-') == s_.find_first_not_of(" \t")))
     throw ValueError("String conversion failed : value is invalid (this can mean the numerical type isn't big enough)");
 
   return val;
-- 
2.43.0


From 5901aaf2eef2543b0151aef36dcad811bfd18c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 54/93] fix: lists in config files are converted to the type of
 their elements, without surrounding blanks

---
 src/config/ConfigLoader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ConfigLoader.hpp b/src/config/ConfigLoader.hpp
index aa8963d..ba61cd3 100644
--- a/src/config/ConfigLoader.hpp
+++ b/src/config/ConfigLoader.hpp
@@ -14,7 +14,7 @@ template <typename TargetType>
 void ConfigLoader::Load(const std::string &section_, const std::string &fieldName_, TargetType &loadVal_, typename enable_if<is_container<TargetType>::value, int>::type)
 {
   CheckExists(section_, fieldName_);
-  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<TargetType>());
+  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<typename TargetType::value_type>());
 }
 
 template <typename TargetType>
@@ -39,6 +39,6 @@ void ConvertContainer(const InContainer &incntr_, OutContainer &outcntr_, const
 {
   for (typename InContainer::const_iterator it = incntr_.begin(); it != incntr_.end(); ++it)
   {
-    outcntr_.insert(outcntr_.end(), *it);
+    outcntr_.insert(outcntr_.end(), cnvtr_(INI::trim(*it)));
   }
 }
-- 
2.43.0


From 8a344b7f59315549a1235686891548debf752aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 55/93] fix: grid search visits every point of the grid, in any
 number of dimensions, and reports the value found

---
 src/optimise/GridSearch.cpp | 87 ++++++++++++++++++++-----------------
 src/optimise/GridSearch.h   |  6 ++-
 2 files changed, 52 insertions(+), 41 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index fe95327..d14cf71 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -1,6 +1,9 @@
 #include <GridSearch.h>
 #include <TestStatistic.h>
 #include <iostream>
+#include <algorithm>
+#include <cmath>
+#include <limits>
 #include <sstream>
 #include <Histogram.h>
 #include <FitResult.h>
@@ -51,9 +54,6 @@ GridSearch::Optimise(TestStatistic *testStat_)
     // list of rates followed by list of systematics
     testStat_->RegisterFitComponents();
 
-    // use this map to set the parameters, change the values in place
-    ParameterDict setParams = testStat_->GetParameters();
-
     // check initialisation
     if (!HasSameKeys(fStepSizes, fMaxima) || !HasSameKeys(fStepSizes, fMinima))
         throw LogicError(Formatter()
@@ -66,23 +66,38 @@ GridSearch::Optimise(TestStatistic *testStat_)
                          << "StepSizes for :\n"
                          << ToString(GetKeys(fStepSizes)) << "\n");
 
+    if (ContainerTools::GetKeys(fMinima) != testStat_->GetParameterNames())
+        throw LogicError(Formatter()
+                         << "Grid Search initialisation error: grid is over\n"
+                         << ToString(GetKeys(fMinima)) << "\n"
+                         << "but the test statistic has parameters\n"
+                         << ToString(testStat_->GetParameterNames()) << "\n");
+
     // Prepare best fit
     ParameterDict bestFit;
-    fMinVal = 0;
+    bool found = false;
+    fMinVal = std::numeric_limits<double>::quiet_NaN();
 
-    // Initialise LH space and count the number of grid steps
-    unsigned maxSteps = 1;
-    ParameterDict gridCounts;
+    // Count the number of grid steps along each axis, and in total
+    size_t maxSteps = 1;
+    fGridCounts.clear();
 
     for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end(); ++it)
     {
-        size_t axisCounts = 1 + static_cast<size_t>((fMaxima[it->first] - it->second) / fStepSizes[it->first]);
-        maxSteps *= axisCounts;
-        gridCounts[it->first] = axisCounts;
+        const double range = fMaxima[it->first] - it->second;
+        const double step = fStepSizes[it->first];
+        if (!(range >= 0) || !(step > 0) || std::isinf(range))
+            throw ValueError(Formatter() << "Grid Search: " << it->first << " needs a minimum no larger than its maximum and a step size > 0, got "
+                                         << it->second << ", " << fMaxima[it->first] << ", " << step);
+
+        // the last point may be short of the maximum by rounding only
+        fGridCounts[it->first] = 1 + static_cast<size_t>(range / step * (1 + 1e-12));
+        maxSteps *= fGridCounts[it->first];
     }
 
     // start at min value
     fParamVals = fMinima;
+    fGridIndices.clear();
 
     if (maxSteps == 1)
     {
@@ -91,13 +106,13 @@ GridSearch::Optimise(TestStatistic *testStat_)
     }
 
     // count interations
-    unsigned stepCount = 0;
-    int oneTenth = maxSteps / 10;
+    size_t stepCount = 0;
+    size_t oneTenth = maxSteps / 10;
 
     if (oneTenth < 10)
         oneTenth = 1;
 
-    while (Increment(fStepSizes.begin(), fStepSizes.end()))
+    do
     {
         // calculate the new value
         // if bigger, grab this as new best fit
@@ -112,46 +127,38 @@ GridSearch::Optimise(TestStatistic *testStat_)
         testStat_->SetParameters(fParamVals);
         double currentVal = testStat_->Evaluate();
 
-        // if maximising, take the negative of the test stat
-        if (fMaximising)
-            currentVal *= -1;
-
-        if (currentVal < fMinVal || !fMinVal)
+        // if maximising, look for the largest instead, points that aren't a number are never better
+        const bool better = fMaximising ? currentVal > fMinVal : currentVal < fMinVal;
+        if (better || (!found && !std::isnan(currentVal)))
         {
+            found = true;
             fMinVal = currentVal;
             bestFit = fParamVals;
         }
-    }
+    } while (Increment());
+
     fFitResult.SetBestFit(bestFit);
     fFitResult.SetExtremeVal(fMinVal);
+    fFitResult.SetValid(found);
     return fFitResult;
 }
 
-bool GridSearch::Increment(ParameterDict::iterator it_,
-                           ParameterDict::iterator end_)
+// on to the next grid point, false if there is none
+bool GridSearch::Increment()
 {
-    const std::string paramToChange = it_->first;
-    // nothing doing
-    if (fMinima == fMaxima)
-        return false;
-    fParamVals[paramToChange] += fStepSizes.at(paramToChange);
-
-    // wrap around past the maximum
-    if (fParamVals[paramToChange] > fMaxima.at(paramToChange))
+    for (ParameterDict::iterator it = fParamVals.begin(); it != fParamVals.end(); ++it)
     {
-        fParamVals[paramToChange] = fMinima.at(paramToChange);
-
-        // if its the last index no rippling to do
-        if (it_ == end_--)
-            return false;
-
-        // ripple up to next index
-        if (Increment(++it_, end_)) // propagate the false down
+        const std::string &name = it->first;
+        if (++fGridIndices[name] < fGridCounts[name])
+        {
+            it->second = std::min(fMaxima[name], fMinima[name] + fGridIndices[name] * fStepSizes[name]);
             return true;
-        else
-            return false;
+        }
+        // wrap around past the maximum and ripple up to the next parameter
+        fGridIndices[name] = 0;
+        it->second = fMinima[name];
     }
-    return true;
+    return false;
 }
 
 FitResult
diff --git a/src/optimise/GridSearch.h b/src/optimise/GridSearch.h
index e743728..b31266f 100644
--- a/src/optimise/GridSearch.h
+++ b/src/optimise/GridSearch.h
@@ -1,6 +1,8 @@
 #ifndef __GRID_SEARCH__
 #define __GRID_SEARCH__
 #include <Optimiser.h>
+#include <map>
+#include <string>
 #include <vector>
 #include <FitResult.h>
 #include <ParameterDict.h>
@@ -33,7 +35,9 @@ private:
    ParameterDict fMinima;
    ParameterDict fMaxima;
    ParameterDict fStepSizes;
-   bool Increment(ParameterDict::iterator it_, ParameterDict::iterator end_);
+   std::map<std::string, size_t> fGridCounts;  // points along each axis
+   std::map<std::string, size_t> fGridIndices; // and where the search is
+   bool Increment();
    double fMinVal;
 };
 #endif
-- 
2.43.0


From f5d04fd611e96834773d9a42935787aba8e7db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 56/93] fix: assigning fit results copies the statistic space
 of the other one, and print precisions are copied too

---
 src/optimise/FitResult.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index c89f4e1..0d546be 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,22 +26,31 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
-    fStatSpace = new Histogram(statSpace_);
+    Histogram *copy = new Histogram(statSpace_); // may be a copy of the one held
+    delete fStatSpace;
+    fStatSpace = copy;
 }
 
 const Histogram &
 FitResult::GetStatSpace() const
 {
+    if (!fStatSpace)
+        throw NULLPointerAccessError("FitResult::GetStatSpace", "no test statistic space has been set");
     return *fStatSpace;
 }
 
 FitResult
 FitResult::operator=(const FitResult &other_)
 {
-    if (!fStatSpace)
+    if (this == &other_)
+        return *this;
+
+    delete fStatSpace;
+    if (!other_.fStatSpace)
         fStatSpace = NULL;
     else
         fStatSpace = new Histogram(*other_.fStatSpace);
+    printPrecision = other_.printPrecision;
     fIsValid = other_.fIsValid;
     fBestFit = other_.fBestFit;
     fExtremeVal = other_.fExtremeVal;
@@ -59,6 +68,7 @@ FitResult::FitResult(const FitResult &other_)
 
     else
         fStatSpace = new Histogram(*other_.fStatSpace);
+    printPrecision = other_.printPrecision;
     fStatSample = other_.fStatSample;
     fBestFit = other_.fBestFit;
     fIsValid = other_.fIsValid;
-- 
2.43.0


From db3b35b61ec5e55871c72aefe0eca75c53c47d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 57/93] fix: assigning an analytic distribution copies its
 function rather than sharing it

---
 src/dist/AnalyticED.cpp | 15 +++++++++++++++
 src/dist/AnalyticED.h   |  1 +
 2 files changed, 16 insertions(+)

diff --git a/src/dist/AnalyticED.cpp b/src/dist/AnalyticED.cpp
index 7498c8e..eb055bb 100644
--- a/src/dist/AnalyticED.cpp
+++ b/src/dist/AnalyticED.cpp
@@ -23,6 +23,21 @@ AnalyticED::AnalyticED(const AnalyticED &other_)
     fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
 }
 
+AnalyticED &
+AnalyticED::operator=(const AnalyticED &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    PDF *function = dynamic_cast<PDF *>(other_.fFunction->Clone());
+    delete fFunction;
+    fFunction = function;
+    fName = other_.fName;
+    fNorm = other_.fNorm;
+    fObservables = other_.fObservables;
+    return *this;
+}
+
 EventDistribution *
 AnalyticED::Clone() const
 {
diff --git a/src/dist/AnalyticED.h b/src/dist/AnalyticED.h
index 5c64865..4e798d6 100644
--- a/src/dist/AnalyticED.h
+++ b/src/dist/AnalyticED.h
@@ -11,6 +11,7 @@ class AnalyticED : public EventDistribution, public FitComponent
 public:
    AnalyticED(const std::string &, PDF *); // make a copy
    AnalyticED(const AnalyticED &other_);   // deep copy
+   AnalyticED &operator=(const AnalyticED &other_);
    ~AnalyticED();                          // frees fFunction
    EventDistribution *Clone() const;
 
-- 
2.43.0


From d8195e4d52c2348919a1ef390e5769722d763c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 58/93] fix: copies and clones of composite distributions own
 their parts and keep the name

---
 src/dist/CompositeED.cpp | 26 ++++++++++++++++++++++++--
 src/dist/CompositeED.h   |  2 ++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index f9bfb8d..95744de 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -23,6 +23,29 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     }
     fName = name;
 }
+
+CompositeED::CompositeED(const CompositeED &other_) : EventDistribution(other_), fName(other_.fName)
+{
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+}
+
+CompositeED &
+CompositeED::operator=(const CompositeED &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    for (size_t i = 0; i < fDistPtrs.size(); i++)
+        delete fDistPtrs[i];
+    fDistPtrs.clear();
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+
+    fName = other_.fName;
+    return *this;
+}
+
 CompositeED::~CompositeED()
 {
     for (size_t i = 0; i < fDistPtrs.size(); i++)
@@ -56,8 +79,7 @@ CompositeED::Integral() const
 EventDistribution *
 CompositeED::Clone() const
 {
-    EventDistribution *cp = new CompositeED(fDistPtrs);
-    return static_cast<EventDistribution *>(cp);
+    return static_cast<EventDistribution *>(new CompositeED(*this));
 }
 
 CompositeED
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index ce9da0e..49beaf0 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -18,6 +18,8 @@ class CompositeED : public EventDistribution
 public:
    CompositeED(const EventDistribution *p1_, const EventDistribution *p2_);
    CompositeED(const std::vector<EventDistribution *> &pdfs_);
+   CompositeED(const CompositeED &other_); // deep copy
+   CompositeED &operator=(const CompositeED &other_);
    virtual ~CompositeED();
 
    virtual double Probability(const Event &) const;
-- 
2.43.0


From 19d5b919bab8a958dd0ae9252357b20d792d35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 59/93] fix: clones of spectral fit distributions keep their
 parameters and name

---
 src/dist/SpectralFitDist.cpp | 6 ++++++
 src/dist/SpectralFitDist.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 0e8e19d..0d8c8f1 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -22,6 +22,12 @@ SpectralFitDist::SpectralFitDist(const std::string &name_,
     fName = name_;
 }
 
+EventDistribution *
+SpectralFitDist::Clone() const
+{
+    return static_cast<EventDistribution *>(new SpectralFitDist(*this));
+}
+
 void SpectralFitDist::SetParameter(const std::string &name_, double value)
 {
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), name_);
diff --git a/src/dist/SpectralFitDist.h b/src/dist/SpectralFitDist.h
index f141ac7..da7f661 100644
--- a/src/dist/SpectralFitDist.h
+++ b/src/dist/SpectralFitDist.h
@@ -8,6 +8,7 @@ class SpectralFitDist : public BinnedED, public FitComponent
 public:
    SpectralFitDist(const std::string &name_,
                    const AxisCollection &axes_);
+   EventDistribution *Clone() const;
 
    // Make this fittable with each bin content adjustable
    void SetParameter(const std::string &name_, double value);
-- 
2.43.0


From 18010058cb1e4f78a520eb10e542c00621a4a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 60/93] fix: assigning a gaussian to itself leaves it unchanged

---
 src/function/Gaussian.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 2a11bec..47aae6c 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -48,6 +48,9 @@ Gaussian::Gaussian(const Gaussian &copy_) : fFitter(this, copy_.GetMeanNames(),
 Gaussian &
 Gaussian::operator=(const Gaussian &copy_)
 {
+    if (this == &copy_)
+        return *this;
+
     fMeans = copy_.fMeans;
     fStdDevs = copy_.fStdDevs;
     fCdfCutOff = copy_.fCdfCutOff;
-- 
2.43.0


From bf0939dd0255b3b435d49a460e83e1740848fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 61/93] fix: copied lazy data sets take part in unloading, and
 assigning one frees what it had loaded

---
 src/data/LazyOXSXDataSet.cpp | 8 ++++++--
 src/data/LazyOXSXDataSet.h   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 7e976fb..9e4632b 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -12,13 +12,17 @@ LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_)
 {
   fFileName = other_.fFileName;
   fDataSet = NULL;
+  Register();
 }
 
-LazyOXSXDataSet
+LazyOXSXDataSet &
 LazyOXSXDataSet::operator=(const LazyOXSXDataSet &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  Close();
   fFileName = other_.fFileName;
-  fDataSet = NULL;
   return *this;
 }
 
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 7918928..1aa54b3 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -16,7 +16,7 @@ public:
     LazyOXSXDataSet(const std::string &filename_) : fFileName(filename_), fDataSet(NULL) { Register(); }
     ~LazyOXSXDataSet(); // frees fData
     LazyOXSXDataSet(const LazyOXSXDataSet &);
-    LazyOXSXDataSet operator=(const LazyOXSXDataSet &);
+    LazyOXSXDataSet &operator=(const LazyOXSXDataSet &);
 
     // Memory management
     void Load() const;
-- 
2.43.0


From 6892f0bfa4670d426ce12e958ccebc607f5abd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 62/93] fix: events of a lazy data set keep their observable
 names when another one is loaded

---
 src/data/LazyOXSXDataSet.cpp | 5 ++++-
 src/data/LazyOXSXDataSet.h   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 9e4632b..7c2e00a 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -55,6 +55,7 @@ void LazyOXSXDataSet::Load() const
   for (size_t i = 0; i < fFiles.size(); i++)
     fFiles[i]->Close();
   fDataSet = IO::LoadDataSet(fFileName);
+  fObservableNames = fDataSet->GetObservableNames();
 }
 
 void LazyOXSXDataSet::Close() const
@@ -77,6 +78,8 @@ Event LazyOXSXDataSet::GetEntry(size_t i_) const
 {
   if (!fDataSet)
     Load();
-  return fDataSet->GetEntry(i_);
+  Event event = fDataSet->GetEntry(i_);
+  event.SetObservableNames(&fObservableNames);
+  return event;
 }
 std::vector<LazyOXSXDataSet *> LazyOXSXDataSet::fFiles;
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 1aa54b3..cc85b67 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -35,5 +35,6 @@ private:
     static std::vector<LazyOXSXDataSet *> fFiles;
     std::string fFileName;
     mutable OXSXDataSet *fDataSet;
+    mutable std::vector<std::string> fObservableNames; // events refer to these, also after the data are unloaded
 };
 #endif
-- 
2.43.0


From d2461e1aeb8ede95e70cee107d1464eaedee3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 63/93] fix: renamed normalisations keep their names when
 managers are copied or added to

---
 src/fitutil/BinnedEDManager.cpp | 16 ++++++++--------
 src/fitutil/BinnedEDManager.h   |  1 +
 src/fitutil/EDManager.cpp       | 12 ++++++------
 src/fitutil/EDManager.h         |  1 +
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 3ebf64c..4e484b1 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -3,6 +3,7 @@
 #include <BinnedEDShrinker.h>
 #include <BinnedED.h>
 #include <Exceptions.h>
+#include <algorithm>
 #include <sstream>
 
 BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_)
@@ -16,6 +17,7 @@ BinnedEDManager::operator=(const BinnedEDManager &other_)
     fOriginalPdfs = other_.fOriginalPdfs;
     fWorkingPdfs = other_.fWorkingPdfs;
     fNormalisations = other_.fNormalisations;
+    fNormNames = other_.fNormNames;
     fAllowNormsFittable = other_.fAllowNormsFittable;
     fFittableNorms = other_.fFittableNorms;
     fEfficiencies = other_.fEfficiencies;
@@ -161,7 +163,7 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
 {
     // parameters are known by the names of the pdfs
     for (size_t i = 0; i < fOriginalPdfs.size(); i++)
-        if (fOriginalPdfs.at(i).GetName() == pdf_.GetName())
+        if (fOriginalPdfs.at(i).GetName() == pdf_.GetName() || fNormNames.at(i) == pdf_.GetName())
             throw ParameterError("BinnedEDManager::AddPdf, there is already a pdf called " + pdf_.GetName());
 
     // the values set so far live in fNormalisations as long as all are directly fitted
@@ -172,6 +174,7 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
         fNDims = pdf_.GetNDims();
 
     fOriginalPdfs.push_back(pdf_);
+    fNormNames.push_back(pdf_.GetName());
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
     fNormalisations.resize(fOriginalPdfs.size(), 0);
@@ -272,6 +275,7 @@ void BinnedEDManager::SetName(const std::string &n_)
 void BinnedEDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fNormNames.begin(), fNormNames.end(), old_, new_);
 }
 
 void BinnedEDManager::SetParameter(const std::string &name_, double value_)
@@ -311,22 +315,18 @@ BinnedEDManager::GetParameterNames() const
 void BinnedEDManager::RegisterParameters()
 {
     fParameterManager.Clear();
-    std::vector<std::string> parameterNames;
     if (fAllNormsDirFittable)
     {
-        for (size_t i = 0; i < fOriginalPdfs.size(); i++)
-        {
-            parameterNames.push_back(fOriginalPdfs.at(i).GetName());
-        }
-        fParameterManager.AddContainer(fNormalisations, parameterNames);
+        fParameterManager.AddContainer(fNormalisations, fNormNames);
     }
     else
     {
+        std::vector<std::string> parameterNames;
         for (size_t i = 0; i < fOriginalPdfs.size(); i++)
         {
             if (fAllowNormsFittable.at(i))
             {
-                parameterNames.push_back(fOriginalPdfs.at(i).GetName());
+                parameterNames.push_back(fNormNames.at(i));
             }
         }
         fParameterManager.AddContainer(fFittableNorms, parameterNames);
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 50e9eb5..90faaea 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -67,6 +67,7 @@ private:
    std::vector<BinnedED> fOriginalPdfs;
    std::vector<BinnedED> fWorkingPdfs;
    std::vector<double> fNormalisations;
+   std::vector<std::string> fNormNames; // the parameters' names: those of the pdfs, unless they have been renamed
    std::vector<NormFittingStatus> fAllowNormsFittable;
    std::vector<double> fFittableNorms;
    std::vector<double> fEfficiencies; // change of each indirectly fitted norm by systematics and shrinking
diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 01e232d..915f776 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -2,6 +2,7 @@
 #include <EventDistribution.h>
 #include <Event.h>
 #include <Exceptions.h>
+#include <algorithm>
 
 EDManager::EDManager(const EDManager &other_) : fNDists(0), fNDims(0)
 {
@@ -23,6 +24,7 @@ EDManager::operator=(const EDManager &other_)
     fNDists = other_.fNDists;
     fNDims = other_.fNDims;
     fNormalisations = other_.fNormalisations;
+    fNormNames = other_.fNormNames;
     fName = other_.fName;
     RegisterParameters();
     return *this;
@@ -45,12 +47,13 @@ void EDManager::AddDist(EventDistribution *pdf_)
 
     // parameters are known by the names of the pdfs
     for (size_t i = 0; i < fDists.size(); i++)
-        if (fDists.at(i)->GetName() == pdf_->GetName())
+        if (fDists.at(i)->GetName() == pdf_->GetName() || fNormNames.at(i) == pdf_->GetName())
             throw ParameterError("EDManager::AddDist, there is already a distribution called " + pdf_->GetName());
 
     fDists.push_back(pdf_->Clone());
     fNDists++;
     fNormalisations.resize(fNDists, 0);
+    fNormNames.push_back(pdf_->GetName());
     RegisterParameters();
 }
 
@@ -102,11 +105,7 @@ EDManager::GetNDists() const
 void EDManager::RegisterParameters()
 {
     fParameterManager.Clear();
-    std::vector<std::string> parameterNames;
-    for (size_t i = 0; i < fDists.size(); i++)
-        parameterNames.push_back(fDists.at(i)->GetName());
-
-    fParameterManager.AddContainer(fNormalisations, parameterNames);
+    fParameterManager.AddContainer(fNormalisations, fNormNames);
 }
 
 std::string
@@ -123,6 +122,7 @@ void EDManager::SetName(const std::string &n_)
 void EDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fNormNames.begin(), fNormNames.end(), old_, new_);
 }
 
 void EDManager::SetParameter(const std::string &name_, double value_)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index dda0977..2cfa198 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -46,6 +46,7 @@ private:
    size_t fNDims;
    std::vector<EventDistribution *> fDists;
    std::vector<double> fNormalisations;
+   std::vector<std::string> fNormNames; // the parameters' names: those of the dists, unless they have been renamed
 
    std::string fName; // component name
    void RegisterParameters();
-- 
2.43.0


From 7043a69c390acbae2dc91dd6e2a7b4382a215339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 64/93] fix: names of any length are written to file in full,
 and no more than them

---
 src/data/IO.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index a850d95..56b0229 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -89,6 +89,7 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     std::vector<std::string> observableNames = dataSet_.GetObservableNames();
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
+    std::string flatNames = FlattenStringVector(observableNames);
 
     // Set up files
     H5::H5File file(filename_, H5F_ACC_TRUNC);
@@ -100,11 +101,11 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    //  64 chars max in str to save space
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    //  (with room for the terminating 0)
+    H5::StrType strType(H5::PredType::C_S1, flatNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
-    obsListAtt.write(strType, FlattenStringVector(observableNames));
+    obsListAtt.write(strType, flatNames);
 
     H5::Attribute countAtt = theData.createAttribute("n_observables",
                                                      H5::PredType::NATIVE_INT,
@@ -338,13 +339,6 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     hsize_t nBins[] = {histo_.GetNBins()};
     std::vector<double> contents = histo_.GetBinContents();
 
-    // create the file
-    H5::H5File file(fileName_, H5F_ACC_TRUNC);
-
-    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
-    H5::DataSpace dataSpace(1, nBins);
-    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
-
     // grab axis names
     std::vector<std::string> axisNames;
     std::vector<std::string> axisLatexNames;
@@ -353,16 +347,26 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
         axisNames.push_back(histo_.GetAxes().GetAxis(i).GetName());
         axisLatexNames.push_back(histo_.GetAxes().GetAxis(i).GetLatexName());
     }
+    std::string flatNames = FlattenStringVector(axisNames);
+    std::string flatLatexNames = FlattenStringVector(axisLatexNames);
+
+    // create the file
+    H5::H5File file(fileName_, H5F_ACC_TRUNC);
+
+    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
+    H5::DataSpace dataSpace(1, nBins);
+    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
-    // save axes names and latex names
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    // save axes names and latex names (with room for the terminating 0)
+    H5::StrType strType(H5::PredType::C_S1, flatNames.size() + 1);
+    H5::StrType latexStrType(H5::PredType::C_S1, flatLatexNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
 
     H5::Attribute nameListAtt = theData.createAttribute("axis_names", strType, attSpace);
-    nameListAtt.write(strType, FlattenStringVector(axisNames));
+    nameListAtt.write(strType, flatNames);
 
-    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", strType, attSpace);
-    latexNameListAtt.write(strType, FlattenStringVector(axisLatexNames));
+    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", latexStrType, attSpace);
+    latexNameListAtt.write(latexStrType, flatLatexNames);
 
     // save nbins, ndims
     H5::Attribute dimAtt = theData.createAttribute("n_dims",
-- 
2.43.0


From 12efefae7033aae04d452ce118a604ed8f122049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 65/93] fix: names that could not be told apart after loading
 are refused when saving

---
 src/data/IO.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 56b0229..e899440 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -41,18 +41,16 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
 {
     // note if this is already a ROOT tree this is a super silly way to do it, but it doesn't make sense to do it
     // anyway
-    if (!dataSet_.GetObservableNames().size())
+    if (!dataSet_.GetNEntries() && !dataSet_.GetObservableNames().size())
     {
         std::cout << "Tried to save a dataset with nothing in it.. nothing done" << std::endl;
         return;
     }
 
-    std::string branchString = dataSet_.GetObservableNames().at(0);
-    for (size_t i = 1; i < dataSet_.GetObservableNames().size(); i++)
-    {
-        branchString += ":";
-        branchString += dataSet_.GetObservableNames().at(i);
-    }
+    if (dataSet_.GetNEntries() && dataSet_.GetObservableNames().size() != dataSet_.GetNObservables())
+        throw IOError("SaveDataSet::Require one name and one name only for each observable");
+
+    std::string branchString = FlattenStringVector(dataSet_.GetObservableNames());
 
     TFile f(filename_.c_str(), "RECREATE");
     TNtuple nt(treename_.c_str(), "", branchString.c_str());
@@ -271,6 +269,11 @@ IO::FlattenStringVector(const std::vector<std::string> &vec_)
     if (!vec_.size())
         return flatString;
 
+    // these couldn't be told apart again
+    for (size_t i = 0; i < vec_.size(); i++)
+        if (vec_.at(i).find(fDelimiter) != std::string::npos || vec_.at(i).find('\0') != std::string::npos)
+            throw IOError(Formatter() << "IO::Can't save the name " << vec_.at(i) << ", names mustn't contain '" << fDelimiter << "'");
+
     flatString += vec_.at(0);
     for (size_t i = 1; i < vec_.size(); i++)
         flatString += fDelimiter + vec_.at(i);
-- 
2.43.0


From f41324f55c8e3567482639d544e57100197a4b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 66/93] fix: data sets without events and those with many
 observables can be written and read back

---
 src/data/IO.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index e899440..a725e99 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -85,7 +85,7 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
 
     // create colon separated string from list of observables
     std::vector<std::string> observableNames = dataSet_.GetObservableNames();
-    if (observableNames.size() != nObs)
+    if (nEntries && observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
     std::string flatNames = FlattenStringVector(observableNames);
 
@@ -136,6 +136,8 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
             stopEntry = nEntries;
 
         nSlabEntries = stopEntry - startEntry;
+        if (!nSlabEntries)
+            continue;
 
         // work out the data range
         startSlab[0] = startEntry * nObs;
@@ -185,14 +187,18 @@ IO::LoadDataSet(const std::string &filename_)
     OXSXDataSet *oxsxDataSet = new OXSXDataSet;
 
     // Set the variable names
-    oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
+    if (nObs || strreadbuf.size())
+        oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
 
     // Read data out as 1D array
     hsize_t nData = 0;
     dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
-    size_t nEntries = nData / nObs;
+    size_t nEntries = nObs ? nData / nObs : 0;
     oxsxDataSet->Reserve(nEntries);
 
+    if (!nEntries)
+        return oxsxDataSet;
+
     // if the data set is small, just load it up all in one go
     if (nEntries < 1000000)
     {
-- 
2.43.0


From ac76be4932ec128c4360a21cc0d50d427003f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 67/93] fix: foreign or inconsistent files and failures to
 write them are refused with an IOError

---
 src/data/IO.cpp | 113 +++++++++++++++++++++++++++++++++++++++---------
 src/data/IO.h   |   5 +++
 2 files changed, 97 insertions(+), 21 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index a725e99..c241ebc 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -4,6 +4,7 @@
 #include <H5Cpp.h>
 #include <iostream>
 #include <cassert>
+#include <memory>
 #include <Exceptions.h>
 #include <Histogram.h>
 #include <Formatter.hpp>
@@ -15,6 +16,17 @@
 
 const char IO::fDelimiter = ':';
 
+// the number of values in a list stored in a file
+static hsize_t GetLength(const H5::DataSpace &space_)
+{
+    if (space_.getSimpleExtentNdims() != 1)
+        throw IOError("IO::Expected a one dimensional list");
+
+    hsize_t length = 0;
+    space_.getSimpleExtentDims(&length, NULL);
+    return length;
+}
+
 std::string
 IO::GetExt(const std::string &path_)
 {
@@ -77,6 +89,18 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
 }
 
 void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
+{
+    try
+    {
+        WriteDataSetH5(dataSet_, filename_);
+    }
+    catch (const H5::Exception &e_)
+    {
+        throw IOError("Failed to save to " + filename_ + " : " + e_.getDetailMsg());
+    }
+}
+
+void IO::WriteDataSetH5(const DataSet &dataSet_, const std::string &filename_)
 {
     // Get the relevant params
     hsize_t nEntries = dataSet_.GetNEntries();
@@ -159,6 +183,20 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
 
 OXSXDataSet *
 IO::LoadDataSet(const std::string &filename_)
+{
+    // the file may not have been written here
+    try
+    {
+        return LoadDataSetH5(filename_);
+    }
+    catch (const H5::Exception &e_)
+    {
+        throw IOError("Failed to load data set from " + filename_ + " : " + e_.getDetailMsg());
+    }
+}
+
+OXSXDataSet *
+IO::LoadDataSetH5(const std::string &filename_)
 {
     std::cout << "IO::Loading " << filename_ << std::endl;
     // Get Data Set
@@ -181,23 +219,28 @@ IO::LoadDataSet(const std::string &filename_)
     H5::Attribute countAtt = dataSet.openAttribute("n_observables");
     H5std_string strreadbuf("");
     nameAtt.read(nameAtt.getDataType(), strreadbuf);
-    countAtt.read(countAtt.getDataType(), &nObs);
+    countAtt.read(H5::PredType::NATIVE_UINT, &nObs);
+
+    std::vector<std::string> observableNames;
+    if (nObs || strreadbuf.size())
+        observableNames = UnpackString(strreadbuf);
+
+    // Read data out as 1D array
+    hsize_t nData = GetLength(dataSet.getSpace());
+    if (nData && (!nObs || nData % nObs || observableNames.size() != nObs))
+        throw IOError("Failed to load data set from " + filename_ + " : the number of observables doesn't match the data");
 
     // Assemble into an OXSX data set
-    OXSXDataSet *oxsxDataSet = new OXSXDataSet;
+    std::unique_ptr<OXSXDataSet> oxsxDataSet(new OXSXDataSet);
 
     // Set the variable names
-    if (nObs || strreadbuf.size())
-        oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
+    oxsxDataSet->SetObservableNames(observableNames);
 
-    // Read data out as 1D array
-    hsize_t nData = 0;
-    dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
     size_t nEntries = nObs ? nData / nObs : 0;
     oxsxDataSet->Reserve(nEntries);
 
     if (!nEntries)
-        return oxsxDataSet;
+        return oxsxDataSet.release();
 
     // if the data set is small, just load it up all in one go
     if (nEntries < 1000000)
@@ -265,7 +308,7 @@ IO::LoadDataSet(const std::string &filename_)
         }
 
     } // else..
-    return oxsxDataSet;
+    return oxsxDataSet.release();
 }
 
 std::string
@@ -343,6 +386,18 @@ void IO::SaveHistogramROOT(const Histogram &hist_, const std::string &filename_,
 }
 
 void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
+{
+    try
+    {
+        WriteHistogramH5(histo_, fileName_);
+    }
+    catch (const H5::Exception &e_)
+    {
+        throw IOError("Failed to save to " + fileName_ + " : " + e_.getDetailMsg());
+    }
+}
+
+void IO::WriteHistogramH5(const Histogram &histo_, const std::string &fileName_)
 {
     hsize_t nDims[] = {histo_.GetNDims()};
     hsize_t nBins[] = {histo_.GetNBins()};
@@ -407,13 +462,27 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     }
 
     // now save the bin contents
-    theData.write(&contents[0], H5::PredType::NATIVE_DOUBLE, dataSpace);
+    theData.write(contents.data(), H5::PredType::NATIVE_DOUBLE, dataSpace);
 
     return;
 }
 
 Histogram
 IO::LoadHistogram(const std::string &fileName_)
+{
+    // the file may not have been written here
+    try
+    {
+        return LoadHistogramH5(fileName_);
+    }
+    catch (const H5::Exception &e_)
+    {
+        throw IOError("Failed to load histogram from " + fileName_ + " : " + e_.getDetailMsg());
+    }
+}
+
+Histogram
+IO::LoadHistogramH5(const std::string &fileName_)
 {
     std::cout << "IO::Loading " << fileName_ << std::endl;
 
@@ -446,20 +515,21 @@ IO::LoadHistogram(const std::string &fileName_)
     /// now the numbers
     H5::Attribute nBinsAtt = dataSet.openAttribute("n_bins");
     H5::Attribute nDimsAtt = dataSet.openAttribute("n_dims");
-    nBinsAtt.read(nBinsAtt.getDataType(), &nBins);
-    nDimsAtt.read(nDimsAtt.getDataType(), &nDims);
+    nBinsAtt.read(H5::PredType::NATIVE_INT, &nBins);
+    nDimsAtt.read(H5::PredType::NATIVE_INT, &nDims);
 
     //  now read the bin contents
-    hsize_t nData = 0;
-    dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
-    std::vector<double> binContents(nData, 0);
-    dataSet.read(&binContents[0], H5::PredType::NATIVE_DOUBLE);
+    std::vector<double> binContents(GetLength(dataSet.getSpace()), 0);
+    dataSet.read(binContents.data(), H5::PredType::NATIVE_DOUBLE);
 
     // Now read the axis information and use it to build axes objects in memory
     // first build the axes
     AxisCollection axes;
     std::vector<std::string> axisNames = UnpackString(axisNamesReadbuf);
     std::vector<std::string> axisLatexNames = UnpackString(axisLatexNamesReadbuf);
+    if (nDims < 0 || (nDims && (axisNames.size() != size_t(nDims) || axisLatexNames.size() != size_t(nDims))))
+        throw IOError("Failed to load histogram from " + fileName_ + " : the number of names doesn't match the number of axes");
+
     for (int i = 0; i < nDims; i++)
     {
         // how many bins in this axis
@@ -470,11 +540,10 @@ IO::LoadHistogram(const std::string &fileName_)
         H5::Attribute highEdgeAttribute = dataSet.openAttribute(Formatter() << i << "_highs");
 
         /// work out how many bin edges there are
-        hsize_t nLowEdges = 0;
-        hsize_t nHighEdges = 0;
-
-        lowEdgeAttribute.getSpace().getSimpleExtentDims(&nLowEdges, NULL);
-        highEdgeAttribute.getSpace().getSimpleExtentDims(&nHighEdges, NULL);
+        hsize_t nLowEdges = GetLength(lowEdgeAttribute.getSpace());
+        hsize_t nHighEdges = GetLength(highEdgeAttribute.getSpace());
+        if (!nLowEdges || nLowEdges != nHighEdges)
+            throw IOError("Failed to load histogram from " + fileName_ + " : the edges of the bins don't match");
 
         // read them
         std::vector<double> lowEdges(nLowEdges, 0);
@@ -487,6 +556,8 @@ IO::LoadHistogram(const std::string &fileName_)
     }
 
     Histogram loadedHisto(axes);
+    if (binContents.size() != loadedHisto.GetNBins())
+        throw IOError("Failed to load histogram from " + fileName_ + " : the number of contents doesn't match the axes");
     loadedHisto.SetBinContents(binContents);
 
     return loadedHisto;
diff --git a/src/data/IO.h b/src/data/IO.h
index 7a87064..ab029da 100644
--- a/src/data/IO.h
+++ b/src/data/IO.h
@@ -29,6 +29,11 @@ public:
    static Histogram LoadHistogram(const std::string &filename_);
 
 private:
+   static void WriteDataSetH5(const DataSet &, const std::string &filename_);
+   static void WriteHistogramH5(const Histogram &, const std::string &filename_);
+   static OXSXDataSet *LoadDataSetH5(const std::string &filename_);
+   static Histogram LoadHistogramH5(const std::string &filename_);
+
    static std::string GetExt(const std::string &);
    const static char fDelimiter;
 
-- 
2.43.0


From 926d9ec887014c127c308d6854902b702a7a71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 68/93] fix: histograms made from ROOT ones keep bins of
 different widths

---
 src/dist/DistTools.cpp | 56 +++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/dist/DistTools.cpp b/src/dist/DistTools.cpp
index 58dd50e..524a78d 100644
--- a/src/dist/DistTools.cpp
+++ b/src/dist/DistTools.cpp
@@ -171,16 +171,25 @@ TH3D DistTools::ToTH3D(const BinnedED &pdf_)
     return rtHist;
 }
 
+// the bins may have different widths
+static BinAxis
+ToBinAxis(const TAxis &axis_)
+{
+    std::vector<double> lowEdges;
+    std::vector<double> highEdges;
+    for (int i = 1; i < axis_.GetNbins() + 1; i++)
+    {
+        lowEdges.push_back(axis_.GetBinLowEdge(i));
+        highEdges.push_back(axis_.GetBinUpEdge(i));
+    }
+    return BinAxis(axis_.GetTitle(), lowEdges, highEdges);
+}
+
 Histogram
 DistTools::ToHist(const TH1D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -195,19 +204,9 @@ Histogram
 DistTools::ToHist(const TH2D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -229,26 +228,11 @@ Histogram
 DistTools::ToHist(const TH3D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    axes.AddAxis(BinAxis(h_.GetZaxis()->GetTitle(),
-                         h_.GetZaxis()->GetBinLowEdge(1),
-                         h_.GetZaxis()->GetBinUpEdge(h_.GetNbinsZ()),
-                         h_.GetNbinsZ())
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetZaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
-- 
2.43.0


From 02a63fdafb9b34709f1d0c6c48d51fd0a3dc5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 69/93] fix: upper limits from a posterior are in the bin where
 the integral reaches the confidence level

---
 src/interval/BayesIntervalCalc.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index a2b167d..237e864 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -12,9 +12,9 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     if (!posterior_.Integral())
         throw ValueError("BayesIntervalCalc::Empty histogram passed!");
 
-    if (cl_ <= 0)
+    if (!(cl_ > 0 && cl_ <= 1))
         throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
-                                     << " , must be >0!");
+                                     << " , must be >0 and no more than 1!");
 
     // only works for 1D histograms currently
     if (posterior_.GetNDims() != 1)
@@ -23,20 +23,20 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
 
     posterior_.Normalise();
 
-    // Integrate from the minimum to x until the total probability exceeds cl_
-    // find the first bin <b> for which the integral  <0>-><b> > cl
+    // Integrate from the minimum to x until the total probability reaches cl_
+    // find the first bin <b> for which the integral  <0>-><b> >= cl
+    // rounding can leave the full integral just below 1: then it's the last bin with any content
     size_t critBin = 0;
     double sum = 0;
-    while (sum < cl_)
+    for (size_t i = 0; i < posterior_.GetNBins() && sum < cl_; i++)
     {
-        sum = 0;
-        for (size_t i = 0; i < critBin; i++)
-        {
-            sum += posterior_.GetBinContent(i);
-        }
-
-        critBin++;
+        if (!posterior_.GetBinContent(i))
+            continue;
+        sum += posterior_.GetBinContent(i);
+        critBin = i;
     }
+    if (sum < cl_)
+        sum = cl_;
 
     // now interpolate between the bins
     double upperEdge = posterior_.GetAxes().GetBinHighEdge(critBin, 0);
-- 
2.43.0


From 4b3eedf53ff468edd66579317eaf520d4f3ef4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 70/93] fix: intervals of counting experiments with few events
 of many expected, settings that never converge refused

---
 src/interval/BayesIntervalCalc.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index 237e864..839196b 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -49,12 +49,27 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
 double
 BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCounts_, double upperEdge_)
 {
-    return (gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_ + upperEdge_) - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_)) / (1 - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_));
+    if (!(expectedCounts_ >= 0) || observedCounts_ < 0 || !(upperEdge_ >= 0))
+        throw ValueError("BayesIntervalCalc:: counts and the upper edge mustn't be negative!");
+
+    // the complement keeps its precision where there are many more counts expected than observed
+    double norm = gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_);
+    if (!norm)
+        throw ValueError(Formatter() << "BayesIntervalCalc:: can't calculate an interval for "
+                                     << observedCounts_ << " counts with " << expectedCounts_ << " expected");
+
+    return 1 - gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_ + upperEdge_) / norm;
 }
 
 double
 BayesIntervalCalc::UpperBound(double expectedCounts_, int observedCounts_, double cl_, double tolerance_)
 {
+    if (!(cl_ > 0 && cl_ <= 1))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
+                                     << " , must be >0 and no more than 1!");
+    if (!(tolerance_ > 0))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: tolerance = " << tolerance_ << " , must be >0!");
+
     double currentCL = 0;
     double limit = 0;
     while (std::abs(currentCL - cl_) > tolerance_)
-- 
2.43.0


From 37b52cddca1fdd76e8a57a5f862038ca85bfec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 71/93] fix: trajectories stay between their walls when they
 start on one or meet several at once

---
 src/optimise/LeapFrog.cpp | 23 +++++++++--------------
 src/optimise/LeapFrog.hpp |  3 +++
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/optimise/LeapFrog.cpp b/src/optimise/LeapFrog.cpp
index 6b06b19..287269d 100644
--- a/src/optimise/LeapFrog.cpp
+++ b/src/optimise/LeapFrog.cpp
@@ -17,22 +17,17 @@ void LeapFrog::FirstIntersectionTime(const ParameterDict &initPos_,
     for (ParameterDict::const_iterator it = initPos_.begin(); it != initPos_.end(); ++it)
     {
         double vel = momenta_.at(it->first) / masses_.at(it->first);
-        double mintime = IntersectionTime(minima_.at(it->first), initPos_.at(it->first), vel);
-        double maxtime = IntersectionTime(maxima_.at(it->first), initPos_.at(it->first), vel);
-
-        // only pick up crosses in the right direction
-        // the other way shouldn't happen, but round off error can make it so
-        bool mincrossed = (mintime > 0 && mintime < epsilon_ && (it->second > minima_.at(it->first)));
-        bool maxcrossed = (maxtime > 0 && maxtime < epsilon_ && (it->second < maxima_.at(it->first)));
-
-        if (!mincrossed && !maxcrossed)
+        if (vel == 0)
             continue;
 
-        double time;
-        if (mincrossed)
-            time = mintime;
-        else if (maxcrossed)
-            time = maxtime;
+        // only the wall it is moving towards can be crossed
+        // if it is already there, or beyond it by round off error, it has to be reflected straight away
+        double wall = vel < 0 ? minima_.at(it->first) : maxima_.at(it->first);
+        double time = IntersectionTime(wall, it->second, vel);
+        if (!(time < epsilon_))
+            continue;
+        if (time < 0)
+            time = 0;
 
         if (crossTime_ == -1 || time < crossTime_)
         {
diff --git a/src/optimise/LeapFrog.hpp b/src/optimise/LeapFrog.hpp
index cca8b61..6da8394 100644
--- a/src/optimise/LeapFrog.hpp
+++ b/src/optimise/LeapFrog.hpp
@@ -84,6 +84,9 @@ void LeapFrog::Hamiltonian(ParameterDict &qs_, ParameterDict &ps_,
             for (ParameterDict::iterator it = qs_.begin(); it != qs_.end(); ++it)
                 it->second += reflectTime * ps_[it->first] / masses_.at(it->first);
 
+            // it is on the wall now, whatever the rounding
+            qs_.at(reflectDim) = ps_.at(reflectDim) < 0 ? minima_.at(reflectDim) : maxima_.at(reflectDim);
+
             // flip the offending momentum
             ps_.at(reflectDim) *= -1;
 
-- 
2.43.0


From b1371cc4aa7ff59e08b4119fe9c1a8cfc643c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 72/93] fix: trajectories of no steps leave the momentum, walls
 without room between them are refused

---
 src/optimise/LeapFrog.h   | 1 +
 src/optimise/LeapFrog.hpp | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/optimise/LeapFrog.h b/src/optimise/LeapFrog.h
index eb9b2b9..93d3a51 100644
--- a/src/optimise/LeapFrog.h
+++ b/src/optimise/LeapFrog.h
@@ -2,6 +2,7 @@
 #define __OXSX__LEAP_FROG__
 #include <vector>
 #include <ParameterDict.h>
+#include <Exceptions.h>
 
 class LeapFrog
 {
diff --git a/src/optimise/LeapFrog.hpp b/src/optimise/LeapFrog.hpp
index 6da8394..ea94688 100644
--- a/src/optimise/LeapFrog.hpp
+++ b/src/optimise/LeapFrog.hpp
@@ -24,6 +24,9 @@ void LeapFrog::Hamiltonian(ParameterDict &qs_, ParameterDict &ps_,
                            const ParameterDict &masses_,
                            double epsilon_, T &differ_, int nSteps_)
 {
+    if (nSteps_ < 1)
+        return;
+
     // step 1 take a half step in momentum
     ParameterDict grad = differ_(qs_);
     for (ParameterDict::iterator it = ps_.begin(); it != ps_.end(); ++it)
@@ -61,6 +64,11 @@ void LeapFrog::Hamiltonian(ParameterDict &qs_, ParameterDict &ps_,
     /// https://papers.nips.cc/paper/5801-reflection-refraction-and-hamiltonian-monte-carlo.pdf
     /// pg4 - simplified for only 1d constant boundaries and no refraction (= hard boundaries with delta U = inf)
 
+    // there has to be some room between the walls
+    for (ParameterDict::iterator it = qs_.begin(); it != qs_.end(); ++it)
+        if (!(minima_.at(it->first) < maxima_.at(it->first)))
+            throw ValueError("LeapFrog::Hamiltonian, the minimum is not below the maximum for " + it->first);
+
     for (int i = 0; i < nSteps_; i++)
     {
         // step 1 take a half step in momentum
-- 
2.43.0


From 88c1923f3a051b0fb11f0f83ac4ca521299732bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 73/93] fix: a parameter without a mass is refused rather than
 given a mass of zero

---
 src/optimise/HamiltonianSampler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/HamiltonianSampler.hpp b/src/optimise/HamiltonianSampler.hpp
index 9415316..f0a2c44 100644
--- a/src/optimise/HamiltonianSampler.hpp
+++ b/src/optimise/HamiltonianSampler.hpp
@@ -24,7 +24,7 @@ HamiltonianSampler<StatType>::Draw(const ParameterDict &thisStep_)
 
     for (ParameterDict::const_iterator it = thisStep_.begin(); it != thisStep_.end(); ++it)
     {
-        momenta[it->first] = Rand::Gaus(0, sqrt(fMasses[it->first]));
+        momenta[it->first] = Rand::Gaus(0, sqrt(fMasses.at(it->first)));
     }
 
     fCorr = KineticEnergy(momenta);
-- 
2.43.0


From 9abd6c58e3e17d6aaf5f19710d07a1a900057749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 74/93] fix: soft walls are finite however far beyond them

---
 src/optimise/SigmoidBoundary.h   |  1 +
 src/optimise/SigmoidBoundary.hpp | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/optimise/SigmoidBoundary.h b/src/optimise/SigmoidBoundary.h
index 20e18fd..75258e7 100644
--- a/src/optimise/SigmoidBoundary.h
+++ b/src/optimise/SigmoidBoundary.h
@@ -16,6 +16,7 @@ public:
    std::set<std::string> GetParameterNames() const { return fStat.GetParameterNames(); }
 
 private:
+   static double Wall(double x_);
    Energy &fStat;
    double fMu;
    ParameterDict fParams;
diff --git a/src/optimise/SigmoidBoundary.hpp b/src/optimise/SigmoidBoundary.hpp
index c36146b..ab99615 100644
--- a/src/optimise/SigmoidBoundary.hpp
+++ b/src/optimise/SigmoidBoundary.hpp
@@ -1,4 +1,13 @@
 #include <cmath>
+#include <algorithm>
+
+// log(1 + exp(x)), which is just x where the exponential would overflow
+template <typename Energy>
+double
+SigmoidBoundary<Energy>::Wall(double x_)
+{
+    return std::max(x_, 0.) + log1p(exp(-std::fabs(x_)));
+}
 
 template <typename Energy>
 void SigmoidBoundary<Energy>::SetParameters(const ParameterDict &d_)
@@ -17,13 +26,13 @@ SigmoidBoundary<Energy>::Evaluate()
     for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end();
          ++it)
     {
-        correctedEnergy += log(1 + exp(-fMu * (fParams[it->first] - it->second)));
+        correctedEnergy += Wall(-fMu * (fParams[it->first] - it->second));
     }
 
     for (ParameterDict::iterator it = fMaxima.begin(); it != fMaxima.end();
          ++it)
     {
-        correctedEnergy += log(1 + exp(+fMu * (fParams[it->first] - it->second)));
+        correctedEnergy += Wall(+fMu * (fParams[it->first] - it->second));
     }
     return correctedEnergy;
 }
-- 
2.43.0


From 9d41a577c9003fec5d5e4c194377d4b8d11ae59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 75/93] fix: the best fit of a chain includes its last accepted
 step

---
 src/optimise/MCMC.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 1552b09..181b0cb 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -249,6 +249,12 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
     {
         fCurrentVal = proposedVal;
         fCurrentStep = proposedStep_;
+
+        if (fCurrentVal > fMaxVal)
+        {
+            fMaxVal = fCurrentVal;
+            fBestFit = fCurrentStep;
+        }
     }
 
     return accept;
-- 
2.43.0


From b70f2feba4fd1d155833811e706e25bdbafb1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 76/93] fix: the sampler's correction counts for unlogged
 statistics too, one update of the best fit

---
 src/optimise/MCMC.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 181b0cb..72c8b29 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -227,17 +227,11 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         proposedVal = -proposedVal;
     }
 
-    if (fCurrentVal > fMaxVal)
-    {
-        fMaxVal = fCurrentVal;
-        fBestFit = fCurrentStep;
-    }
-
     long double acceptanceParam = 0;
     if (fTestStatLogged)
         acceptanceParam = exp(proposedVal - fCurrentVal + fSampler.CorrectAccParam());
     else
-        acceptanceParam = proposedVal / fCurrentVal;
+        acceptanceParam = proposedVal / fCurrentVal * exp(fSampler.CorrectAccParam());
 
     bool accept = false;
     if (acceptanceParam > 1 || isinf(acceptanceParam))
-- 
2.43.0


From 45cb7dab7b72c8df30d66188153774dba4aa326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 77/93] fix: every run of a MCMC is a chain of its own,
 settings of other parameters are refused

---
 src/optimise/MCMC.cpp | 11 ++++++++++-
 src/optimise/MCMC.h   |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 72c8b29..47ae995 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -152,8 +152,17 @@ MCMC::Optimise(TestStatistic *testStat_)
                          << ContainerTools::ToString(testStat_->GetParameterNames())
                          << "\n If initial trial is specified it should be one per fit parameter");
 
-    // 1. Choose a random starting point or the user defined one
+    // they have to be the settings of these parameters
     std::set<std::string> parameterNames = testStat_->GetParameterNames();
+    for (std::set<std::string>::iterator it = parameterNames.begin(); it != parameterNames.end(); ++it)
+        if (!fMinima.count(*it) || !fMaxima.count(*it) || (fInitialTrial.size() && !fInitialTrial.count(*it)))
+            throw LogicError("MCMC initialisation error - missing the minimum, maximum or initial trial of parameter " + *it);
+
+    // every run is a new chain
+    fSamples.Clear();
+    fCurrentStep.clear();
+
+    // 1. Choose a random starting point or the user defined one
     if (fInitialTrial.size())
         fCurrentStep = fInitialTrial;
     else
diff --git a/src/optimise/MCMC.h b/src/optimise/MCMC.h
index 66139c9..6b0c2b7 100644
--- a/src/optimise/MCMC.h
+++ b/src/optimise/MCMC.h
@@ -17,7 +17,8 @@ public:
                          fCurrentVal(0.),
                          fSamples(this),
                          pTestStatistic(NULL),
-                         fSampler(s_)
+                         fSampler(s_),
+                         fSaveChain(false)
    {
    }
 
-- 
2.43.0


From 1f3f67a5d04899d3d94b606d1e5af0f35041eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 78/93] fix: chain branches point to values that exist,
 thinning factors below one are refused

---
 src/optimise/MCMCSamples.cpp | 5 ++++-
 src/optimise/MCMCSamples.h   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 424b907..f1caa5d 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -3,6 +3,7 @@
 #include <HistTools.h>
 #include <MCMC.h>
 #include <ContainerTools.hpp>
+#include <Exceptions.h>
 
 void MCMCSamples::SetSaveFullHistogram(bool b_)
 {
@@ -110,7 +111,7 @@ void MCMCSamples::InitialiseHistograms()
         fChain->Branch("Step", &fStepNumber, "Step/I");
         fChain->Branch("StepTime", &fStepTime, "StepTime/D");
 
-        parvals.reserve(paramNames.size());
+        parvals.resize(paramNames.size());
         for (std::set<std::string>::iterator it = paramNames.begin();
              it != paramNames.end(); ++it)
         {
@@ -213,6 +214,8 @@ int MCMCSamples::GetThinFactor() const
 
 void MCMCSamples::SetThinFactor(int tf_)
 {
+    if (tf_ < 1)
+        throw ValueError("MCMCSamples::SetThinFactor, the thinning factor must be at least 1");
     fThinFactor = tf_;
 }
 
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index eab5a53..7c38277 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -14,7 +14,7 @@ public:
    MCMCSamples(MCMC *p_) : fSaveFullHistogram(false), fAcceptedSteps(0), fTotalSteps(0),
                            fBurnIn(1000), fThinFactor(1), fInitialised(false), fMCMC(p_),
                            fAutoCorrelator(1000),
-                           fSaveChain(false)
+                           fChain(NULL), fSaveChain(false)
    {
    }
 
-- 
2.43.0


From 9e92ce7ff3a2503c297c8877ad61615f8d73d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 79/93] fix: data set generators draw every event left, none
 twice and no more than there are

---
 src/data/DataSetGenerator.cpp | 249 ++++++++++++++--------------------
 src/data/DataSetGenerator.h   |   7 +-
 2 files changed, 106 insertions(+), 150 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 97a621f..db2bbcb 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -23,10 +23,7 @@ void DataSetGenerator::AddCut(const Cut &cut_)
 void DataSetGenerator::SetDataSets(const std::vector<DataSet *> sets_)
 {
   fDataSets = sets_;
-  fEventIndicies.clear();
-  fMaxs.clear();
-  fEventIndicies.resize(sets_.size());
-  fMaxs.resize(sets_.size(), -999);
+  Reset();
 }
 
 void DataSetGenerator::SetExpectedRates(const std::vector<double> &rates_)
@@ -34,14 +31,54 @@ void DataSetGenerator::SetExpectedRates(const std::vector<double> &rates_)
   fExpectedRates = rates_;
 }
 
-OXSXDataSet
-DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
+void DataSetGenerator::CheckDataSets() const
+{
+  if (!fDataSets.size())
+    throw LogicError("Can't generate fake data: no input data sets");
+
+  // the output can have only one set of observables
+  for (size_t i = 1; i < fDataSets.size(); i++)
+    if (fDataSets.at(i)->GetObservableNames() != fDataSets.at(0)->GetObservableNames())
+      throw LogicError("Can't generate fake data: data sets have different observables");
+}
+
+void DataSetGenerator::CheckInputs() const
 {
   if (fExpectedRates.size() != fDataSets.size())
     throw LogicError("Can't generate fake data: need one rate exactly for each data set");
 
-  if (!fDataSets.size())
-    throw LogicError("Can't generate fake data: no input data sets");
+  CheckDataSets();
+
+  if (fBootstraps.size() < fDataSets.size())
+    throw NotFoundError("Bootstrap flags not set for dataset");
+
+  for (size_t i = 0; i < fDataSets.size(); i++)
+  {
+    if (!(fExpectedRates.at(i) >= 0) || std::isinf(fExpectedRates.at(i)))
+      throw ValueError(Formatter() << "Can't generate fake data: expected rate of data set " << i
+                                   << " is " << fExpectedRates.at(i));
+
+    if (!fBootstraps.at(i) && fSequentialFlags.size() <= i)
+      throw NotFoundError("Sequential flags not set for dataset");
+  }
+}
+
+void DataSetGenerator::Draw(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_)
+{
+  if (fBootstraps.at(handleIndex_))
+    RandomDrawsWithReplacement(handleIndex_, nEvents_, data_);
+
+  else if (fSequentialFlags.at(handleIndex_))
+    SequentialDrawsNoReplacement(handleIndex_, nEvents_, data_);
+
+  else
+    RandomDrawsNoReplacement(handleIndex_, nEvents_, data_);
+}
+
+OXSXDataSet
+DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
+{
+  CheckInputs();
 
   // if requested note down the events taken
   if (eventsTaken_)
@@ -53,24 +90,9 @@ DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
   dataSet.SetObservableNames(fDataSets.at(0)->GetObservableNames());
   for (size_t i = 0; i < fDataSets.size(); i++)
   {
-    unsigned expectedCounts = round(fExpectedRates.at(i));
-
-    if (fBootstraps.size() == 0)
-      throw NotFoundError("Bootstrap flags not set for dataset");
-
-    if (fBootstraps.at(i))
-      RandomDrawsWithReplacement(i, expectedCounts, dataSet);
-    else
-    {
+    size_t expectedCounts = round(fExpectedRates.at(i));
+    Draw(i, expectedCounts, dataSet);
 
-      if (fSequentialFlags.size() == 0)
-        throw NotFoundError("Sequential flags not set for dataset");
-
-      if (fSequentialFlags.at(i))
-        SequentialDrawsNoReplacement(i, expectedCounts, dataSet);
-      else
-        RandomDrawsNoReplacement(i, expectedCounts, dataSet);
-    }
     if (eventsTaken_)
       eventsTaken_->push_back(expectedCounts);
   }
@@ -81,10 +103,7 @@ DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
 OXSXDataSet
 DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
 {
-  if (fExpectedRates.size() != fDataSets.size())
-    throw LogicError("Can't generate fake data: need one rate exactly for each data set");
-  if (!fDataSets.size())
-    throw LogicError("Can't generate fake data: no input data sets");
+  CheckInputs();
 
   // if requested note down the events taken
   if (eventsTaken_)
@@ -102,25 +121,7 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
   for (size_t i = 0; i < fDataSets.size(); i++)
   {
     size_t counts = Rand::Poisson(fExpectedRates.at(i));
-
-    if (fBootstraps.size() == 0)
-      throw NotFoundError("Bootstrap flags not set for dataset");
-
-    if (fBootstraps.at(i))
-      RandomDrawsWithReplacement(i, counts, dataSet);
-
-    else
-    {
-
-      if (fSequentialFlags.size() == 0)
-        throw NotFoundError("Sequential flags not set for dataset");
-
-      if (fSequentialFlags.at(i))
-        SequentialDrawsNoReplacement(i, counts, dataSet);
-
-      else
-        RandomDrawsNoReplacement(i, counts, dataSet);
-    }
+    Draw(i, counts, dataSet);
 
     if (eventsTaken_)
       eventsTaken_->push_back(counts);
@@ -131,6 +132,8 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
 OXSXDataSet
 DataSetGenerator::AllValidEvents(std::vector<int> *eventsTaken_)
 {
+  CheckDataSets();
+
   // if requested note down the events taken
   if (eventsTaken_)
   {
@@ -173,7 +176,20 @@ void DataSetGenerator::Reset()
 {
   fEventIndicies.clear();
   fEventIndicies.resize(fDataSets.size());
-  fMaxs = std::vector<size_t>(fDataSets.size(), -999);
+  fNDrawn = std::vector<size_t>(fDataSets.size(), 0);
+}
+
+std::vector<size_t> &
+DataSetGenerator::GetEventIndices(size_t handleIndex_)
+{
+  std::vector<size_t> &eventIndices = fEventIndicies.at(handleIndex_);
+  size_t nEntries = fDataSets.at(handleIndex_)->GetNEntries();
+
+  eventIndices.reserve(nEntries);
+  for (size_t i = eventIndices.size(); i < nEntries; i++)
+    eventIndices.push_back(i);
+
+  return eventIndices;
 }
 
 void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_,
@@ -182,25 +198,14 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
 
   // see http://stackoverflow.com/questions/196017/unique-non-repeating-random-numbers-in-o1#196065
   // credit to Robert Gamble http://stackoverflow.com/users/25222/robert-gamble
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
+  std::vector<size_t> &eventIndices = GetEventIndices(handleIndex_);
+  size_t &nDrawn = fNDrawn[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > eventIndices.size() - nDrawn)
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsNoReplacement() asked for "
-                                    << nEvents_ << " but only have " << origData->GetNEntries()
-                                    << "events!)");
-
-  size_t cache = -1; // for swapping
-  size_t draw = -1;  // the random draw
+                                    << nEvents_ << " but only have " << eventIndices.size() - nDrawn
+                                    << " events left!");
 
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
   for (size_t i = 0; i < nEvents_; i++)
@@ -208,21 +213,15 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-    // draw
-    draw = Rand::Shoot(max);
-
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
+    // draw any of the events left and move it in front of them
+    size_t draw = nDrawn + Rand::Shoot(eventIndices.size() - nDrawn);
+    std::swap(eventIndices.at(draw), eventIndices.at(nDrawn));
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[max])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[max]));
-
-    // deincrement
-    max--;
+    Event event = origData->GetEntry(eventIndices.at(nDrawn));
+    nDrawn++;
+    if (fCuts.PassesCuts(event))
+      outData_.AddEntry(event);
   }
 
   return;
@@ -231,39 +230,23 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
 void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nEvents_,
                                                   OXSXDataSet &outData_)
 {
-
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
-  size_t draw = -1; // the random draw
-
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
   for (size_t i = 0; i < nEvents_; i++)
   {
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw
-    draw = Rand::Shoot(max);
+    // draw any of the events, whether or not they have been drawn before
+    Event event = origData->GetEntry(Rand::Shoot(origData->GetNEntries()));
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[draw]));
+    if (fCuts.PassesCuts(event))
+      outData_.AddEntry(event);
   }
 
   return;
@@ -275,7 +258,7 @@ void DataSetGenerator::AddDataSet(DataSet *data_, double rate_, bool flag_)
   fDataSets.push_back(data_);
   fExpectedRates.push_back(rate_);
   fEventIndicies.push_back(std::vector<size_t>());
-  fMaxs.push_back(0);
+  fNDrawn.push_back(0);
 }
 
 const std::vector<bool> &
@@ -294,37 +277,20 @@ void DataSetGenerator::ClearDataSets()
   fSequentialFlags.clear();
   fExpectedRates.clear();
   fEventIndicies.clear();
-  fMaxs.clear();
+  fNDrawn.clear();
   fDataSets.clear();
 }
 
 void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_)
 {
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
+  std::vector<size_t> &eventIndices = GetEventIndices(handleIndex_);
+  size_t &nDrawn = fNDrawn[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > eventIndices.size() - nDrawn)
     throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
                                     << "\n\t (asked for " << nEvents_
-                                    << " but only have " << max << " (left)");
-
-  if (!(origData->GetNEntries()))
-    throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
-                                    << nEvents_ << " but there are no events!");
-
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
-  size_t draw = -1; // the random draw
-  size_t cache = -1;
-  // data_.Reserve(data_.GetNEntries() + nEvents_);
+                                    << " but only have " << eventIndices.size() - nDrawn << " (left)");
 
   size_t oneTenth = nEvents_ / 10;
   for (size_t i = 0; i < nEvents_; i++)
@@ -332,23 +298,13 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     if (oneTenth && !(i % oneTenth))
       std::cout << i << "/" << nEvents_ << "   (  " << 10 * i / oneTenth << " %)" << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw --> always take the first one
-    draw = 0;
-
-    // swap
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
+    // always take the first one left
+    Event event = origData->GetEntry(eventIndices.at(nDrawn));
+    nDrawn++;
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      data_.AddEntry(origData->GetEntry(eventIndices[draw]));
-
-    // deincrement
-    max--;
+    if (fCuts.PassesCuts(event))
+      data_.AddEntry(event);
   }
 
   return;
@@ -368,31 +324,26 @@ DataSetGenerator::GetSequentialFlags() const
 OXSXDataSet *
 DataSetGenerator::AllRemainingEvents(size_t iDS_, int *eventsTaken_)
 {
+  const std::vector<size_t> &eventIndices = GetEventIndices(iDS_);
+  const size_t nDrawn = fNDrawn.at(iDS_);
+  const size_t nEvents = eventIndices.size() - nDrawn;
+
   OXSXDataSet *ds = new OXSXDataSet();
   ds->SetObservableNames(fDataSets.at(iDS_)->GetObservableNames());
-  *eventsTaken_ = 0;
-
-  size_t nEvents = fMaxs.at(iDS_);
-  if (nEvents == static_cast<size_t>(-999))
-    nEvents = (fDataSets.at(iDS_)->GetNEntries()) - 1;
-
-  if (nEvents == static_cast<size_t>(-1))
-    return ds; // in case all events drawn and not replaced
-
-  const std::vector<size_t> &eventIndices = fEventIndicies[iDS_];
 
   size_t oneTenth = nEvents / 10;
 
-  for (size_t jEV = 0; jEV <= nEvents; jEV++)
+  for (size_t jEV = 0; jEV < nEvents; jEV++)
   {
     if (oneTenth && !(jEV % oneTenth))
       std::cout << jEV << "/" << nEvents << "\t"
                 << "(" << 10 * jEV / oneTenth
                 << "%)"
                 << std::endl;
-    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(eventIndices.at(jEV)));
+    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(eventIndices.at(nDrawn + jEV)));
   }
 
-  *eventsTaken_ = nEvents;
+  if (eventsTaken_)
+    *eventsTaken_ = nEvents;
   return ds;
 }
diff --git a/src/data/DataSetGenerator.h b/src/data/DataSetGenerator.h
index edea345..1c50200 100644
--- a/src/data/DataSetGenerator.h
+++ b/src/data/DataSetGenerator.h
@@ -45,8 +45,13 @@ private:
    std::vector<bool> fSequentialFlags;
    std::vector<DataSet *> fDataSets;
    std::vector<double> fExpectedRates;
+   // for each data set, an ordering of its events and how many of the first of them have been drawn already
    std::vector<std::vector<size_t>> fEventIndicies;
-   std::vector<size_t> fMaxs;
+   std::vector<size_t> fNDrawn;
+   std::vector<size_t> &GetEventIndices(size_t handleIndex_);
+   void CheckInputs() const;
+   void CheckDataSets() const;
+   void Draw(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void RandomDrawsWithReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
-- 
2.43.0


From 3d0b0166a9461d692a9954c28a65db6a1d6c3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 80/93] fix: binned generators refuse empty pdfs, different
 binnings and negative rates

---
 src/dist/BinnedEDGenerator.cpp | 29 ++++++++++++++++++++++-------
 src/dist/BinnedEDGenerator.h   |  1 +
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/dist/BinnedEDGenerator.cpp b/src/dist/BinnedEDGenerator.cpp
index a59cc6e..b8e275e 100644
--- a/src/dist/BinnedEDGenerator.cpp
+++ b/src/dist/BinnedEDGenerator.cpp
@@ -6,8 +6,7 @@
 #include <iostream>
 #include <algorithm>
 
-BinnedED
-BinnedEDGenerator::ExpectedRatesED(const std::string &name) const
+void BinnedEDGenerator::CheckInputs() const
 {
     if (!(fPdfs.size() == fRates.size()))
         throw LogicError("BinnedEDGenerator::Need exactly one rate for each ");
@@ -15,6 +14,23 @@ BinnedEDGenerator::ExpectedRatesED(const std::string &name) const
     if (!fPdfs.size())
         throw LogicError("BinnedEDGenerator::No source pdfs!!");
 
+    for (size_t i = 0; i < fPdfs.size(); i++)
+    {
+        if (!(fRates.at(i) >= 0) || std::isinf(fRates.at(i)))
+            throw ValueError(Formatter() << "BinnedEDGenerator::Rate of pdf " << fPdfs.at(i).GetName()
+                                         << " is " << fRates.at(i));
+
+        // the output can have only one binning
+        if (fPdfs.at(i).GetAxes() != fPdfs.at(0).GetAxes())
+            throw LogicError("BinnedEDGenerator::Pdfs have different binnings!");
+    }
+}
+
+BinnedED
+BinnedEDGenerator::ExpectedRatesED(const std::string &name) const
+{
+    CheckInputs();
+
     BinnedED fakePdf(fPdfs.at(0));
 
     if (name == "")
@@ -47,11 +63,7 @@ BinnedEDGenerator::ExpectedRatesED(const std::string &name) const
 BinnedED
 BinnedEDGenerator::PoissonFluctuatedED(const std::string &name) const
 {
-    if (!(fPdfs.size() == fRates.size()))
-        throw LogicError("BinnedEDGenerator::Need exactly one rate for each ");
-
-    if (!fPdfs.size())
-        throw LogicError("BinnedEDGenerator::No source pdfs!!");
+    CheckInputs();
 
     BinnedED fakePdf(fPdfs.at(0));
 
@@ -88,6 +100,9 @@ BinnedEDGenerator::RandomBin(size_t pdfIndex_) const
     if (!fPdfs.at(pdfIndex_).GetNDims())
         throw LogicError("BinnedEDGenerator::Pdf of dimension 0!");
 
+    if (!(fPdfs.at(pdfIndex_).Integral() > 0))
+        throw ValueError("BinnedEDGenerator::Can't draw from the empty pdf " + fPdfs.at(pdfIndex_).GetName());
+
     // construct cdf
     std::vector<double> cdf(fPdfs.at(pdfIndex_).GetNBins(), 0);
     double sum = 0;
diff --git a/src/dist/BinnedEDGenerator.h b/src/dist/BinnedEDGenerator.h
index aa08a84..2ce337d 100644
--- a/src/dist/BinnedEDGenerator.h
+++ b/src/dist/BinnedEDGenerator.h
@@ -18,5 +18,6 @@ private:
    std::vector<BinnedED> fPdfs;
    std::vector<double> fRates;
    size_t RandomBin(size_t pdfIndex_) const;
+   void CheckInputs() const;
 };
 #endif
-- 
2.43.0


From bc35be4ef20fcb5d75df1df964f0f49d9d1745ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 81/93] fix: von Neumann sampling draws from the function

---
 src/rand/Rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/Rand.cpp b/src/rand/Rand.cpp
index 0656e90..8b87db2 100644
--- a/src/rand/Rand.cpp
+++ b/src/rand/Rand.cpp
@@ -63,11 +63,11 @@ Rand::VonNeumannSample(Function *f_, double xMin_, double xMax_, double yMax_)
   double fOfX = 1;
   double val = 0;
 
-  while (val > fOfX)
+  do
   {
     draw = Uniform() * (xMax_ - xMin_) + xMin_;
     fOfX = f_->operator()(std::vector<double>(1, draw));
     val = Uniform() * yMax_;
-  }
+  } while (val > fOfX);
   return draw;
 }
-- 
2.43.0


From 3408b4e37e443f11c68626f693023841c12b32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 82/93] fix: jumps to a point of too few coordinates are
 refused

---
 src/function/JumpPDF.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 48f6a0c..e953294 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -53,6 +53,9 @@ std::vector<double>
 JumpPDF::Diff(const std::vector<double> &x_,
               const std::vector<double> &x2_) const
 {
+  if (x2_.size() < x_.size())
+    throw DimensionError("JumpPDF::", x_.size(), x2_.size(), " coordinates to jump to");
+
   std::vector<double> diff = x_;
   std::transform(diff.begin(), diff.end(), x2_.begin(),
                  diff.begin(), std::minus<double>());
@@ -63,6 +66,9 @@ std::vector<double>
 JumpPDF::Sum(const std::vector<double> &x_,
              const std::vector<double> &x2_) const
 {
+  if (x2_.size() < x_.size())
+    throw DimensionError("JumpPDF::", x_.size(), x2_.size(), " coordinates to jump to");
+
   std::vector<double> sum = x_;
   std::transform(sum.begin(), sum.end(), x2_.begin(),
                  sum.begin(), std::plus<double>());
-- 
2.43.0


From 5b08c3200cdb3bd13975c24f2200d1b549961fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:57 +0000
Subject: [PATCH 83/93] fix: Gaussians without a width are all at their mean,
 widths that are not numbers are refused

---
 src/function/Gaussian.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 47aae6c..9d7dd22 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -156,7 +156,7 @@ void Gaussian::SetMeansStdDevs(const std::vector<double> &means_,
         throw DimensionError("Gaussian::Tried to set Gaussian function with #means != #stdDevs!");
 
     for (const auto &std_dev : stdDevs_)
-        if (std_dev <= 0)
+        if (!(std_dev > 0))
             throw ValueError("Gaussian::Gaussian standard deviation must be greater than 0!");
 
     fMeans = means_;
@@ -206,7 +206,11 @@ Gaussian::operator()(const std::vector<double> &vals_) const
         mean = fMeans.at(i);
         stdDev = fStdDevs.at(i);
 
-        nDevs = (vals_.at(i) - mean) / stdDev;
+        // no width: it's all at the mean
+        if (stdDev == 0 && vals_.at(i) != mean)
+            return 0;
+
+        nDevs = stdDev == 0 ? 0 : (vals_.at(i) - mean) / stdDev;
         exponent += nDevs * nDevs;
     }
 
@@ -220,6 +224,10 @@ Gaussian::operator()(const std::vector<double> &vals_) const
 double
 Gaussian::Cdf(size_t dim_, double val_) const
 {
+    // no width: it's all at the mean
+    if (GetStDev(dim_) == 0)
+        return val_ < GetMean(dim_) ? 0 : 1;
+
     double nDevs = (val_ - GetMean(dim_)) / GetStDev(dim_);
     if (nDevs > fCdfCutOff)
         return 1;
-- 
2.43.0


From a5af28b87d21948445126b0c0f400ef3a8e4915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 84/93] fix: Minuit keeps the contour edge it was given

---
 src/optimise/Minuit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index ec22c18..53ace9c 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -107,7 +107,9 @@ void Minuit::Initialise(TestStatistic *testStat_)
     fParameterNames = GetKeys(fInitialErrors);
 
     // pass this ordering on to the called function so it knows the right order too
+    const double up = fMinuitFCN.GetUp(); // keep the user's contour edge
     fMinuitFCN = MinuitFCN(testStat_, fParameterNames);
+    fMinuitFCN.SetUp(up);
 
     // max or min?
     if (fMaximising)
-- 
2.43.0


From 126382564171785238493868a5a5e4455027fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 85/93] fix: Minuit's function forgets the parameters of an
 earlier fit

---
 src/optimise/MinuitFCN.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MinuitFCN.cpp b/src/optimise/MinuitFCN.cpp
index a3759c3..fd8a4cd 100644
--- a/src/optimise/MinuitFCN.cpp
+++ b/src/optimise/MinuitFCN.cpp
@@ -25,7 +25,8 @@ MinuitFCN::operator=(const MinuitFCN &other_)
     fFlipSign = other_.fFlipSign;
     fParameterNames = other_.fParameterNames;
 
-    // don't bother copying fSetParameters
+    // don't bother copying fSetParameters, but don't keep parameters of another fit either
+    fSetParameters.clear();
     return *this;
 }
 
-- 
2.43.0


From 05bc92c1b74533f137eb1f322f0dacb71295265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 86/93] fix: Minuit limits on some of the parameters leave the
 others free

---
 src/optimise/Minuit.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 53ace9c..e5ef200 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -95,7 +95,7 @@ void Minuit::Initialise(TestStatistic *testStat_)
     for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end();
          ++it)
     {
-        if (fMinima[it->first] >= fMaxima[it->first])
+        if (!(it->second < fMaxima.at(it->first)))
             throw LogicError(Formatter()
                              << "Minuit initialisation error "
                              << "Invalid fit range for " << it->first
@@ -118,14 +118,13 @@ void Minuit::Initialise(TestStatistic *testStat_)
     // Create parameters and set limits
     MnUserParameters params(GetValues(fInitialValues, fParameterNames), GetValues(fInitialErrors, fParameterNames));
 
-    if (fMinima.size() && fMaxima.size())
+    // the others are free to go anywhere
+    unsigned i = 0;
+    for (std::set<std::string>::iterator it = fParameterNames.begin();
+         it != fParameterNames.end(); ++it, ++i)
     {
-        int i = 0;
-        for (std::set<std::string>::iterator it = fParameterNames.begin();
-             it != fParameterNames.end(); ++it)
-        {
-            params.SetLimits(i++, fMinima[*it], fMaxima[*it]);
-        }
+        if (fMinima.count(*it))
+            params.SetLimits(i, fMinima.at(*it), fMaxima.at(*it));
     }
 
     ROOT::Minuit2::MnStrategy strategy(fStrategy);
-- 
2.43.0


From 2f873d88daa0006345f804bbb7e00a26132cf4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 87/93] fix: copies of a Minuit optimiser no longer delete the
 same minimiser

---
 src/optimise/Minuit.cpp | 25 +++++++++----------------
 src/optimise/Minuit.h   |  7 ++-----
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index e5ef200..57b1900 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -21,11 +21,6 @@ using ROOT::Minuit2::MnUserParameters;
 
 // FIXME:: CHeck the length of the vectors as you set them match fNparams
 
-Minuit::~Minuit()
-{
-    delete fMinimiser;
-}
-
 void Minuit::SetMethod(const std::string &method_)
 {
     fMethod = method_;
@@ -68,11 +63,9 @@ void Minuit::SetMinima(const ParameterDict &minima_) { fMinima = minima_; }
 ParameterDict
 Minuit::GetMinima() const { return fMinima; }
 
-void Minuit::Initialise(TestStatistic *testStat_)
+std::unique_ptr<ROOT::Minuit2::MnApplication>
+Minuit::Initialise(TestStatistic *testStat_)
 {
-    delete fMinimiser;
-    fMinimiser = NULL;
-
     // check everything makes sense
     if (!HasSameKeys(fMinima, fMaxima))
         throw LogicError(Formatter()
@@ -130,13 +123,13 @@ void Minuit::Initialise(TestStatistic *testStat_)
     ROOT::Minuit2::MnStrategy strategy(fStrategy);
 
     if ("Migrad" == fMethod)
-        fMinimiser = new MnMigrad(fMinuitFCN, params, strategy);
+        return std::unique_ptr<ROOT::Minuit2::MnApplication>(new MnMigrad(fMinuitFCN, params, strategy));
 
     else if ("Minimize" == fMethod)
-        fMinimiser = new MnMinimize(fMinuitFCN, params, strategy);
+        return std::unique_ptr<ROOT::Minuit2::MnApplication>(new MnMinimize(fMinuitFCN, params, strategy));
 
     else if ("Simplex" == fMethod)
-        fMinimiser = new MnSimplex(fMinuitFCN, params, strategy);
+        return std::unique_ptr<ROOT::Minuit2::MnApplication>(new MnSimplex(fMinuitFCN, params, strategy));
     else
         throw ValueError(Formatter() << "Minuit::Unrecognised method - "
                                      << fMethod);
@@ -168,7 +161,7 @@ Minuit::Optimise(TestStatistic *testStat_)
 {
     testStat_->RegisterFitComponents();
 
-    Initialise(testStat_);
+    std::unique_ptr<ROOT::Minuit2::MnApplication> minimiser = Initialise(testStat_);
 
     if (testStat_->GetParameterNames() != fParameterNames)
         throw LogicError(Formatter() << "Minuit config parameters don't match the test statistic!\n"
@@ -185,13 +178,13 @@ Minuit::Optimise(TestStatistic *testStat_)
         if (found == fParameterNames.end())
             throw LogicError(Formatter() << "Unknown parameter to fix: " << fixedPar);
         size_t pos = std::distance(fParameterNames.begin(), found);
-        fMinimiser->Fix(pos);
+        minimiser->Fix(pos);
     }
 
     // defaults are same as ROOT defaults
-    ROOT::Minuit2::FunctionMinimum fnMin = fMinimiser->operator()(fMaxCalls, fTolerance);
+    ROOT::Minuit2::FunctionMinimum fnMin = minimiser->operator()(fMaxCalls, fTolerance);
 
-    fFitResult.SetBestFit(ContainerTools::CreateMap(fParameterNames, fMinimiser->Params()));
+    fFitResult.SetBestFit(ContainerTools::CreateMap(fParameterNames, minimiser->Params()));
     fFitResult.SetValid(fnMin.IsValid());
 
     if (fMaximising)
diff --git a/src/optimise/Minuit.h b/src/optimise/Minuit.h
index d406361..93c1061 100644
--- a/src/optimise/Minuit.h
+++ b/src/optimise/Minuit.h
@@ -13,6 +13,7 @@
 #include <FitResult.h>
 #include <DenseMatrix.h>
 #include <set>
+#include <memory>
 
 class TestStatistic;
 
@@ -23,10 +24,7 @@ public:
               fTolerance(0.1),
               fStrategy(2),
               fMethod("Migrad"),
-              fMinimiser(NULL),
               fMaximising(false) {}
-   ~Minuit();
-
    virtual const FitResult &Optimise(TestStatistic *);
 
    void Fix(const std::string &param_);
@@ -62,7 +60,7 @@ public:
    FitResult GetFitResult() const;
 
 private:
-   void Initialise(TestStatistic *);
+   std::unique_ptr<ROOT::Minuit2::MnApplication> Initialise(TestStatistic *);
    MinuitFCN fMinuitFCN; // wrapper on evaluator so migrad can call it
    ParameterDict fInitialValues;
    ParameterDict fInitialErrors;
@@ -76,7 +74,6 @@ private:
    int fStrategy;
 
    std::string fMethod;
-   ROOT::Minuit2::MnApplication *fMinimiser;
 
    std::set<std::string> fParameterNames;
    // the order they are held in vectors for ROOT
-- 
2.43.0


From 6dd578b17f3256ae5a0f61544df4adb3401a99a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 88/93] fix: variance of the auto correlation calculator was
 missing its division and truncated to integers

---
 src/optimise/AutoCorrelationCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/AutoCorrelationCalc.cpp b/src/optimise/AutoCorrelationCalc.cpp
index 68be4f1..5a55601 100644
--- a/src/optimise/AutoCorrelationCalc.cpp
+++ b/src/optimise/AutoCorrelationCalc.cpp
@@ -44,8 +44,8 @@ double
 AutoCorrelationCalc::Var() const
 {
     double mean = Mean();
-    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0);
-    return sumSq - mean * mean;
+    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0.0);
+    return sumSq / fValues.size() - mean * mean;
 }
 
 void AutoCorrelationCalc::Clear()
-- 
2.43.0


From 665b99693a36301410ea07875fb6b3f684ea85d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:12 +0000
Subject: [PATCH 89/93] fix: axes whose edges are not numbers or whose high
 edges are out of order are refused

---
 src/histogram/BinAxis.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/histogram/BinAxis.cpp b/src/histogram/BinAxis.cpp
index 202bacc..90c9097 100644
--- a/src/histogram/BinAxis.cpp
+++ b/src/histogram/BinAxis.cpp
@@ -1,6 +1,7 @@
 #include <BinAxis.h>
 #include <algorithm>
 #include <Exceptions.h>
+#include <cmath>
 #include <iostream>
 
 BinAxis::BinAxis(const std::string &name_, double min_, double max_, size_t nBins_,
@@ -14,7 +15,7 @@ BinAxis::BinAxis(const std::string &name_, double min_, double max_, size_t nBin
     fMin = min_;
     fMax = max_;
 
-    if (fMin >= fMax || !nBins_)
+    if (!std::isfinite(fMax - fMin) || fMin >= fMax || !nBins_)
         throw LogicError("BinAxis: Invalid bin specification: min > max or nbins = 0");
 
     fNBins = nBins_;
@@ -46,8 +47,12 @@ BinAxis::BinAxis(const std::string &name_, const std::vector<double> &lowEdges_,
 
     for (size_t i = 0; i < fBinLowEdges.size(); i++)
     {
+        if (std::isnan(fBinLowEdges.at(i)) || std::isnan(fBinHighEdges.at(i)))
+            throw LogicError("BinAxis: Bin edges must be numbers!");
         if (i && fBinLowEdges.at(i - 1) > fBinLowEdges.at(i))
             throw LogicError("BinAxis: Low edges not ordered!");
+        if (i && fBinHighEdges.at(i - 1) > fBinHighEdges.at(i))
+            throw LogicError("BinAxis: High edges not ordered!");
         if (fBinLowEdges.at(i) > fBinHighEdges.at(i))
             throw LogicError("BinAxis: Bin Low Edge is bigger than equivilent high edge!");
     }
-- 
2.43.0


From a5137f214ddb1ef2a4d0127f39af9b819e0896fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:17 +0000
Subject: [PATCH 90/93] fix: binned systematics refuse values that are not
 numbers

---
 src/systematic/Scale.cpp         | 3 ++-
 src/systematic/ScaleFunction.cpp | 3 +++
 src/systematic/Shape.cpp         | 3 ++-
 src/systematic/Shift.cpp         | 4 +++-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/systematic/Scale.cpp b/src/systematic/Scale.cpp
index a83eb18..036e3bb 100644
--- a/src/systematic/Scale.cpp
+++ b/src/systematic/Scale.cpp
@@ -1,4 +1,5 @@
 #include <Scale.h>
+#include <cmath>
 #include <sstream>
 #include <DoubleParameter.h>
 #include <Exceptions.h>
@@ -6,7 +7,7 @@
 
 void Scale::Construct()
 {
-    if (fScaleFactor <= 0)
+    if (!std::isfinite(fScaleFactor) || fScaleFactor <= 0)
         throw ValueError("Scale factor must be >0 !");
     if (fTransObs.GetNObservables() != 1)
         throw RepresentationError("Scale systematic must have a 1D representation!");
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index 8c2e3e4..a9a4121 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -1,5 +1,6 @@
 #include <ScaleFunction.h>
 #include <algorithm>
+#include <cmath>
 #include <sstream>
 #include <DoubleParameter.h>
 #include <Exceptions.h>
@@ -51,6 +52,8 @@ void ScaleFunction::Construct()
         // (a decreasing function swaps the two edges)
         const double lowTo = fScaleFunc(fParamDict, scaleAxis.GetBinLowEdge(bin));
         const double highTo = fScaleFunc(fParamDict, scaleAxis.GetBinHighEdge(bin));
+        if (std::isnan(lowTo) || std::isnan(highTo))
+            throw ValueError("User-defined scale function returned a value that is not a number");
         const double scaledLow = std::min(lowTo, highTo);
         const double scaledHigh = std::max(lowTo, highTo);
         // Then - which unscaled bins do these edges lie in?
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index dcae0c3..faa8da2 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -1,5 +1,6 @@
 #include <Shape.h>
 #include <Exceptions.h>
+#include <cmath>
 
 void Shape::SetShapeFunction(const ShapeFunction &shape_func,
                              const std::vector<std::string> &param_names)
@@ -48,7 +49,7 @@ void Shape::Construct()
     {
         fTransAxes.GetBinCentres(bin, bin_centres);
         const double scale = fShapeFunc(fParamDict, bin_centres);
-        if (scale < 0)
+        if (std::isnan(scale) || scale < 0)
         {
             throw ValueError("User-defined shape function returned negative value: " + std::to_string(scale));
         }
diff --git a/src/systematic/Shift.cpp b/src/systematic/Shift.cpp
index 07afaa7..fd085a4 100644
--- a/src/systematic/Shift.cpp
+++ b/src/systematic/Shift.cpp
@@ -1,4 +1,5 @@
 #include <Shift.h>
+#include <cmath>
 #include <sstream>
 #include <DoubleParameter.h>
 #include <Exceptions.h>
@@ -6,7 +7,8 @@
 
 void Shift::Construct()
 {
-
+    if (std::isnan(fShift))
+        throw ValueError("Shift must be a number!");
     if (fTransObs.GetNObservables() != 1)
         throw RepresentationError("Shift systematic must have a 1D representation!");
     if (!fAxes.GetNBins())
-- 
2.43.0


From 25b1ebe599bdfc3a95e62ecd971b5a191d270cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:21 +0000
Subject: [PATCH 91/93] fix: event systematics refuse values that are not
 numbers

---
 src/eventSystematic/EventReconvolution.cpp | 3 ++-
 src/eventSystematic/EventScale.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventSystematic/EventReconvolution.cpp b/src/eventSystematic/EventReconvolution.cpp
index 093df2e..d5d4e1e 100644
--- a/src/eventSystematic/EventReconvolution.cpp
+++ b/src/eventSystematic/EventReconvolution.cpp
@@ -2,6 +2,7 @@
 #include <Event.h>
 #include <Formatter.hpp>
 #include <Exceptions.h>
+#include <cmath>
 #include <iostream>
 #include <ContainerTools.hpp>
 
@@ -25,7 +26,7 @@ Event EventReconvolution::operator()(const Event &event_)
 
 void EventReconvolution::SetCorrection(double correction_)
 {
-    if (correction_ < 0)
+    if (std::isnan(correction_) || correction_ < 0)
         throw ValueError(Formatter() << "Tried to set Reconvolution systematic correction factor to " << correction_ << " - must be >= 0");
     fCorrection = correction_;
 }
diff --git a/src/eventSystematic/EventScale.cpp b/src/eventSystematic/EventScale.cpp
index c298d3a..78fad2c 100644
--- a/src/eventSystematic/EventScale.cpp
+++ b/src/eventSystematic/EventScale.cpp
@@ -1,5 +1,6 @@
 #include <EventScale.h>
 #include <Exceptions.h>
+#include <cmath>
 #include <Event.h>
 #include <string>
 #include <Formatter.hpp>
@@ -21,7 +22,7 @@ Event EventScale::operator()(const Event &inEvent_)
 
 void EventScale::SetScale(double scale_)
 {
-    if (scale_ <= 0)
+    if (std::isnan(scale_) || scale_ <= 0)
         throw ValueError(Formatter() << "Tried to set EventScale systematic scale to " << scale_ << " - must be >= 0");
     fScale = scale_;
 }
-- 
2.43.0


From 6a370174d03118bde9f3501ef5815f8b8351c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:22 +0000
Subject: [PATCH 92/93] fix: a Gaussian refuses widths that are not numbers

---
 src/function/Gaussian.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 9d7dd22..b961ed4 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -8,6 +8,7 @@
 #include <Rand.h>
 #include <sstream>
 #include <math.h>
+#include <cmath>
 
 /////////////////////////
 // Constructory Things //
@@ -121,7 +122,7 @@ void Gaussian::SetStDev(const size_t &dim_, const double &value_)
 {
     if (dim_ >= fStdDevs.size())
         throw NotFoundError("Gaussian::Tried to set Gaussian stdDev beyond function dimensionality!");
-    if (value_ < 0)
+    if (std::isnan(value_) || value_ < 0)
         throw ValueError("Gaussian::Gaussian standard deviation must not be negative!");
     fStdDevs[dim_] = value_;
 }
@@ -138,7 +139,7 @@ void Gaussian::SetStDevs(const std::vector<double> &stddevs_)
     if (stddevs_.size() != fNDims)
         throw DimensionError("Gaussian::SetStDevs", fNDims, stddevs_.size());
     for (const auto &std_dev : stddevs_)
-        if (std_dev < 0)
+        if (std::isnan(std_dev) || std_dev < 0)
             throw ValueError("Gaussian::Gaussian standard deviation must not be negative!");
     fStdDevs = stddevs_;
 }
-- 
2.43.0


From ac7794f6b39fc23f2f27b061024d8bbd9287fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:24 +0000
Subject: [PATCH 93/93] fix: sampling refuses ranges and maxima that are not
 numbers

---
 src/rand/Rand.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rand/Rand.cpp b/src/rand/Rand.cpp
index 8b87db2..5c61d1c 100644
--- a/src/rand/Rand.cpp
+++ b/src/rand/Rand.cpp
@@ -3,6 +3,7 @@
 #include <TRandom3.h>
 #include <iostream>
 #include <Exceptions.h>
+#include <cmath>
 #include <Function.h>
 TRandom3
     Rand::fRandomGen = TRandom3();
@@ -48,11 +49,11 @@ int Rand::Poisson(double rate_)
 double
 Rand::VonNeumannSample(Function *f_, double xMin_, double xMax_, double yMax_)
 {
-  if (xMin_ >= xMax_)
+  if (std::isnan(xMin_) || std::isnan(xMax_) || xMin_ >= xMax_)
     throw ValueError(Formatter() << "Rand::Sample called with xMin_ = "
                                  << xMin_ << " xMax_ = " << xMax_);
 
-  if (yMax_ <= 0)
+  if (std::isnan(yMax_) || yMax_ <= 0)
     throw ValueError(Formatter() << "Rand::Sample called with yMax_ = "
                                  << yMax_ << ". This is the maximum of the PDF (>0)");
   if (f_->GetNDims() != 1)
-- 
2.43.0

