From 49d7763898efab083ac82211433da21217f99d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 01/51] fix: drop the PAA data of a dataset when it is unloaded

The condition was inverted, so the PAA wrapper of an unloaded dataset
stayed registered under its name and kept a dangling reference to the
freed dataset. Unloading all datasets never removed the wrappers.
---
 genex/GenexAPI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..cae7795 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -62,7 +62,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
@@ -78,6 +78,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
-- 
2.43.0


From 934e80aec017392b0ec90ed504a368986824e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 02/51] fix: clear series lengths and normalized flag with the
 data

Loading a second file into the same set kept the lengths of the first
file and reported fresh data as already normalized.
---
 genex/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..31131ec 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -175,7 +175,9 @@ void TimeSeriesSet::clearData()
   this->data = nullptr;
   this->itemCount = 0;
   this->maxCol = 0;
+  this->normalized = false;
   this->names.clear();
+  this->lengths.clear();
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From 5352b6fd88511f924956c9906e13aee8964ea833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 03/51] fix: compare start and length in TimeSeries equality

Two different sub-sequences of the same series compared equal because
only the data pointers were checked.
---
 genex/TimeSeries.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..a261d4b 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -148,15 +148,15 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->length != other.length) {
+    return false;
+  }
+  if (this->data == other.data && this->start == other.start) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
     return false;
   }
-  if (this->length != other.length) {
-    return false;
-  }
   for (int i = 0; i < this->length; i++) {
     if (abs(this->data[this->start + i] - other.data[other.start + i]) > EPS) {
       return false;
-- 
2.43.0


From be66a33cc80a2472e79b49eb9b4e6123d465cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 04/51] fix: make TimeSeries assignment copy the other series

Copy assignment allocated and copied using the old length of the target,
reading past the buffer when the lengths differ. Self assignment freed
the data first. The cached Keogh envelope of the old data is now
invalidated too.
---
 genex/TimeSeries.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a261d4b..3db6889 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,6 +66,9 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon
     delete[] this->data;
@@ -73,8 +76,8 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    this->data = new data_t[other.length];
+    memcpy(this->data, other.data, other.length * sizeof(data_t));
   }
   else {
     // If the data is external, only need to copy the referring pointer
@@ -86,12 +89,16 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon    
     delete[] this->data;
@@ -106,6 +113,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
-- 
2.43.0


From 74f3bebd72b4db07eec883b9f01c68e16c7a0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 05/51] fix: initialize the sum when averaging a time series

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 3db6889..676edf4 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -174,7 +174,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From 3f962b66c07d249a37e05c12d4d5028d395b4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 06/51] fix: use the length of each series in PAA

The maximum length was used as the index of a series, which read past
the list of lengths in most datasets and ignored uneven lengths.
---
 genex/PAAWrapper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..928d917 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -6,6 +6,7 @@
 #include "distance/Distance.hpp"
 
 using std::vector;
+using std::max;
 using std::min;
 using std::cout;
 using std::endl;
@@ -49,11 +50,11 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
+  blockSize = min(blockSize, max(dataset.getMaxLength(), 1));
   for (int i = 0; i < dataset.getItemCount(); i++) {
+    int itemLength = dataset.getItemLength(i);
     this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
       this->paaMat[i].push_back(paaTS);
     }
@@ -106,13 +107,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
-- 
2.43.0


From 88f93ffa7d38ec3c5f6eb656f00043ae57c07fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 07/51] fix: do not register PAA data when the block size is
 invalid

A rejected block size left the dataset looking prepared, with an
uninitialized block size used by the next PAA query.
---
 genex/GenexAPI.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index cae7795..2362a9d 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -223,6 +223,9 @@ GenexAPI::getKBestMatchesBruteForce(int k, const string& target_name, const stri
 
 void GenexAPI::preparePAA(const string& name, int blockSize) {
   this->_checkDatasetName(name);
+  if (blockSize < 1) {
+    throw GenexException("Block size for PAA must be positive");
+  }
   PAAWrapper* wrapper;
   if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
     wrapper = this->_paaWrappers[name];
-- 
2.43.0


From 31ceecdf8b5543d4346b769ca5a277bfa616b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 08/51] fix: do not pad k best matches with empty candidates

When fewer than k sub-sequences are available the result was filled with
zero-length candidates at distance zero. A non-positive k crashed.
---
 genex/GroupableTimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..56a883e 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -155,13 +155,18 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
-- 
2.43.0


From e2eda98490dee7ff9c8e51a6087293b6fc85d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 09/51] fix: handle queries that no grouped length can match

A query longer than every series indexed past the group spaces, and a
query without any group to look into dereferenced a null group.
---
 genex/group/GlobalGroupSpace.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..ee9ad6d 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -157,6 +157,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("No match found for the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -254,7 +257,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -263,7 +268,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From 48cf8811873aede66e0c6f6182fa01be8bb476cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:17 +0000
Subject: [PATCH 10/51] fix: keep the current groups when grouping fails

An unknown distance or thread count destroyed the existing groups and
left the dataset marked as grouped without any group, which crashed the
next query.
---
 genex/GroupableTimeSeriesSet.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 56a883e..4fed1e4 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 #include "IO.hpp"
 #include "GroupableTimeSeriesSet.hpp"
@@ -27,22 +28,23 @@ int GroupableTimeSeriesSet::groupAllLengths(
     throw GenexException("No data to group");
   }
 
-  // clear old groups
-  reset();
-
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
+  // old groups are kept until the new ones are completed
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
   int cntGroups;
   if (numThreads == 1) {
-    cntGroups = this->groupsAllLengthSet->group(
+    cntGroups = newGroups->group(
       distanceName, threshold, wholeSeriesOnly);
   }
   else if (numThreads > 1) {
-    cntGroups = this->groupsAllLengthSet->groupMultiThreaded(
+    cntGroups = newGroups->groupMultiThreaded(
       distanceName, threshold, numThreads, wholeSeriesOnly);
   }
   else {
     throw GenexException("Number of threads must be positive");    
   }
+  // clear old groups
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   return cntGroups;
 }
 
-- 
2.43.0


From ae67a57b01fde833867c2ce9c35d882b32bbfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:33 +0000
Subject: [PATCH 11/51] fix: keep the current groups when loading groups fails

A truncated group file left the dataset with the groups read so far in
place of the old ones. The new groups now replace the old ones only
after the whole file is read.
---
 genex/GroupableTimeSeriesSet.hpp      | 6 ++++--
 genex/group/GlobalGroupSpace.hpp      | 2 +-
 genex/group/LocalLengthGroupSpace.hpp | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..aadce0c 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -1,6 +1,7 @@
 #ifndef GROUPABLE_TIME_SERIES_SET_H
 #define GROUPABLE_TIME_SERIES_SET_H
 
+#include <memory>
 #include <vector>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -115,9 +116,10 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    ar >> *newGroups;
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = newGroups.release();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..76f6d05 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -119,8 +119,8 @@ private:
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-      ar >> *llgs;
       this->localLengthGroupSpace[i] = llgs;
+      ar >> *llgs;
       this->totalNumberOfGroups += llgs->getNumberOfGroups();
     }
   }
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 0c9f82d..384d716 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -109,8 +109,8 @@ private:
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-      ar >> *g;
       this->groups.push_back(g);
+      ar >> *g;
     }
   }
 
-- 
2.43.0


From a56858aa4b7b8b4ee9a5ebf634a000be2fa83a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 12/51] fix: restore the whole-series flag when loading groups

Groups of whole series could be loaded but saving them again walked over
lengths without groups and dereferenced null.
---
 genex/group/GlobalGroupSpace.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 76f6d05..15bc1ca 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -117,6 +117,10 @@ private:
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
     this->totalNumberOfGroups = 0;
+    if (maxLen > this->localLengthGroupSpace.size()) {
+      throw GenexException("Incompatible group lengths");
+    }
+    this->wholeSeriesOnly = minLen != 2;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
       this->localLengthGroupSpace[i] = llgs;
-- 
2.43.0


From fe3446df02b18a7f5fa36d721c79a605eac3503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 13/51] fix: reject group files whose members are not in the
 dataset

Only the number of series and the maximum length are compared with the
dataset. With uneven lengths a group could contain members beyond the
end of a series.
---
 genex/group/Group.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 9487825..bcf8213 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -202,6 +202,8 @@ private:
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
+      // throws if the member is not in the dataset
+      this->dataset.getTimeSeries(index, start, start + this->memberLength);
       this->addMember(index, start);
     }
   }
-- 
2.43.0


From 98712ecc17fd280d6296f8bae8f8093a5041f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 14/51] fix: load groups from text files completely or not at
 all

The threshold was never restored, the item length was not compared and a
truncated file silently replaced the current groups with a partial set.
---
 genex/GroupableTimeSeriesSet.cpp      | 13 +++++++------
 genex/group/GlobalGroupSpace.cpp      | 12 ++++++++++--
 genex/group/GlobalGroupSpace.hpp      |  2 +-
 genex/group/Group.cpp                 |  6 +++++-
 genex/group/LocalLengthGroupSpace.cpp |  5 ++++-
 5 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 4fed1e4..b85c5b7 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -127,14 +127,15 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     {
       throw GenexException("Incompatible item count");
     }
-    // if (grpItemLength != this->getItemLength())
-    // {
-    //   throw GenexException("Incompatible item length");
-    // }
+    if (grpItemLength != this->getMaxLength())
+    {
+      throw GenexException("Incompatible item length");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroupsOld(fin, threshold);
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index ee9ad6d..7f85ddb 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -231,7 +231,7 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
@@ -242,10 +242,18 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->totalNumberOfGroups = 0;  
+  if (!fin || lenFrom < 0 || lenTo > (int) this->localLengthGroupSpace.size()) {
+    throw GenexException("Incompatible group lengths");
+  }
+  this->threshold = threshold;
+  this->wholeSeriesOnly = lenFrom != 2;
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
     this->localLengthGroupSpace[i] = gel;
+    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
+    if (!fin) {
+      throw GenexException("Cannot read groups from file");
+    }
   }
   return this->totalNumberOfGroups;
 }
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 15bc1ca..5aaa126 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..dfa66e6 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -166,7 +166,11 @@ void Group::loadGroupOld(ifstream &fin)
   fin >> cnt; 
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    if (!(fin >> index >> start)) {
+      break;
+    }
+    // throws if the member is not in the dataset
+    this->dataset.getTimeSeries(index, start, start + this->memberLength);
     this->addMember(index, start);
   }
 }
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..ecb6819 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -154,8 +154,11 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-    grp->loadGroupOld(fin);
     this->groups.push_back(grp);
+    grp->loadGroupOld(fin);
+    if (!fin) {
+      throw GenexException("Cannot read groups from file");
+    }
   }
   return numberOfGroups;
 }
-- 
2.43.0


From 89946e97189d46b4c0eaa5bbfc7e404fb23db3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 15/51] fix: do not touch the target file when there is no
 group to save

The file was truncated before the missing groups were noticed, which
destroyed previously saved groups.
---
 genex/GenexAPI.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 2362a9d..887e514 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -162,6 +162,9 @@ int GenexAPI::groupDataset(
 void GenexAPI::saveGroups(const string& name, const string& path)
 {
   this->_checkDatasetName(name);
+  if (!this->_loadedDatasets[name]->isGrouped()) {
+    throw GenexException("No group found");
+  }
   saveToFile(*(this->_loadedDatasets[name]), path);
 }
 
-- 
2.43.0


From 3432b8c1341ad468497643050437d3cc2246b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 16/51] fix: save datasets with full precision and report write
 errors

Only six significant digits were written, so a saved normalized dataset
did not load back to the same values. A full disk was not reported.
---
 genex/TimeSeriesSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 31131ec..01de765 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -157,6 +157,8 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
+  // Keep all digits so that the data can be loaded back unchanged
+  f.precision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     if (!this->names.empty()) {
       f << names[i] << separator;
@@ -167,6 +169,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << endl;
   }
   f.close();
+  if (!f)
+  {
+    throw GenexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 2fd6cb1045a96e291ae1874c3484ff38daa34a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 17/51] fix: report write errors when saving groups

Saving groups to a full disk looked successful.
---
 genex/GroupableTimeSeriesSet.cpp |  5 +++++
 genex/IO.hpp                     | 23 +++++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index b85c5b7..9bb074b 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -103,6 +103,11 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
     this->groupsAllLengthSet->saveGroupsOld(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw GenexException("Error while writing file");
+    }
   }
   else
   {
diff --git a/genex/IO.hpp b/genex/IO.hpp
index 874aa96..704220e 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -24,17 +24,24 @@ void saveToFile(const A & obj, const std::string & fname) {
     std::ofstream ofs(fname, std::ios::binary);
     if (ofs)
     {
-        boost::iostreams::filtering_ostreambuf filter_osbuf;
+        {
+            boost::iostreams::filtering_ostreambuf filter_osbuf;
 
-        // push the ofstream and the compressor
-        filter_osbuf.push(
-            boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
-        filter_osbuf.push(ofs);
+            // push the ofstream and the compressor
+            filter_osbuf.push(
+                boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
+            filter_osbuf.push(ofs);
 
-        // start the archive on the filtering buffer
-        boost::archive::binary_oarchive boa(filter_osbuf);
+            // start the archive on the filtering buffer
+            boost::archive::binary_oarchive boa(filter_osbuf);
 
-        boa << obj;
+            boa << obj;
+        }
+        ofs.close();
+        if (!ofs)
+        {
+            throw GenexException("Error while writing file");
+        }
     }
     else 
     {
-- 
2.43.0


From 41339e7315d8a045e363ca1ac650e6eff09359e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 18/51] fix: keep the first row and column inside the warping
 band

A series of length one was matched with series up to twice the band
longer, while every longer series is limited to the band.
---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..9913137 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -119,7 +119,7 @@ data_t warpedDistance(
   ncost[0][0] = metric->normDTW(cost[0][0], a, b);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = metric->init();
     cost[i][0] = metric->reduce(cost[i][0], cost[i-1][0], a[i], b[0]);
@@ -127,7 +127,7 @@ data_t warpedDistance(
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = metric->init();
     cost[0][j] = metric->reduce(cost[0][j], cost[0][j-1], a[0], b[j]);
-- 
2.43.0


From 643a121a2746155fc977ed42f6eb6589c5cf227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 19/51] fix: keep the warping path inside the band when
 backtracking

Cells outside of the warping band counted as zero cost, so a matching
could leave the band. Undefined costs, e.g. the cosine of zero values,
made the backtracking loop forever or read a cell that was never set.
---
 genex/distance/Distance.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 9913137..c2226d6 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -108,11 +108,9 @@ data_t warpedDistance(
 
   // create cost matrix
   vector< vector< T >> cost(m, vector< T >(n));
-  vector< vector< data_t >> ncost(m, vector<data_t>(n));
-
-  // Preset this in case this cell is never reached due to the warping
-  // band constraint
-  ncost[m - 1][n - 1] = INF;
+  // Cells that are never reached due to the warping band constraint stay
+  // at infinity
+  vector< vector< data_t >> ncost(m, vector<data_t>(n, INF));
 
   cost[0][0] = metric->init();
   cost[0][0] = metric->reduce(cost[0][0], cost[0][0], a[0], b[0]);
@@ -149,7 +147,8 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
+      // The diagonal cell is always inside the warping band
+      T minPrev = (j - r <= i-1 && i-1 <= j + r) ? cost[i-1][j] : cost[i-1][j-1];
       if (i1j1 < ij1 && i1j1 < i1j)
       {
         minPrev = cost[i-1][j-1];
@@ -202,7 +201,7 @@ data_t warpedDistance(
       else if (ncost[i - 1][j] == minNeighbor) {
         i--;
       }
-      else if (ncost[i][j - 1] == minNeighbor) {
+      else {
         j--;
       }
     }
-- 
2.43.0


From 3316fe2683bc6f8b8db915289393e902949a426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 20/51] fix: only record a matching when it is requested

Every distance computation appended its warping path to a shared dummy
matching and reversed it, so memory and time per query grew with the
number of past queries. The first row and column of costs leaked.
---
 genex/distance/Distance.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index c2226d6..85fe5d8 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -179,7 +179,7 @@ data_t warpedDistance(
 
   int i = m - 1;
   int j = n - 1;
-  while ((i != 0) || (j != 0)) {
+  while (computeMatching && ((i != 0) || (j != 0))) {
     matching.push_back(coord_t {i, j});
     if (i == 0) {
       j--;
@@ -206,11 +206,13 @@ data_t warpedDistance(
       }
     }
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
-  for(int i = 1; i < m; i++)
+  if (computeMatching) {
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
+  }
+  for(int i = 0; i < m; i++)
   {
-    for(int j = 1; j < n; j++)
+    for(int j = 0; j < n; j++)
     {
       metric->clean(cost[i][j]);
     }
-- 
2.43.0


From 4935ffeb510c12fa9214f8e0dccad92f742787cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 21/51] fix: check the index when asked for the length of a
 series

---
 genex/TimeSeriesSet.cpp | 9 +++++++++
 genex/TimeSeriesSet.hpp | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 01de765..00eb741 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -27,6 +27,15 @@ TimeSeriesSet::~TimeSeriesSet()
   this->clearData();
 }
 
+int TimeSeriesSet::getItemLength(int index) const
+{
+  if (index < 0 || index >= this->itemCount)
+  {
+    throw GenexException("Invalid time series index");
+  }
+  return this->lengths[index];
+}
+
 string TimeSeriesSet::getTimeSeriesName(int index) const
 {
   if (index < 0 || index >= this->itemCount)
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 84bd592..399ce37 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -74,8 +74,10 @@ public:
    * @brief gets length of the specified time series in the dataset
    *
    * @return length of each time series
+   *
+   * @throw GenexException if index is not in intended range
    */
-  int getItemLength(int index) const { return this->lengths[index]; }
+  int getItemLength(int index) const;
 
   /**
    * @brief gets number of time series in the dataset
-- 
2.43.0


From d6f255495673e94821acf310261f48edb291ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 22/51] fix: avoid division by zero in the grouping progress
 log

Lengths with fewer sub-sequences than the log frequency crashed with a
floating point exception once the log interval had passed.
---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index ecb6819..05921ff 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -67,7 +67,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 0d2ec94d3c1b2ffa22cfe8914ad0517e191a6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 23/51] fix: infer the maximum length from the rows that are
 loaded

A longer row after the row limit made the dataset look longer than all
of its series, so grouping whole series found nothing.
---
 genex/TimeSeriesSet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 00eb741..183a164 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -49,7 +49,7 @@ string TimeSeriesSet::getTimeSeriesName(int index) const
   return std::to_string(index);
 }
 
-std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators)
+std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators, int maxNumRow)
 {
   int lineCount = 0;
   int maxColumn = 0;
@@ -57,7 +57,7 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
   string line;
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
-  for (lineCount = 0; std::getline(f, line); ++lineCount)
+  for (lineCount = 0; (maxNumRow <= 0 || lineCount < maxNumRow) && std::getline(f, line); ++lineCount)
   {
     tokenizer tokens(line, sep);
     length = std::distance(tokens.begin(), tokens.end());
@@ -84,7 +84,7 @@ void TimeSeriesSet::loadData(const string& filePath
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
-  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators);
+  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators, maxNumRow);
   if (maxNumRow <= 0) {
     maxNumRow = maxRowMaxColumn.first;
   }
-- 
2.43.0


From 44cbdcacc783e3ac7d89223bc39d2d34153cb668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:28 +0000
Subject: [PATCH 24/51] fix: treat rows without values as empty series

Blank rows, or a starting column beyond the end of a row, produced
series of negative length that crashed normalization and shifted the
names of later series. A negative starting column wrote out of bounds.
---
 genex/TimeSeriesSet.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 183a164..05b0c38 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -78,6 +78,11 @@ void TimeSeriesSet::loadData(const string& filePath
 {
   this->clearData();
 
+  if (startCol < 0)
+  {
+    throw GenexException("Starting column must not be negative");
+  }
+
   std::ifstream f(filePath);
   if (!f.is_open())
   {
@@ -107,7 +112,11 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      int numCol = std::distance(tokens.begin(), tokens.end());
+      this->lengths.push_back(std::max(numCol - startCol - hasNameCol, 0));
+      if (hasNameCol && numCol <= startCol) {
+        this->names.push_back("");
+      }
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
@@ -154,7 +163,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
   this->filePath = filePath;
-  this->maxCol = rawMaxCol - startCol - hasNameCol;
+  this->maxCol = std::max(rawMaxCol - startCol - hasNameCol, 0);
   f.close();
 }
 
-- 
2.43.0


From 9426a7ddc3479c18347d526a6d99a0520c09c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:47 +0000
Subject: [PATCH 25/51] fix: discard cached envelopes when a grouped dataset is
 normalized

Centroids kept the Keogh envelope of the data before normalization, so
later queries compared against stale bounds and skipped the closest
group.
---
 genex/GroupableTimeSeriesSet.cpp | 9 +++++++++
 genex/GroupableTimeSeriesSet.hpp | 5 +++++
 genex/TimeSeries.hpp             | 5 +++++
 genex/group/GlobalGroupSpace.cpp | 9 +++++++++
 genex/group/GlobalGroupSpace.hpp | 5 +++++
 5 files changed, 33 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 9bb074b..e8e6c8b 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -48,6 +48,15 @@ int GroupableTimeSeriesSet::groupAllLengths(
   return cntGroups;
 }
 
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  auto minMax = TimeSeriesSet::normalize();
+  if (this->isGrouped()) {
+    this->groupsAllLengthSet->clearKeoghCache();
+  }
+  return minMax;
+}
+
 bool GroupableTimeSeriesSet::isGrouped() const
 {
   return this->groupsAllLengthSet != nullptr;
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index aadce0c..c364f2c 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -46,6 +46,11 @@ public:
    */
   void reset();
 
+  /**
+   *  @brief normalizes the dataset. Existing groups are kept.
+   */
+  std::pair<data_t, data_t> normalize();
+
   /**
    *  @brief check if the dataset is grouped
    */
diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 542f161..2bce8f3 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -152,6 +152,11 @@ public:
   const data_t* getKeoghLower(int warpingBand) const;
   const data_t* getKeoghUpper(int warpingBand) const;
 
+  /**
+   *  @brief discards the cached envelopes. Must be called when the underlying data changes
+   */
+  void clearKeoghCache() const { keoghCacheValid = false; }
+
   const data_t* getData() const;
   std::string getIdentifierString() const;
 
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 7f85ddb..a741a61 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -43,6 +43,15 @@ void GlobalGroupSpace::reset(void)
   this->localLengthGroupSpace.clear();
 }
 
+void GlobalGroupSpace::clearKeoghCache(void) const
+{
+  for (auto space : this->localLengthGroupSpace) {
+    for (int i = 0; space != nullptr && i < space->getNumberOfGroups(); i++) {
+      space->getGroup(i)->getCentroid().clearKeoghCache();
+    }
+  }
+}
+
 void GlobalGroupSpace::_loadDistance(const string& distance_name)
 {
   this->distanceName = distance_name;
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 5aaa126..186db4e 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -42,6 +42,11 @@ public:
    */
   void reset();
 
+  /**
+   *  @brief discards the cached envelopes of all centroids
+   */
+  void clearKeoghCache() const;
+
   /**
    *  @brief groups the dataset into groups of equal length
    *    using the metric to determine similarity
-- 
2.43.0


From 9630c88580fb06800fe42416b78032929fb78c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:47 +0000
Subject: [PATCH 26/51] fix: refresh PAA data when the dataset is normalized

PAA queries after normalization mixed block averages of the old data
with normalized values.
---
 genex/GenexAPI.cpp   | 6 +++++-
 genex/PAAWrapper.hpp | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 887e514..0b7e8e7 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -148,7 +148,11 @@ TimeSeries GenexAPI::getTimeSeries(const string& name, int idx, int start, int e
 std::pair<data_t, data_t> GenexAPI::normalizeDataset(const string& name)
 {
   this->_checkDatasetName(name);
-  return this->_loadedDatasets[name]->normalize();
+  auto minMax = this->_loadedDatasets[name]->normalize();
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
+    this->_paaWrappers[name]->refresh();
+  }
+  return minMax;
 }
 
 int GenexAPI::groupDataset(
diff --git a/genex/PAAWrapper.hpp b/genex/PAAWrapper.hpp
index 8d53a63..46274a7 100644
--- a/genex/PAAWrapper.hpp
+++ b/genex/PAAWrapper.hpp
@@ -28,6 +28,11 @@ public:
    */
   void generatePAAMatrix(int blockSize);
 
+  /**
+   * @brief Generates the matrix again, using the current data and block size
+   */
+  void refresh() { generatePAAMatrix(blockSize); }
+
   /**
    * @brief Get the PAA version of a time series in the associated dataset
    * 
-- 
2.43.0


From 4d6ab5b89d067ed03223b9c9fd695052ab33cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:47 +0000
Subject: [PATCH 27/51] fix: release lines returned by readline with free

---
 cli/GenexCLI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b018cd0..3f5e2a0 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -792,7 +792,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -829,7 +829,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 1ca792207ae9d752addd44b98343d2c126d73d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:52 +0000
Subject: [PATCH 28/51] fix: remember where centroids loaded from text files
 come from

Centroids read from a text file were saved to binary files as the
beginning of the first series.
---
 genex/group/Group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index dfa66e6..aee830c 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -173,6 +173,14 @@ void Group::loadGroupOld(ifstream &fin)
     this->dataset.getTimeSeries(index, start, start + this->memberLength);
     this->addMember(index, start);
   }
+
+  // Refer to the dataset if the centroid is one of the members
+  for (const auto& member : this->getMembers()) {
+    if (member == this->centroid) {
+      this->setCentroid(member.getIndex(), member.getStart());
+      break;
+    }
+  }
 }
 
 } // namespace genex
-- 
2.43.0


From f55489262de1db6af1b762c4eff3255611027be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:07 +0000
Subject: [PATCH 29/51] fix: reject empty series in warped distances

An empty row of a dataset used as a query accessed the first cell of an
empty cost matrix.
---
 genex/PAAWrapper.cpp        | 3 +++
 genex/distance/Distance.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 928d917..604f41d 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -29,6 +29,9 @@ TimeSeries tsPAA(const TimeSeries& source, int blockSize)
   data_t sum = 0;
   int count = 0;
   int srcLength = source.getLength();
+  if (srcLength == 0) {
+    throw GenexException("Time series must not be empty for PAA");
+  }
   int destLength = (srcLength - 1) / blockSize + 1;
   TimeSeries dest(destLength);
   for (int i = 0; i < srcLength; i++)
diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 85fe5d8..4d1fff7 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -90,6 +90,11 @@ data_t warpedDistance(
   auto m = a.getLength();
   auto n = b.getLength();
   auto r = calculateWarpingBandSize(max(m, n));
+
+  if (m == 0 || n == 0)
+  {
+    throw GenexException("Time series must not be empty for warped distance");
+  }
   
   static DM* metric;
   if (metric == nullptr) {
-- 
2.43.0


From b6ec6f988f35d91778df810bdaca28a905021372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:08 +0000
Subject: [PATCH 30/51] fix: save the threshold of groups in text files with
 full precision

---
 genex/GroupableTimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index e8e6c8b..351564f 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -106,6 +106,8 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
   ofstream fout(path);
   if (fout)
   {
+    // Keep all digits so that the threshold can be loaded back unchanged
+    fout.precision(std::numeric_limits<data_t>::max_digits10);
     // Version of the file format, the threshold and the required dataset dimensions
     fout << GROUP_FILE_VERSION << " "
          << this->getThreshold() << " "
-- 
2.43.0


From 84540e6c3de319f3d6062f59bfbc4b5941369b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:09 +0000
Subject: [PATCH 31/51] fix: detect group text files cut within the last number

---
 genex/group/Group.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index aee830c..3fe1053 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -169,6 +169,11 @@ void Group::loadGroupOld(ifstream &fin)
     if (!(fin >> index >> start)) {
       break;
     }
+    if (fin.eof()) {
+      // the file ends within the last number, so it might not be complete
+      fin.setstate(std::ios::failbit);
+      break;
+    }
     // throws if the member is not in the dataset
     this->dataset.getTimeSeries(index, start, start + this->memberLength);
     this->addMember(index, start);
-- 
2.43.0


From abfc8db4d8d5395a37adbfad663bf6b61ddcf267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:40 +0000
Subject: [PATCH 32/51] fix: report the matching of two single points

---
 genex/distance/Distance.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 4d1fff7..8dad385 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -108,6 +108,9 @@ data_t warpedDistance(
     result = metric->reduce(result, result, a[0], b[0]);
     auto normalizedResult = metric->normDTW(result, a, b);
     metric->clean(result);
+    if (computeMatching) {
+      matching.push_back(coord_t {0, 0});
+    }
     return normalizedResult;
   }
 
-- 
2.43.0


From 27df57c8af23df7a9f0a8324687b22b29f5ee9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:40 +0000
Subject: [PATCH 33/51] fix: reject cells that only start with a number

---
 genex/TimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 05b0c38..a90324a 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -131,7 +131,12 @@ void TimeSeriesSet::loadData(const string& filePath
             }
             else {
               int index = row * (rawMaxCol - startCol - hasNameCol) + (col - startCol - hasNameCol);
-              this->data[index] = (data_t)std::stod(*tok_iter);
+              size_t parsed = 0;
+              this->data[index] = (data_t)std::stod(*tok_iter, &parsed);
+              // Only spaces (e.g. of a line ending) may follow a number
+              if (tok_iter->find_first_not_of(" \t\r\v\f", parsed) != string::npos) {
+                throw std::invalid_argument("Not a number");
+              }
             }
           }
           catch (const std::invalid_argument& e)
-- 
2.43.0


From 3ef9755dce9b4147ffcfd7cd5033936069afadb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:46 +0000
Subject: [PATCH 34/51] fix: use the positions of a ksim query when ke is also
 given

---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 3f5e2a0..b909f72 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -481,7 +481,7 @@ MAKE_COMMAND(KSim,
     {
       ke = stoi(args[5]);
     }
-    else if (args.size() == 7)
+    else if (args.size() > 6)
     {
       start = stoi(args[5]);
       end = stoi(args[6]);
-- 
2.43.0


From 78fa1a19ad867185ff38bb45b6f447c1651c7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:46 +0000
Subject: [PATCH 35/51] fix: report incomplete positions in sim and ksimBF as
 errors

---
 cli/GenexCLI.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b909f72..9e9300c 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -431,7 +431,7 @@ MAKE_COMMAND(Sim,
       end = stoi(args[5]);
     }
     else if (args.size() == 5) {
-      cout << "Both starting and ending positions must be provided.";
+      cout << "Error! Both starting and ending positions must be provided." << endl;
       return false;
     }
 
@@ -527,7 +527,7 @@ MAKE_COMMAND(KSim,
       
 MAKE_COMMAND(KSimBF,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 7))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
     {
       return false;
     }
@@ -544,6 +544,10 @@ MAKE_COMMAND(KSimBF,
       start = stoi(args[5]);
       end = stoi(args[6]);
     }
+    else if (args.size() == 6) {
+      cout << "Error! Both starting and ending positions must be provided." << endl;
+      return false;
+    }
 
     TIME_COMMAND(
       std::vector<genex::candidate_time_series_t> results = 
-- 
2.43.0


From 3e9ca8f24fb87416f495900754457723131b29bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:46 +0000
Subject: [PATCH 36/51] fix: reject command line arguments that only start with
 a number

---
 cli/GenexCLI.cpp | 75 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 9e9300c..a2642b5 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -53,6 +53,27 @@ bool tooManyArgs(const vector<string>& args, int limit)
   return false;
 }
 
+// The whole argument must be a number, otherwise invalid_argument is thrown
+int toInt(const string& arg)
+{
+  size_t used = 0;
+  int value = stoi(arg, &used);
+  if (used != arg.size()) {
+    throw invalid_argument(arg);
+  }
+  return value;
+}
+
+genex::data_t toDouble(const string& arg)
+{
+  size_t used = 0;
+  genex::data_t value = stod(arg, &used);
+  if (used != arg.size()) {
+    throw invalid_argument(arg);
+  }
+  return value;
+}
+
 /**************************************************************************
  * HOW TO CREATE A NEW COMMAND
  *
@@ -83,9 +104,9 @@ MAKE_COMMAND(LoadDataset,
     auto name = args[1];
     auto filePath = args[2];
     auto separators = args.size() > 3 ? args[3] : " ";
-    auto maxNumRow = args.size() > 4 ? stoi(args[4]) : 0;
-    auto startCol  = args.size() > 5 ? stoi(args[5]) : 0;
-    auto hasNameCol = args.size() > 6 ? stoi(args[6]) : false;
+    auto maxNumRow = args.size() > 4 ? toInt(args[4]) : 0;
+    auto startCol  = args.size() > 5 ? toInt(args[5]) : 0;
+    auto hasNameCol = args.size() > 6 ? toInt(args[6]) : false;
 
     boost::replace_all(separators, "\\s", " ");
 
@@ -264,13 +285,13 @@ MAKE_COMMAND(Distance,
     }
 
     auto ds1 = args[1];
-    auto idx1 = stoi(args[2]);
-    auto start1 = stoi(args[3]);
-    auto end1 = stoi(args[4]);
+    auto idx1 = toInt(args[2]);
+    auto start1 = toInt(args[3]);
+    auto end1 = toInt(args[4]);
     auto ds2 = args[5];
-    auto idx2 = stoi(args[6]);
-    auto start2 = stoi(args[7]);
-    auto end2 = stoi(args[8]);
+    auto idx2 = toInt(args[6]);
+    auto start2 = toInt(args[7]);
+    auto end2 = toInt(args[8]);
     std::string distance = "euclidean_dtw";
     if (args.size() == 10)
     {
@@ -307,7 +328,7 @@ MAKE_COMMAND(GroupDataset,
     }
 
     auto name = args[1];
-    genex::data_t threshold = stod(args[2]);
+    genex::data_t threshold = toDouble(args[2]);
     auto distance_name = args.size() == 4 ? args[3] : "euclidean";
 
     int count = -1;
@@ -343,7 +364,7 @@ MAKE_COMMAND(SaveGroups,
 
     auto name = args[1];
     auto path = args[2];
-    bool groupSizeOnly = args.size() > 3 ? stoi(args[3]) : false;
+    bool groupSizeOnly = args.size() > 3 ? toInt(args[3]) : false;
 
     if (groupSizeOnly) {
       gGenexAPI.saveGroupsOld(name, path, groupSizeOnly);
@@ -421,14 +442,14 @@ MAKE_COMMAND(Sim,
 
     auto target_name = args[1];
     auto query_name = args[2];
-    auto query_index = stoi(args[3]);
+    auto query_index = toInt(args[3]);
     int start = -1;
     int end = -1;
 
     if (args.size() == 6)
     {
-      start = stoi(args[4]);
-      end = stoi(args[5]);
+      start = toInt(args[4]);
+      end = toInt(args[5]);
     }
     else if (args.size() == 5) {
       cout << "Error! Both starting and ending positions must be provided." << endl;
@@ -469,26 +490,26 @@ MAKE_COMMAND(KSim,
       return false;
     }
 
-    auto k = stoi(args[1]);
+    auto k = toInt(args[1]);
     auto target_name = args[2];
     auto query_name = args[3];
-    int query_index = stoi(args[4]);
+    int query_index = toInt(args[4]);
     int start = -1;
     int end = -1;
     int ke = k;
 
     if (args.size() == 6)
     {
-      ke = stoi(args[5]);
+      ke = toInt(args[5]);
     }
     else if (args.size() > 6)
     {
-      start = stoi(args[5]);
-      end = stoi(args[6]);
+      start = toInt(args[5]);
+      end = toInt(args[6]);
     }
     if (args.size() > 7)
     {
-      ke = stoi(args[7]);
+      ke = toInt(args[7]);
     }
 
     TIME_COMMAND(
@@ -532,17 +553,17 @@ MAKE_COMMAND(KSimBF,
       return false;
     }
 
-    int k = stoi(args[1]);
+    int k = toInt(args[1]);
     auto target_name = args[2];
     auto query_name = args[3];
-    int query_index = stoi(args[4]);
+    int query_index = toInt(args[4]);
     int start = -1;
     int end = -1;
 
     if (args.size() == 7)
     {
-      start = stoi(args[5]);
-      end = stoi(args[6]);
+      start = toInt(args[5]);
+      end = toInt(args[6]);
     }
     else if (args.size() == 6) {
       cout << "Error! Both starting and ending positions must be provided." << endl;
@@ -593,9 +614,9 @@ MAKE_COMMAND(Print,
     }
 
     auto name  = args[1];
-    auto index = stoi(args[2]);
-    auto start = stoi(args[3]);
-    auto end   = stoi(args[4]);
+    auto index = toInt(args[2]);
+    auto start = toInt(args[3]);
+    auto end   = toInt(args[4]);
 
     cout << gGenexAPI.getTimeSeries(name, index, start, end);
 
-- 
2.43.0


From fb0ed30735ca4446050d5e9b9624b0cda58b7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:13 +0000
Subject: [PATCH 37/51] fix: make centroids loaded from text files refer to a
 member

The values of a centroid in a text file match no member when the dataset was
normalized after saving. The centroid then had no position in the dataset, and
saving the groups in the binary format wrote the first series instead.
---
 genex/group/Group.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 3fe1053..d118869 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -179,12 +179,22 @@ void Group::loadGroupOld(ifstream &fin)
     this->addMember(index, start);
   }
 
-  // Refer to the dataset if the centroid is one of the members
+  // Refer to the member that the centroid stands for: the values are not exactly those of a
+  // member if the dataset has been normalized in the meantime
+  data_t bestSoFarDist = INF;
+  member_coord_t bestSoFarMember(-1, -1);
   for (const auto& member : this->getMembers()) {
-    if (member == this->centroid) {
-      this->setCentroid(member.getIndex(), member.getStart());
-      break;
+    data_t dist = 0;
+    for (int i = 0; i < this->memberLength; i++) {
+      dist += (member[i] - this->centroid[i]) * (member[i] - this->centroid[i]);
     }
+    if (dist < bestSoFarDist) {
+      bestSoFarDist = dist;
+      bestSoFarMember = member_coord_t(member.getIndex(), member.getStart());
+    }
+  }
+  if (bestSoFarMember.first != -1) {
+    this->setCentroid(bestSoFarMember.first, bestSoFarMember.second);
   }
 }
 
-- 
2.43.0


From 2b0610fe8dcf18f013858e8a1b4401654a51d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:48 +0000
Subject: [PATCH 38/51] fix: refuse text group files whose groups do not hold
 every series once

A file with group sizes only can be read as groups with repeated members. The
members of a group then formed a ring and loading never ended.
---
 genex/group/Group.cpp                 | 5 +++++
 genex/group/Group.hpp                 | 2 +-
 genex/group/LocalLengthGroupSpace.cpp | 8 ++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index d118869..911f1d8 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 
 #include "TimeSeries.hpp"
+#include "Exception.hpp"
 #include "distance/Distance.hpp"
 
 using std::vector;
@@ -176,6 +177,10 @@ void Group::loadGroupOld(ifstream &fin)
     }
     // throws if the member is not in the dataset
     this->dataset.getTimeSeries(index, start, start + this->memberLength);
+    // a second group with this member would join the lists of members
+    if (this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1) {
+      throw GenexException("A time series is a member of more than one group");
+    }
     this->addMember(index, start);
   }
 
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index bcf8213..74ec36a 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 05921ff..1c5aa40 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -146,6 +146,7 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
 {
   reset();
   int numberOfGroups;
+  int numberOfMembers = 0;
   fin >> numberOfGroups;
   for (auto i = 0; i < numberOfGroups; i++)
   {
@@ -159,6 +160,13 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
     if (!fin) {
       throw GenexException("Cannot read groups from file");
     }
+    numberOfMembers += grp->getCount();
+  }
+  for (int idx = 0; idx < dataset.getItemCount(); idx++) {
+    numberOfMembers -= std::max(dataset.getItemLength(idx) - this->length + 1, 0);
+  }
+  if (numberOfMembers != 0) {
+    throw GenexException("Groups in the file do not have all time series as members");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From 31e139376b04402ce5d2be54cc8e7c3a31bb340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:52 +0000
Subject: [PATCH 39/51] fix: attach the optional arguments of getMatching in
 the Python module to the right parameters

---
 pygenex/GENEXBindings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygenex/GENEXBindings.cpp b/pygenex/GENEXBindings.cpp
index 91f9259..4a0b01d 100644
--- a/pygenex/GENEXBindings.cpp
+++ b/pygenex/GENEXBindings.cpp
@@ -455,7 +455,8 @@ BOOST_PYTHON_MODULE(pygenex)
   py::def("saveGroupsSize", saveGroupsSize);
   py::def("loadGroups", loadGroups);
   py::def("distance", distance);
-  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1));
+  py::def("getMatching", getMatching,
+          (py::arg("start2")=-1, py::arg("end2")=-1, py::arg("distanceName")="euclidean_dtw"));
   py::def("sim", sim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksim", ksim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksimbf", ksimbf, (py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="euclidean"));  
-- 
2.43.0


From 81249f5f39cdb6d10e3c5701182b4aa3784309af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:36 +0000
Subject: [PATCH 40/51] fix: verify the checksum of a group file before its
 groups are used

---
 genex/IO.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 704220e..5c67442 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -4,12 +4,14 @@
 #include <boost/archive/binary_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
+#include <boost/iostreams/copy.hpp>
 #include <boost/iostreams/device/file.hpp>
 #include <boost/iostreams/filter/zlib.hpp>
 #include <boost/iostreams/filtering_streambuf.hpp>
 #include <iostream>
 
 #include <fstream>
+#include <sstream>
 
 #include "TimeSeries.hpp"
 #include "Exception.hpp"
@@ -60,8 +62,11 @@ void loadFromFile(A & obj, const std::string & fname) {
         filter_isbuf.push(boost::iostreams::zlib_decompressor());
         filter_isbuf.push(ifs);
 
-        // start the archive on the filtering buffer
-        boost::archive::binary_iarchive bia(filter_isbuf);
+        // read everything first: the checksum is only verified at the end
+        std::stringstream content;
+        boost::iostreams::copy(filter_isbuf, content);
+
+        boost::archive::binary_iarchive bia(content);
 
         bia >> obj;
     }
-- 
2.43.0


From a125bc464cb980bea0ef8aeeb18821d3d8b55871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:36 +0000
Subject: [PATCH 41/51] fix: refuse text group files with lengths that grouping
 does not give

---
 genex/group/GlobalGroupSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index a741a61..fbc6157 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -251,7 +251,8 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->totalNumberOfGroups = 0;  
-  if (!fin || lenFrom < 0 || lenTo > (int) this->localLengthGroupSpace.size()) {
+  if (!fin || (lenFrom != 2 && lenFrom != dataset.getMaxLength())
+      || lenTo != (int) this->localLengthGroupSpace.size()) {
     throw GenexException("Incompatible group lengths");
   }
   this->threshold = threshold;
-- 
2.43.0


From 9782b02acf4646599a4d48ac06f49b7d3b255117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:52 +0000
Subject: [PATCH 42/51] fix: refuse group files with negative member positions

---
 genex/group/Group.cpp | 4 ++++
 genex/group/Group.hpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 911f1d8..5027870 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -175,6 +175,10 @@ void Group::loadGroupOld(ifstream &fin)
       fin.setstate(std::ios::failbit);
       break;
     }
+    // negative positions would stand for the whole series
+    if (start < 0) {
+      throw GenexException("Invalid starting position of a member");
+    }
     // throws if the member is not in the dataset
     this->dataset.getTimeSeries(index, start, start + this->memberLength);
     // a second group with this member would join the lists of members
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 74ec36a..16fb4a6 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -4,6 +4,7 @@
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
 
+#include "Exception.hpp"
 #include "TimeSeriesSet.hpp"
 #include "distance/Distance.hpp"
 
@@ -202,6 +203,10 @@ private:
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
+      // negative positions would stand for the whole series
+      if (start < 0) {
+        throw GenexException("Invalid starting position of a member");
+      }
       // throws if the member is not in the dataset
       this->dataset.getTimeSeries(index, start, start + this->memberLength);
       this->addMember(index, start);
-- 
2.43.0


From abcb680ce6e7e106e785beee9e06276b90077e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:06 +0000
Subject: [PATCH 43/51] fix: keep the number of examined time series from
 overflowing

---
 genex/group/GlobalGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index fbc6157..739fbc3 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -198,7 +198,7 @@ GlobalGroupSpace::getKBestMatches(const TimeSeries& query, int k)
     bestSoFar.erase(bestSoFar.begin());
     vector<candidate_time_series_t> intraResults = 
         this->localLengthGroupSpace[g.length]->
-            getGroup(g.index)->intraGroupKSim(query, kPrime+g.members, this->warpedDistance);
+            getGroup(g.index)->intraGroupKSim(query, std::min(kPrime, 0)+g.members, this->warpedDistance);
     // add all of the worst's best to answer
     for (int i = 0; i < intraResults.size(); ++i) 
     {
-- 
2.43.0


From be8117becb828c51b058e8209e867079cd7f83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:56 +0000
Subject: [PATCH 44/51] fix: refuse negative warping band ratios and limit
 large ones

---
 genex/distance/Distance.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/distance/Distance.cpp b/genex/distance/Distance.cpp
index d977e4d..5f3b57f 100644
--- a/genex/distance/Distance.cpp
+++ b/genex/distance/Distance.cpp
@@ -83,6 +83,11 @@ const vector<string>& getAllDistanceName()
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
+  if (!(ratio >= 0)) {
+    throw GenexException("Warping band ratio must not be negative");
+  }
+  // larger ratios allow all warpings as well
+  ratio = min(ratio, 1.0);
   warpingBandRatio = ratio;
 }
 
-- 
2.43.0


From 393fca873ecbd5d441565edc7d206860a4ac02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:56 +0000
Subject: [PATCH 45/51] fix: refuse group files with member positions beyond
 the dataset

---
 genex/group/Group.cpp | 4 ++--
 genex/group/Group.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 5027870..61be777 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -175,8 +175,8 @@ void Group::loadGroupOld(ifstream &fin)
       fin.setstate(std::ios::failbit);
       break;
     }
-    // negative positions would stand for the whole series
-    if (start < 0) {
+    // negative positions would stand for the whole series, large ones overflow
+    if (start < 0 || start >= this->subTimeSeriesCount) {
       throw GenexException("Invalid starting position of a member");
     }
     // throws if the member is not in the dataset
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 16fb4a6..f73be85 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -204,7 +204,7 @@ private:
       int index, start;
       ar >> index >> start;
       // negative positions would stand for the whole series
-      if (start < 0) {
+      if (start < 0 || start >= this->subTimeSeriesCount) {
         throw GenexException("Invalid starting position of a member");
       }
       // throws if the member is not in the dataset
-- 
2.43.0


From f27253458e3656fc5b2a802ffbb4adddf2482c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:15 +0000
Subject: [PATCH 46/51] fix: refuse text group files with groups without
 members

---
 genex/group/Group.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 61be777..25de6b3 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -165,6 +165,9 @@ void Group::loadGroupOld(ifstream &fin)
   }
 
   fin >> cnt; 
+  if (fin && cnt < 1) {
+    throw GenexException("A group has no members");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
     if (!(fin >> index >> start)) {
-- 
2.43.0


From 0763e4f26cf05df8b587601f5cff5929aa327a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:22 +0000
Subject: [PATCH 47/51] fix: load numbers that are very close to zero

std::stod reports numbers below the smallest normal double as out of range.
Normalization can produce such numbers, so a saved dataset could not be
loaded again.
---
 genex/TimeSeriesSet.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a90324a..ee030d1 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -1,6 +1,9 @@
 #include "TimeSeriesSet.hpp"
 
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <string>
 #include <fstream>
 #include <iostream>
@@ -131,12 +134,18 @@ void TimeSeriesSet::loadData(const string& filePath
             }
             else {
               int index = row * (rawMaxCol - startCol - hasNameCol) + (col - startCol - hasNameCol);
-              size_t parsed = 0;
-              this->data[index] = (data_t)std::stod(*tok_iter, &parsed);
+              // Unlike std::stod, this accepts numbers that are very close to zero
+              char* parsed;
+              errno = 0;
+              this->data[index] = (data_t)std::strtod(tok_iter->c_str(), &parsed);
               // Only spaces (e.g. of a line ending) may follow a number
-              if (tok_iter->find_first_not_of(" \t\r\v\f", parsed) != string::npos) {
+              if (parsed == tok_iter->c_str()
+                  || tok_iter->find_first_not_of(" \t\r\v\f", parsed - tok_iter->c_str()) != string::npos) {
                 throw std::invalid_argument("Not a number");
               }
+              if (errno == ERANGE && std::isinf(this->data[index])) {
+                throw std::out_of_range("Too large");
+              }
             }
           }
           catch (const std::invalid_argument& e)
-- 
2.43.0


From 661019f8004065592f97e04999aff27b8c256a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:22 +0000
Subject: [PATCH 48/51] fix: normalize datasets whose range overflows

When the largest and the smallest value lie so far apart that their
difference is infinite, normalization turned the values into NaN and zeros.
---
 genex/TimeSeriesSet.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index ee030d1..afaa9e4 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -317,6 +317,17 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
       }
     }
   }
+  else if (std::isinf(diff) && std::isfinite(MIN) && std::isfinite(MAX))
+  {
+    // the range is too large for a number: halve everything
+    for (int ts = 0; ts < this->itemCount; ts++)
+    {
+      for (i = 0; i < this->lengths[ts]; i++)
+      {
+        data[ts * this->maxCol + i] = (data[ts * this->maxCol + i] / 2 - MIN / 2) / (MAX / 2 - MIN / 2);
+      }
+    }
+  }
   else
   {
     // normalize
-- 
2.43.0


From b5d587c7d20302334acc0a71d2dbde97e4517dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:50 +0000
Subject: [PATCH 49/51] fix: do not stop cosine and Sorensen distances early

A part of these distances can be larger than the whole. Stopping as soon as
a part is above the cut-off discarded sequences that are closer, so groups
and searches missed their nearest ones.
---
 genex/distance/Distance.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 8dad385..499cb1f 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -70,6 +70,17 @@ template <class T> struct hasInverseNorm
   static constexpr bool value = test<T>(int());
 };
 
+class Cosine;
+class Sorensen;
+
+/**
+ *  Whether a distance never becomes smaller when more points are added, so that its
+ *  computation can be dropped as soon as a part of it is too large.
+ */
+template <class T> struct isMonotonic { static constexpr bool value = true; };
+template <> struct isMonotonic<Cosine> { static constexpr bool value = false; };
+template <> struct isMonotonic<Sorensen> { static constexpr bool value = false; };
+
 /**
  *  @brief returns the warped distance between two sets of data
  *  In this implementation, we are only supporting sum-based distances
@@ -170,7 +181,7 @@ data_t warpedDistance(
       ncost[i][j] = metric->normDTW(cost[i][j], a, b);
       bestSoFar = min(bestSoFar, ncost[i][j]);
     }
-    if (bestSoFar > dropout)
+    if (isMonotonic<DM>::value && bestSoFar > dropout)
     {
       dropped = true;
       break;
@@ -259,7 +270,7 @@ pairwiseDistance(
   for(int i = 0; i < x_1.getLength(); i++)
   {
     total = metric->reduce(total, total, x_1[i], x_2[i]);
-    if (metric->norm(total, x_1, x_2) > dropout)
+    if (isMonotonic<DM>::value && metric->norm(total, x_1, x_2) > dropout)
     {
       dropped = true;
       break;
-- 
2.43.0


From 29de6d9c7a832e0281ecb0285538c0c81d98ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:15 +0000
Subject: [PATCH 50/51] fix: keep the bound from the ends below the distance
 for short queries

Queries of fewer than six points were read out of bounds or had points
counted at both ends, so windows could be passed over wrongly.
---
 genex/lib/trillionDTW.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index aa5eb15..2b48a23 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -73,9 +73,11 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     /// 1 point at front and back
     data_t d, lb;
     data_t x0 = (t[j] - mean) / std;
+    /// No point may be counted at both ends
+    if (len < 2)   return dist(x0,q[0]);
     data_t y0 = (t[(len-1+j)] - mean) / std;
     lb = dist(x0,q[0]) + dist(y0,q[len-1]);
-    if (lb >= bsf)   return lb;
+    if (lb >= bsf || len < 4)   return lb;
 
     /// 2 points at front
     data_t x1 = (t[(j+1)] - mean) / std;
@@ -89,7 +91,7 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     d = min(dist(y1,q[len-1]), dist(y0, q[len-2]) );
     d = min(d, dist(y1,q[len-2]));
     lb += d;
-    if (lb >= bsf)   return lb;
+    if (lb >= bsf || len < 6)   return lb;
 
     /// 3 points at front
     data_t x2 = (t[(j+2)] - mean) / std;
-- 
2.43.0


From 552257bbc113ddb65608643f9153a6753ed9269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:10 +0000
Subject: [PATCH 51/51] fix: free the buffer and the order of the bundled
 search

---
 genex/lib/trillionDTW.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index 2b48a23..2b1dd80 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -554,6 +554,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     free(u_d);
     free(l_buff);
     free(u_buff);
+    free(buffer);
+    free(order);
 
     t2 = clock();
     printf("\n");
-- 
2.43.0

