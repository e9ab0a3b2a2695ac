From 4dd46a55288433c7d8bc01e5cd583a230e036375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:23 +0000
Subject: [PATCH 01/91] fix: let the server start for knowledge bases with
 fewer than 200k triples

The sort performance estimator refused to measure even its smallest sample
when it exceeded 5% of the number of triples, and then failed an assertion.
The server therefore could not be started for small knowledge bases.
Always measure the smallest sample and estimate the larger ones from it.
---
 src/engine/SortPerformanceEstimator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/SortPerformanceEstimator.cpp b/src/engine/SortPerformanceEstimator.cpp
index 08e24ce..23b93ad 100644
--- a/src/engine/SortPerformanceEstimator.cpp
+++ b/src/engine/SortPerformanceEstimator.cpp
@@ -129,7 +129,11 @@ void SortPerformanceEstimator::computeEstimatesExpensively(
       auto rows = sampleValuesRows[i];
       auto cols = sampleValuesCols[j];
       try {
-        if (rows * cols > maxNumberOfElementsToSort) {
+        // The smallest sample is always measured. All the others can be
+        // estimated from it if they exceed the limit, e.g. when the number of
+        // triples in the index is small.
+        bool isSmallestSample = i == 0 && j == 0;
+        if (!isSmallestSample && rows * cols > maxNumberOfElementsToSort) {
           throw ad_utility::detail::AllocationExceedsLimitException{0, 0};
         }
         _samples[i][j] = measureSortingTimeInSeconds(rows, cols, allocator);
-- 
2.43.0


From 14049f49ba2c1dd6827269842e37f16d332b92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:28 +0000
Subject: [PATCH 02/91] fix: do not write past the end of the random
 generator's seed table

The seeding loop of FastRandomIntGenerator wrote one element behind its
array.
---
 src/util/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Random.h b/src/util/Random.h
index 8bb60a8..e9c3dd6 100644
--- a/src/util/Random.h
+++ b/src/util/Random.h
@@ -29,7 +29,7 @@ class FastRandomIntGenerator {
   FastRandomIntGenerator() {
     // Randomly initialize the shuffleTable
     std::random_device seeder{};
-    for (size_t i = 0; i <= _shuffleTable.size(); ++i) {
+    for (size_t i = 0; i < _shuffleTable.size(); ++i) {
       _shuffleTable[i] = seeder();
     }
   }
-- 
2.43.0


From cbd9e746d6a12032ad8b28f6b76683475d0ecf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:56 +0000
Subject: [PATCH 03/91] fix: keep the rows behind the excluded range in !=
 filters

For a sorted column, FILTER(?x != value) copied the rows behind the excluded
values from the (partial) result instead of from the input, so these rows were
lost.
---
 src/engine/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 1cecbf4..fb8b893 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -289,7 +289,7 @@ void Filter::computeFilterRange(IdTableStatic<WIDTH>* res, size_t lhs,
       res->insert(res->end(), lower, upper);
     } else {
       res->insert(res->end(), input.begin(), lower);
-      res->insert(res->end(), upper, res->end());
+      res->insert(res->end(), upper, input.end());
     }
   } else {
     const auto inv = [&](const bool b) { return INVERSE ? !b : b; };
-- 
2.43.0


From e274ff6952f1f5baf8f6582dcbcdb3452a769705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:03 +0000
Subject: [PATCH 04/91] fix: binary search in the external vocabulary skipped
 words

The upper bound of the search interval is exclusive, so it must be set to the
probed position and not to the position before it. Externalized words directly
before a probed position were reported as missing, and a word smaller than the
first one made the bound wrap around.
---
 src/index/ExternalVocabulary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/ExternalVocabulary.cpp b/src/index/ExternalVocabulary.cpp
index 8d5a9cd..50b0be4 100644
--- a/src/index/ExternalVocabulary.cpp
+++ b/src/index/ExternalVocabulary.cpp
@@ -37,7 +37,7 @@ Id ExternalVocabulary<Comp>::binarySearchInVocab(const string& word) const {
     if (cmp < 0) {
       lower = i + 1;
     } else if (cmp > 0) {
-      upper = i - 1;
+      upper = i;
     } else if (cmp == 0) {
       return i;
     }
-- 
2.43.0


From 38c40689312fb05de9eb776fdae0d4662be711ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:02 +0000
Subject: [PATCH 05/91] fix: find externalizable words in indices built without
 externalization

When an index is built without the -l option, all words are stored in the
internal vocabulary. Query constants like "x"@fr were nevertheless only
searched in the (then empty) external vocabulary and never found.
---
 src/index/Vocabulary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index f59bb9e..45ef600 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -368,7 +368,9 @@ AccessReturnType_t<StringType> Vocabulary<StringType, C>::at(Id id) const {
 // _____________________________________________________________________________
 template <typename S, typename C>
 bool Vocabulary<S, C>::getId(const string& word, Id* id) const {
-  if (!shouldBeExternalized(word)) {
+  // If nothing was externalized when the index was built, then all the words
+  // are part of the internal vocabulary.
+  if (_externalLiterals.size() == 0 || !shouldBeExternalized(word)) {
     // need the TOTAL level because we want the unique word.
     *id = lower_bound(word, SortLevel::TOTAL);
     // works for the case insensitive version because
-- 
2.43.0


From 0804ee5d4ef7b0fdc2c9e95c3bd2c1c865639b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:10 +0000
Subject: [PATCH 06/91] fix: use the right subtree's multiplicities when
 estimating join sizes

---
 src/engine/MultiColumnJoin.cpp | 3 ++-
 src/engine/OptionalJoin.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 1974138..fe9fac3 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -210,7 +210,8 @@ void MultiColumnJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index df9b5fd..b801d1f 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -227,7 +227,8 @@ void OptionalJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
-- 
2.43.0


From 84fca08630850e6001e52426165938b6e0366bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:10 +0000
Subject: [PATCH 07/91] fix: take a union's column types from the side that
 binds the column

---
 src/engine/Union.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 2be208b..4548997 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -140,7 +140,7 @@ void Union::computeResult(ResultTable* result) {
     if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
-      result->_resultTypes.push_back(subRes1->getResultType(o[1]));
+      result->_resultTypes.push_back(subRes2->getResultType(o[1]));
     } else {
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
     }
-- 
2.43.0


From b28180b6e32a898ed7ae5854b04ce1ab3ed32fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:10 +0000
Subject: [PATCH 08/91] fix: count every row only once when aggregating without
 GROUP BY

---
 src/engine/GroupBy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 2db20a8..5b36164 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -624,7 +624,7 @@ void GroupBy::doGroupBy(const IdTable& dynInput,
   if (groupByCols.empty()) {
     // The entire input is a single group
     size_t blockStart = 0;
-    size_t blockEnd = input.size();
+    size_t blockEnd = input.size() - 1;
 
     result.emplace_back();
     size_t resIdx = result.size() - 1;
-- 
2.43.0


From 565cb2220b12d00afab4c8a6158523bfe65331a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:10 +0000
Subject: [PATCH 09/91] fix: divide AVG(DISTINCT) by the number of distinct
 values

---
 src/engine/GroupBy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 5b36164..c4224d7 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -191,6 +191,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
           for (size_t i = blockStart; i <= blockEnd; i++) {
+      size_t numValues = blockEnd - blockStart + 1;
             checkTimeoutHashSet();
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
@@ -201,6 +202,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
+          numValues = distinctHashSet.size();
             checkTimeoutAfterNCalls();
             res += input(i, a._inCol);
           }
@@ -221,6 +223,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
+          numValues = distinctHashSet.size();
             checkTimeoutAfterNCalls();
             std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));
             res += tmpF;
@@ -251,6 +254,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
+          numValues = distinctHashSet.size();
             checkTimeoutAfterNCalls();
             // load the string, parse it as an xsd::int or float
             // TODO(schnelle): What's the correct way to handle OPTIONAL here
@@ -265,7 +269,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
         }
       }
-      res /= (blockEnd - blockStart + 1);
+      res /= numValues;
 
       (*result)(resultRow, a._outCol) = 0;
       std::memcpy(&(*result)(resultRow, a._outCol), &res, sizeof(float));
-- 
2.43.0


From 48988427e5379bd7b6c5085f6433cf316b6f9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:10 +0000
Subject: [PATCH 10/91] fix: keep each row's own columns when a bound
 transitive path is repeated

---
 src/engine/TransitivePath.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 091220a..43738d4 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -450,9 +450,17 @@ void TransitivePath::computeTransitivePathLeftBound(
       res.resize(res.size() + num_new);
       checkTimeoutAfterNCalls(num_new * resWidth);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
+        for (size_t c = 0; c < 2; c++) {
           res(res_row + j, c) = res(last_result_begin + j, c);
         }
+        // The remaining columns belong to the current row of the input.
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < leftSideCol) {
+            res(res_row + j, k) = left(i, k - 2);
+          } else if (k - 2 > leftSideCol) {
+            res(res_row + j, k - 1) = left(i, k - 2);
+          }
+        }
       }
       continue;
     }
@@ -587,9 +595,17 @@ void TransitivePath::computeTransitivePathRightBound(
       size_t res_row = res.size();
       res.resize(res.size() + num_new);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
+        for (size_t c = 0; c < 2; c++) {
           res(res_row + j, c) = res(last_result_begin + j, c);
         }
+        // The remaining columns belong to the current row of the input.
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < rightSideCol) {
+            res(res_row + j, k) = right(i, k - 2);
+          } else if (k - 2 > rightSideCol) {
+            res(res_row + j, k - 1) = right(i, k - 2);
+          }
+        }
       }
       checkTimeoutAfterNCalls(num_new * resWidth);
       continue;
-- 
2.43.0


From 1071b20e169011f69f9f1793c18786d810ab2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:10 +0000
Subject: [PATCH 11/91] fix: name the columns an operation works on in its
 cache key

---
 src/engine/Distinct.cpp         |  6 +++++-
 src/engine/GroupBy.cpp          |  5 ++++-
 src/engine/HasPredicateScan.cpp |  3 ++-
 src/engine/Minus.cpp            |  6 +++++-
 src/engine/TransitivePath.cpp   |  4 ++--
 src/engine/Union.cpp            | 19 +++++++++++++++++++
 6 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/engine/Distinct.cpp b/src/engine/Distinct.cpp
index 97f2f74..f54b296 100644
--- a/src/engine/Distinct.cpp
+++ b/src/engine/Distinct.cpp
@@ -24,7 +24,11 @@ string Distinct::asString(size_t indent) const {
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-  os << "Distinct " << _subtree->asString(indent);
+  os << "Distinct on columns:";
+  for (size_t i : _keepIndices) {
+    os << i << " ";
+  }
+  os << "\n" << _subtree->asString(indent);
   return os.str();
 }
 
diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index c4224d7..f0332e7 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -54,13 +54,16 @@ string GroupBy::asString(size_t indent) const {
   }
   os << "GROUP_BY ";
   for (const std::string& var : _groupByVariables) {
-    os << varMap.at(var) << ", ";
+    os << varMapInput.at(var) << ' ' << varMap.at(var) << ", ";
   }
   for (const auto& p : _aliases) {
     os << ParsedQuery::AggregateTypeAsString(p._type);
     if (p._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
       os << p._delimiter;
     }
+    if (p._isDistinct) {
+      os << " DISTINCT";
+    }
 
     os << ' ' << varMapInput.at(p._inVarName) << ' '
        << varMap.at(p._outVarName);
diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index bd6f731..6624b3b 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -36,7 +36,8 @@ string HasPredicateScan::asString(size_t indent) const {
       os << "HAS_RELATION_SCAN for the full relation";
       break;
     case ScanType::SUBQUERY_S:
-      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent);
+      os << "HAS_RELATION_SCAN with S = (col " << _subtreeColIndex << ") "
+         << _subtree->asString(indent);
       break;
   }
   return os.str();
diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 07d194e..5d3def4 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -35,7 +35,11 @@ string Minus::asString(size_t indent) const {
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-  os << "MINUS\n" << _left->asString(indent) << "\n";
+  os << "MINUS on columns: [";
+  for (const auto& columns : _matchedColumns) {
+    os << columns[0] << "=" << columns[1] << " ";
+  }
+  os << "]\n" << _left->asString(indent) << "\n";
   os << _right->asString(indent) << " ";
   return os.str();
 }
diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 43738d4..111d996 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -55,12 +55,12 @@ std::string TransitivePath::asString(size_t indent) const {
   os << " minDist " << _minDist << " maxDist " << _maxDist << "\n";
   os << _subtree->asString(indent) << "\n";
   if (_leftSideTree != nullptr) {
-    os << "Left subtree:\n";
+    os << "Left subtree (col " << _leftSideCol << "):\n";
     os << _leftSideTree->asString(indent) << "\n";
   }
   os << _subtree->asString(indent) << "\n";
   if (_rightSideTree != nullptr) {
-    os << "Right subtree:\n";
+    os << "Right subtree (col " << _rightSideCol << "):\n";
     os << _rightSideTree->asString(indent) << "\n";
   }
   return os.str();
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 4548997..9c52f93 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -46,6 +46,25 @@ string Union::asString(size_t indent) const {
   }
   os << "UNION\n";
   os << _subtrees[1]->asString(indent) << "\n";
+  // The same subtrees can be combined in different ways, depending on the names
+  // of their variables.
+  for (size_t i = 0; i < indent; ++i) {
+    os << " ";
+  }
+  os << "column-origins:";
+  for (const auto& origin : _columnOrigins) {
+    os << " [";
+    for (size_t i = 0; i < origin.size(); ++i) {
+      os << (i > 0 ? ", " : "");
+      if (origin[i] == NO_COLUMN) {
+        os << "-";
+      } else {
+        os << origin[i];
+      }
+    }
+    os << "]";
+  }
+  os << "\n";
   return os.str();
 }
 
-- 
2.43.0


From 0b9586a56cfed26b11168c10bd64593c67531808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:10 +0000
Subject: [PATCH 12/91] fix: do not append a delimiter to
 GROUP_CONCAT(DISTINCT)

---
 src/engine/GroupBy.cpp | 78 ++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index f0332e7..4421c2b 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -191,10 +191,10 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
   switch (a._type) {
     case ParsedQuery::AggregateType::AVG: {
       float res = 0;
+      size_t numValues = blockEnd - blockStart + 1;
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
           for (size_t i = blockStart; i <= blockEnd; i++) {
-      size_t numValues = blockEnd - blockStart + 1;
             checkTimeoutHashSet();
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
@@ -202,10 +202,10 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += input(i, a._inCol);
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
-          numValues = distinctHashSet.size();
             checkTimeoutAfterNCalls();
             res += input(i, a._inCol);
           }
@@ -223,10 +223,10 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += tmpF;
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
-          numValues = distinctHashSet.size();
             checkTimeoutAfterNCalls();
             std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));
             res += tmpF;
@@ -254,10 +254,10 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               }
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
-          numValues = distinctHashSet.size();
             checkTimeoutAfterNCalls();
             // load the string, parse it as an xsd::int or float
             // TODO(schnelle): What's the correct way to handle OPTIONAL here
@@ -300,18 +300,17 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
       std::string* delim = reinterpret_cast<string*>(a._userData);
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
+          for (size_t i = blockStart; i <= blockEnd; i++) {
             checkTimeoutHashSet();
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
+              if (!distinctHashSet.empty()) {
+                out << *delim;
+              }
               distinctHashSet.insert(input(i, a._inCol));
-              out << input(i, a._inCol) << *delim;
+              out << input(i, a._inCol);
             }
           }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            out << input(blockEnd, a._inCol) << *delim;
-          }
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -323,20 +322,18 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
       } else if (inputTypes[a._inCol] == ResultTable::ResultType::FLOAT) {
         float f;
         if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
+          for (size_t i = blockStart; i <= blockEnd; i++) {
             checkTimeoutHashSet();
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
+              if (!distinctHashSet.empty()) {
+                out << *delim;
+              }
               distinctHashSet.insert(input(i, a._inCol));
               std::memcpy(&f, &input(i, a._inCol), sizeof(float));
-              out << f << *delim;
+              out << f;
             }
           }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            std::memcpy(&f, &input(blockEnd, a._inCol), sizeof(float));
-            out << f;
-          }
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -349,18 +346,17 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         }
       } else if (inputTypes[a._inCol] == ResultTable::ResultType::TEXT) {
         if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
+          for (size_t i = blockStart; i <= blockEnd; i++) {
             checkTimeoutHashSet();
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
+              if (!distinctHashSet.empty()) {
+                out << *delim;
+              }
               distinctHashSet.insert(input(i, a._inCol));
-              out << index.getTextExcerpt(input(i, a._inCol)) << *delim;
+              out << index.getTextExcerpt(input(i, a._inCol));
             }
           }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            out << index.getTextExcerpt(input(blockEnd, a._inCol));
-          }
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -371,23 +367,19 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         }
       } else if (inputTypes[a._inCol] == ResultTable::ResultType::LOCAL_VOCAB) {
         if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
+          for (size_t i = blockStart; i <= blockEnd; i++) {
             checkTimeoutHashSet();
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
+              if (!distinctHashSet.empty()) {
+                out << *delim;
+              }
               distinctHashSet.insert(input(i, a._inCol));
               // TODO(schnelle): What's the correct way to handle OPTIONAL here
               out << inTable->idToOptionalString(input(i, a._inCol))
-                         .value_or("")
-                  << *delim;
+                         .value_or("");
             }
           }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            // TODO(schnelle): What's the correct way to handle OPTIONAL here
-            out << inTable->idToOptionalString(input(blockEnd, a._inCol))
-                       .value_or("");
-          }
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
@@ -401,34 +393,24 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         }
       } else {
         if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
+          for (size_t i = blockStart; i <= blockEnd; i++) {
             checkTimeoutHashSet();
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
+              if (!distinctHashSet.empty()) {
+                out << *delim;
+              }
               distinctHashSet.insert(input(i, a._inCol));
               // TODO(schnelle): What's the correct way to handle OPTIONAL here
               std::string entity =
                   index.idToOptionalString(input(i, a._inCol)).value_or("");
               if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
-                out << ad_utility::convertIndexWordToValueLiteral(entity)
-                    << *delim;
+                out << ad_utility::convertIndexWordToValueLiteral(entity);
               } else {
-                out << entity << *delim;
+                out << entity;
               }
             }
           }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            // TODO(schnelle): What's the correct way to handle OPTIONAL here
-            std::string entity =
-                index.idToOptionalString(input(blockEnd, a._inCol))
-                    .value_or("");
-            if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
-              out << ad_utility::convertIndexWordToValueLiteral(entity);
-            } else {
-              out << entity;
-            }
-          }
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-- 
2.43.0


From 4592224c363022a2ba81c0fbc4e83dfae8584b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:39 +0000
Subject: [PATCH 13/91] fix: use the chunk's own ends for sequences of optional
 path elements

---
 src/engine/QueryPlanner.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 41a9bff..452ea4e 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -1600,7 +1600,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
 
     for (size_t i = chunk[0]; i < chunk[1]; i++) {
       if (path._children[i]._can_be_null) {
-        null_child_indices[i] = num_null_children;
+        null_child_indices[i - chunk[0]] = num_null_children;
         ++num_null_children;
       }
     }
@@ -1623,7 +1623,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
       included_ids.clear();
       for (size_t i = chunk[0]; i < chunk[1]; i++) {
         if (!path._children[i]._can_be_null ||
-            (bitmask & (1 << null_child_indices[i])) > 0) {
+            (bitmask & (1 << null_child_indices[i - chunk[0]])) > 0) {
           included_ids.push_back(i);
         }
       }
@@ -1631,12 +1631,12 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
       if (included_ids.empty()) {
         continue;
       }
-      std::string l = left;
+      std::string l = chunkLeft;
       std::string r;
       if (included_ids.size() > 1) {
         r = generateUniqueVarName();
       } else {
-        r = right;
+        r = chunkRight;
       }
 
       // Merge all the child plans into one graph pattern
@@ -1652,7 +1652,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
         if (i + 2 < included_ids.size()) {
           r = generateUniqueVarName();
         } else {
-          r = right;
+          r = chunkRight;
         }
       }
       join_patterns.push_back(p);
-- 
2.43.0


From 38f367080f0d92a5e399667536a4d5f3386f2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:39 +0000
Subject: [PATCH 14/91] fix: bind a transitive path on the column the join uses

---
 src/engine/QueryPlanner.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 452ea4e..4b5bc69 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2998,7 +2998,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
       if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+              QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+          jcs[0][0] == 0) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
@@ -3021,7 +3022,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           if (other->getType() == QueryExecutionTree::SCAN) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
@@ -3055,7 +3056,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
       if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+              QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+          jcs[0][0] == 1) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
@@ -3077,7 +3079,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           if (other->getType() == QueryExecutionTree::SCAN) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
-- 
2.43.0


From 79c2f200d706e7d5446a766d9e8e1f1177b00fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:39 +0000
Subject: [PATCH 15/91] fix: recompute the sort order of a transitive path when
 binding a side

---
 src/engine/TransitivePath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 111d996..4f6c2e0 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -758,6 +758,8 @@ std::shared_ptr<TransitivePath> TransitivePath::bindLeftSide(
       p->_resultWidth++;
     }
   }
+  // The order of the result depends on the side that is bound.
+  p->setResultSortedOn(p->resultSortedOn());
   return p;
 }
 
@@ -780,6 +782,8 @@ std::shared_ptr<TransitivePath> TransitivePath::bindRightSide(
       p->_resultWidth++;
     }
   }
+  // The order of the result depends on the side that is bound.
+  p->setResultSortedOn(p->resultSortedOn());
   return p;
 }
 
-- 
2.43.0


From b04427f4e9ac9eab6bcf7180061d1141d4253bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:39 +0000
Subject: [PATCH 16/91] fix: sort the inputs of two column joins by the join
 columns

---
 src/engine/QueryPlanner.cpp | 94 ++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 49 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 4b5bc69..73c0752 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2802,66 +2802,62 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       return std::vector{optionalJoin(a, b)};
     }
 
-    if (jcs.size() == 2) {
-      // SPECIAL CASE: Cyclic queries -> join on exactly two columns
+    auto isFullScan = [](const SubtreePlan& plan) {
+      return plan._qet->getType() == QueryExecutionTree::SCAN &&
+             plan._qet->getResultWidth() == 3;
+    };
+    // Forbid a join between two dummies.
+    if (jcs.size() >= 2 && isFullScan(a) && isFullScan(b)) {
+      return candidates;
+    }
 
-      // Forbd a join between two dummies.
-      if ((a._qet->getType() == QueryExecutionTree::SCAN &&
-           a._qet->getRootOperation()->getResultWidth() == 3) &&
-          (b._qet->getType() == QueryExecutionTree::SCAN &&
-           b._qet->getRootOperation()->getResultWidth() == 3)) {
-        return candidates;
-      }
+    // The two column join uses one of its inputs as a filter, which is only
+    // possible for inputs that consist of the join columns and do not contain
+    // duplicates.
+    auto isFilterScan = [](const SubtreePlan& plan) {
+      return plan._qet->getType() == QueryExecutionTree::SCAN &&
+             plan._qet->getResultWidth() == 2;
+    };
+    auto canBeFiltered = [&isFilterScan](const SubtreePlan& plan) {
+      return isFilterScan(plan) || plan._qet->getResultWidth() != 2;
+    };
+    if (jcs.size() == 2 && ((isFilterScan(a) && canBeFiltered(b)) ||
+                            (isFilterScan(b) && canBeFiltered(a)))) {
+      // SPECIAL CASE: Cyclic queries -> join on exactly two columns
 
       // Check if a sub-result has to be re-sorted
       // Consider both ways to order join columns as primary / secondary
-      // Make four iterations instead of two so that first and second
-      // column can be swapped and more trees are constructed (of which
-      // the optimal solution will be picked).
+      // (of which the optimal solution will be picked).
       // The order plays a role for the efficient implementation for
       // filtering directly with a scan's result.
-      for (size_t n = 0; n < 4; ++n) {
-        size_t c = n / 2;
-        size_t swap = n % 2;
-        auto left = std::make_shared<QueryExecutionTree>(_qec);
-        auto right = std::make_shared<QueryExecutionTree>(_qec);
-        const vector<size_t>& aSortedOn = a._qet->resultSortedOn();
-        if (aSortedOn.size() > 0 && aSortedOn[0] == jcs[c][(0 + swap) % 2] &&
-            (a._qet->getResultWidth() == 2 ||
-             a._qet->getType() == QueryExecutionTree::SCAN)) {
-          left = a._qet;
-        } else {
-          // Create an order by operation.
-          vector<pair<size_t, bool>> sortIndices;
-          sortIndices.emplace_back(
-              std::make_pair(jcs[c][(0 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(0 + swap) % 2], false));
-          auto orderBy = std::make_shared<OrderBy>(_qec, a._qet, sortIndices);
-          left->setVariableColumns(a._qet->getVariableColumns());
-          left->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
-        }
-        const vector<size_t>& bSortedOn = b._qet->resultSortedOn();
-        if (bSortedOn.size() > 0 && bSortedOn[0] == jcs[c][(1 + swap) % 2] &&
-            b._qet->getResultWidth() == 2) {
-          right = b._qet;
-        } else {
-          // Create a sort operation.
+      for (size_t c = 0; c < 2; ++c) {
+        const vector<array<Id, 2>> orderedJcs{jcs[c], jcs[(c + 1) % 2]};
+        // Both inputs have to be sorted by the (ordered) join columns.
+        auto sortedInput = [&](const SubtreePlan& input, size_t side) {
+          const vector<size_t>& sortedOn = input._qet->resultSortedOn();
+          if (sortedOn.size() > 1 && sortedOn[0] == orderedJcs[0][side] &&
+              (sortedOn[1] == orderedJcs[1][side] || isFullScan(input))) {
+            return input._qet;
+          }
           // Create an order by operation.
           vector<pair<size_t, bool>> sortIndices;
-          sortIndices.emplace_back(
-              std::make_pair(jcs[c][(1 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(1 + swap) % 2], false));
-          auto orderBy = std::make_shared<OrderBy>(_qec, b._qet, sortIndices);
-          right->setVariableColumns(b._qet->getVariableColumns());
-          right->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
-        }
+          sortIndices.emplace_back(orderedJcs[0][side], false);
+          sortIndices.emplace_back(orderedJcs[1][side], false);
+          auto orderBy =
+              std::make_shared<OrderBy>(_qec, input._qet, sortIndices);
+          auto sorted = std::make_shared<QueryExecutionTree>(_qec);
+          sorted->setVariableColumns(input._qet->getVariableColumns());
+          sorted->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
+          return sorted;
+        };
+        auto left = sortedInput(a, 0);
+        auto right = sortedInput(b, 1);
         // TODO(florian): consider replacing this with a multicolumn join.
         // Create the join operation.
         SubtreePlan plan(_qec);
         auto& tree = *plan._qet;
-        auto join = std::make_shared<TwoColumnJoin>(_qec, left, right, jcs);
+        auto join =
+            std::make_shared<TwoColumnJoin>(_qec, left, right, orderedJcs);
         tree.setVariableColumns(join->getVariableColumns());
         tree.setOperation(QueryExecutionTree::TWO_COL_JOIN, join);
         // TODO<joka921>: shouldn't we |= the filters here to avoid duplicate
@@ -2872,7 +2868,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
         candidates.push_back(std::move(plan));
       }
       return candidates;
-    } else if (jcs.size() > 2) {
+    } else if (jcs.size() >= 2) {
       // this can happen when e.g. subqueries are used
       SubtreePlan plan = multiColumnJoin(a, b);
       plan._idsOfIncludedNodes = a._idsOfIncludedNodes;
-- 
2.43.0


From db39e70ab0a08cdca82ae3440dd76538beb3f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:33 +0000
Subject: [PATCH 17/91] fix: tell the optional sides of an optional join apart
 in its cache key

---
 src/engine/OptionalJoin.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index b801d1f..e94df10 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -44,7 +44,12 @@ string OptionalJoin::asString(size_t indent) const {
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     os << _joinColumns[i][0] << (i < _joinColumns.size() - 1 ? " & " : "");
   };
-  os << "]\n";
+  os << "]";
+  // The optional side is the right one unless stated otherwise.
+  if (_leftOptional) {
+    os << (_rightOptional ? " both optional" : " optional");
+  }
+  os << "\n";
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-- 
2.43.0


From 01f476b0f1645f8d18cebd514ff1ce929059611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:01 +0000
Subject: [PATCH 18/91] fix: let joins use a subquery that is a plain scan on
 either column

---
 src/engine/QueryPlanner.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 73c0752..1886364 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -320,7 +320,19 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
         SubtreePlan plan(_qec);
         plan._qet = std::make_shared<QueryExecutionTree>(
             createExecutionTree(arg._subquery));
-        joinCandidates(std::vector{std::move(plan)});
+        std::vector<SubtreePlan> candidates{plan};
+        // Joins never sort a scan, but expect that there is a candidate for
+        // each of its orders.
+        if (plan._qet->getType() == QueryExecutionTree::SCAN &&
+            plan._qet->getResultWidth() == 2) {
+          SubtreePlan sorted(_qec);
+          auto sort = std::make_shared<Sort>(_qec, plan._qet, 1);
+          sorted._qet->setVariableColumns(plan._qet->getVariableColumns());
+          sorted._qet->setContextVars(plan._qet->getContextVars());
+          sorted._qet->setOperation(QueryExecutionTree::SORT, sort);
+          candidates.push_back(std::move(sorted));
+        }
+        joinCandidates(std::move(candidates));
       } else if constexpr (std::is_same_v<T,
                                           GraphPatternOperation::TransPath>) {
         // TODO<kramerfl> This is obviously how you set up transitive paths.
-- 
2.43.0


From 541b1537c49a12a8c4afa294e8a5f51362e191fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:07 +0000
Subject: [PATCH 19/91] fix: order encoded values by their bytes instead of by
 the locale

---
 src/index/StringSortComparator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index/StringSortComparator.h b/src/index/StringSortComparator.h
index cc4716d..5525298 100644
--- a/src/index/StringSortComparator.h
+++ b/src/index/StringSortComparator.h
@@ -564,6 +564,12 @@ class TripleComponentComparator {
       return res;  // different data types, decide on the datatype
     }
 
+    if (a.firstOriginalChar == VALUE_PREFIX[0]) {
+      // The encoding of values is such that the order of the bytes is the
+      // order of the values, no locale must be applied.
+      return a.transformedVal.compare(b.transformedVal);
+    }
+
     if (int res =
             // this correctly dispatches between SortKeys (already transformed)
             // and string_views (not-transformed, perform unicode collation)
@@ -663,6 +669,9 @@ class TripleComponentComparator {
       }
     }
     if constexpr (std::is_same_v<SplitValType, SplitVal>) {
+      if (first == VALUE_PREFIX[0]) {
+        return {first, LocaleManager::SortKey(res), std::string(langtag)};
+      }
       return {first, _locManager.getSortKey(res, level), std::string(langtag)};
     } else if constexpr (std::is_same_v<SplitValType, SplitValNonOwning>) {
       return {first, res, langtag};
-- 
2.43.0


From 519dd7d074512d915cfb111e79a178a6e14b428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:22 +0000
Subject: [PATCH 20/91] fix: start the galloping search of the larger left side
 at its own position

---
 src/engine/Join.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 3c08973..5fcd2b9 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -647,7 +647,7 @@ void Join::doGallopInnerJoin(const TagType, const IdTableView<L_WIDTH>& l1,
       }
     } else {
       size_t step = 1;
-      size_t last = j;
+      size_t last = i;
       while (l2(j, jc2) > l1(i, jc1)) {
         last = i;
         i += step;
-- 
2.43.0


From 6e3bac2c1bfb8e56ca1fe21061cba89ae5aade6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:20 +0000
Subject: [PATCH 21/91] fix: export the rows behind an OFFSET without LIMIT as
 CSV and TSV

---
 src/engine/QueryExecutionTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index e5fea88..658216d 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -110,7 +110,8 @@ void QueryExecutionTree::writeResultToStream(std::ostream& out,
   }
 
   const IdTable& data = res->_data;
-  size_t upperBound = std::min<size_t>(offset + limit, data.size());
+  offset = std::min<size_t>(offset, data.size());
+  size_t upperBound = offset + std::min<size_t>(limit, data.size() - offset);
   writeTable(data, sep, offset, upperBound, validIndices, out);
 
   LOG(DEBUG) << "Done creating readable result.\n";
-- 
2.43.0


From 4279551d7436b242030acc1f2683e3d1bdd8af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:41 +0000
Subject: [PATCH 22/91] fix: map the variables of a multi column join to the
 columns it writes

---
 src/engine/MultiColumnJoin.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index fe9fac3..421c555 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -122,18 +122,22 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
 ad_utility::HashMap<string, size_t> MultiColumnJoin::getVariableColumns()
     const {
   ad_utility::HashMap<string, size_t> retVal(_left->getVariableColumns());
-  size_t columnIndex = retVal.size();
+  size_t leftSize = _left->getResultWidth();
   for (const auto& it : _right->getVariableColumns()) {
+    size_t columnIndex = leftSize + it.second;
     bool isJoinColumn = false;
+    // Reduce the index for every column of _right that is being joined on,
+    // and the index of which is smaller than the index of it.
     for (const std::array<Id, 2>& a : _joinColumns) {
-      if (a[1] == it.second) {
+      if (a[1] < it.second) {
+        columnIndex--;
+      } else if (a[1] == it.second) {
         isJoinColumn = true;
         break;
       }
     }
     if (!isJoinColumn) {
       retVal[it.first] = columnIndex;
-      columnIndex++;
     }
   }
   return retVal;
-- 
2.43.0


From aaf84d3b7f0ea7dbd924979c36ffc6045adbb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:59 +0000
Subject: [PATCH 23/91] fix: apply all HAVING clauses instead of only the last
 one

---
 src/engine/QueryPlanner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 1886364..7c250d4 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -990,10 +990,10 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getHavingRow(
     for (const SparqlFilter& filter : pq._havingClauses) {
       SubtreePlan plan(_qec);
       auto& tree = *plan._qet;
-      tree.setVariableColumns(parent._qet->getVariableColumns());
+      tree.setVariableColumns(filtered._qet->getVariableColumns());
       tree.setOperation(QueryExecutionTree::FILTER,
-                        createFilterOperation(filter, parent));
-      tree.setContextVars(parent._qet->getContextVars());
+                        createFilterOperation(filter, filtered));
+      tree.setContextVars(filtered._qet->getContextVars());
       filtered = plan;
     }
     added.push_back(filtered);
-- 
2.43.0


From 84cb52aacfe4660db9dce4e60a88a0094c631cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:59 +0000
Subject: [PATCH 24/91] fix: list the predicates of entities without counting
 them

---
 src/engine/QueryPlanner.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 7c250d4..c361ac7 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -903,6 +903,9 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     previous = &dpTab.back();
   }
   vector<SubtreePlan> added;
+  const std::string countVarName = pq._aliases.empty()
+                                       ? generateUniqueVarName()
+                                       : pq._aliases[0]._outVarName;
   if (previous != nullptr && !previous->empty()) {
     added.reserve(previous->size());
     for (size_t i = 0; i < previous->size(); ++i) {
@@ -940,7 +943,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
       auto countPred = std::make_shared<CountAvailablePredicates>(
           _qec, isSorted ? parent._qet : orderByPlan._qet, subjectColumn);
 
-      countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
+      countPred->setVarNames(patternTrickTriple._o, countVarName);
       QueryExecutionTree& tree = *patternTrickPlan._qet;
       tree.setVariableColumns(countPred->getVariableColumns());
       tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
@@ -953,7 +956,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     auto countPred =
         std::make_shared<CountAvailablePredicates>(_qec, patternTrickTriple._s);
 
-    countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
+    countPred->setVarNames(patternTrickTriple._o, countVarName);
     QueryExecutionTree& tree = *patternTrickPlan._qet;
     tree.setVariableColumns(countPred->getVariableColumns());
     tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
@@ -964,11 +967,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     SubtreePlan patternTrickPlan(_qec);
     auto countPred = std::make_shared<CountAvailablePredicates>(_qec);
 
-    if (pq._aliases.size() > 0) {
-      countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
-    } else {
-      countPred->setVarNames(patternTrickTriple._o, generateUniqueVarName());
-    }
+    countPred->setVarNames(patternTrickTriple._o, countVarName);
     QueryExecutionTree& tree = *patternTrickPlan._qet;
     tree.setVariableColumns(countPred->getVariableColumns());
     tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
-- 
2.43.0


From e4e791c66c811ca6e2bea96a29a69ed93b3995f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:59 +0000
Subject: [PATCH 25/91] fix: do not stop a has-predicate scan at the first row
 without predicates

---
 src/engine/HasPredicateScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index 6624b3b..6aa90bf 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -396,8 +396,6 @@ void HasPredicateScan::computeSubqueryS(
         }
         result(backIdx, input.cols()) = predicateData[j];
       }
-    } else {
-      break;
     }
   }
   *dynResult = result.moveToDynamic();
-- 
2.43.0


From 58598374f981bc0696268553b451f463ff4db350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:46 +0000
Subject: [PATCH 26/91] fix: do not use the pattern trick when VALUES or MINUS
 restrict the predicate

---
 src/engine/QueryPlanner.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index c361ac7..3b301bc 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -564,7 +564,8 @@ bool QueryPlanner::checkUsePatternTrick(
           using T = std::decay_t<decltype(arg)>;
           if constexpr (std::is_same_v<T, GraphPatternOperation::Optional> ||
                         std::is_same_v<
-                            T, GraphPatternOperation::GroupGraphPattern>) {
+                            T, GraphPatternOperation::GroupGraphPattern> ||
+                        std::is_same_v<T, GraphPatternOperation::Minus>) {
             graphsToProcess.push_back(&arg._child);
           } else if constexpr (std::is_same_v<T,
                                               GraphPatternOperation::Union>) {
@@ -588,12 +589,18 @@ bool QueryPlanner::checkUsePatternTrick(
               }
             }
 
+          } else if constexpr (std::is_same_v<T,
+                                              GraphPatternOperation::Values>) {
+            for (const auto& var : arg._inlineValues._variables) {
+              if (var == t._o) {
+                usePatternTrick = false;
+                break;
+              }
+            }
           } else {
             static_assert(
                 std::is_same_v<T, GraphPatternOperation::TransPath> ||
-                std::is_same_v<T, GraphPatternOperation::BasicGraphPattern> ||
-                std::is_same_v<T, GraphPatternOperation::Values> ||
-                std::is_same_v<T, GraphPatternOperation::Minus>);
+                std::is_same_v<T, GraphPatternOperation::BasicGraphPattern>);
           }
           // Transitive paths cannot yet exist in the query. They could also
           // not contain the variables we are interested in.
-- 
2.43.0


From bf4c2311d2e60df66964ff0cc0d6a8d542614f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:48 +0000
Subject: [PATCH 27/91] fix: do not run a has-predicate scan on top of a scan
 of the full index

---
 src/engine/QueryPlanner.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 3b301bc..35e6513 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2979,6 +2979,12 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           replaceJoin = true;
         }
       }
+      // A scan of the full index can not be executed as a subtree.
+      if (replaceJoin &&
+          other->getType() == QueryExecutionTree::OperationType::SCAN &&
+          other->getResultWidth() == 3) {
+        replaceJoin = false;
+      }
       if (replaceJoin) {
         SubtreePlan plan{_qec};
         QueryExecutionTree& tree = *plan._qet;
-- 
2.43.0


From 36c6b384b9bc6794fcc7f7f47b338b36d79e3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:30 +0000
Subject: [PATCH 28/91] fix: find no records for an entity that does not occur
 in the text

---
 src/index/Index.Text.cpp   | 12 ++++++++++++
 src/index/TextMetaData.cpp |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index dfb0146..27c3b79 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -816,6 +816,10 @@ void Index::getEntityPostingsForTerm(const string& term, vector<Id>& cids,
     }
     idRange._last = idRange._first;
   }
+  if (entityTerm && !_textMeta.existsTextBlockForEntityId(idRange._first)) {
+    LOG(DEBUG) << "Entity " << term << " not contained in the text.\n";
+    return;
+  }
   const auto& tbmd =
       entityTerm
           ? _textMeta.getBlockInfoByEntityId(idRange._first)
@@ -1182,6 +1186,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
       }
       range._last = range._first;
     }
+    if (entityTerm && !_textMeta.existsTextBlockForEntityId(range._first)) {
+      LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text.\n";
+      return i;
+    }
     const auto& tbmd =
         entityTerm
             ? _textMeta.getBlockInfoByEntityId(range._first)
@@ -1391,6 +1399,10 @@ size_t Index::getSizeEstimate(const string& words) const {
       }
       range._last = range._first;
     }
+    if (entityTerm && !_textMeta.existsTextBlockForEntityId(range._first)) {
+      LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text.\n";
+      return 0;
+    }
     const auto& tbmd =
         entityTerm
             ? _textMeta.getBlockInfoByEntityId(range._first)
diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index ca86272..a0575af 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -53,7 +53,7 @@ bool TextMetaData::existsTextBlockForEntityId(const Id eid) const {
   vector<Id>::const_iterator it = std::lower_bound(
       _blockUpperBoundEntityIds.begin(), _blockUpperBoundEntityIds.end(), eid);
 
-  return (*it == eid);
+  return it != _blockUpperBoundEntityIds.end() && *it == eid;
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From d40ff70f8d5c2e3d9fc432d9297c46635a29f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:59 +0000
Subject: [PATCH 29/91] fix: leave unbound scores, counts and floats empty in
 the result

---
 src/engine/QueryExecutionTree.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index 658216d..148267a 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -223,6 +223,12 @@ nlohmann::json QueryExecutionTree::writeJsonTable(
       }
       const auto& idx = *opt;
       const auto& currentId = data(i, idx.first);
+      if (currentId == ID_NO_VALUE &&
+          (idx.second == ResultTable::ResultType::VERBATIM ||
+           idx.second == ResultTable::ResultType::FLOAT)) {
+        row.emplace_back(nullptr);
+        continue;
+      }
       switch (idx.second) {
         case ResultTable::ResultType::KB: {
           std::optional<string> entity =
@@ -288,15 +294,19 @@ void QueryExecutionTree::writeTable(
             break;
           }
           case ResultTable::ResultType::VERBATIM:
-            out << data(i, val.first);
+            if (data(i, val.first) != ID_NO_VALUE) {
+              out << data(i, val.first);
+            }
             break;
           case ResultTable::ResultType::TEXT:
             out << _qec->getIndex().getTextExcerpt(data(i, val.first));
             break;
           case ResultTable::ResultType::FLOAT: {
-            float f;
-            std::memcpy(&f, &data(i, val.first), sizeof(float));
-            out << f;
+            if (data(i, val.first) != ID_NO_VALUE) {
+              float f;
+              std::memcpy(&f, &data(i, val.first), sizeof(float));
+              out << f;
+            }
             break;
           }
           case ResultTable::ResultType::LOCAL_VOCAB: {
-- 
2.43.0


From 790b9a477c286838b8ac3a5bc5a2b51340a702bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:59 +0000
Subject: [PATCH 30/91] fix: accept words that never co-occur with an entity

---
 src/index/Index.Text.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 27c3b79..653a92f 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -905,6 +905,11 @@ void Index::readGapComprList(size_t nofElements, off_t from, size_t nofBytes,
 template <typename T>
 void Index::readFreqComprList(size_t nofElements, off_t from, size_t nofBytes,
                               vector<T>& result) const {
+  if (nofElements == 0) {
+    // E.g. no entity co-occurs with any of the words of a block.
+    result.clear();
+    return;
+  }
   AD_CHECK_GT(nofBytes, 0);
   LOG(DEBUG) << "Reading frequency-encoded list from disk...\n";
   LOG(TRACE) << "NofElements: " << nofElements << ", from: " << from
-- 
2.43.0


From 8ec6bb41bfb1395718ead072789027fead805e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:59 +0000
Subject: [PATCH 31/91] fix: accept a prefix without matching words next to
 other search words

---
 src/index/Index.Text.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 653a92f..abfc6bf 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -1177,7 +1177,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
     bool entityTerm = (terms[i][0] == '<' && terms[i].back() == '>');
     IdRange range;
     if (terms[i].back() == PREFIX_CHAR) {
-      _textVocab.getIdRangeForFullTextPrefix(terms[i], &range);
+      if (!_textVocab.getIdRangeForFullTextPrefix(terms[i], &range)) {
+        LOG(DEBUG) << "Prefix: " << terms[i] << " not in vocabulary\n";
+        return i;
+      }
     } else {
       if (entityTerm) {
         if (!_vocab.getId(terms[i], &range._first)) {
-- 
2.43.0


From cbefa2f01ac715df5a3252c4ec468fd0f9c7ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:59 +0000
Subject: [PATCH 32/91] fix: add the scores of both words when searching two
 words

---
 src/index/Index.Text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index abfc6bf..9dab4d8 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -548,7 +548,7 @@ void Index::getContextListForWords(const string& words,
     }
     if (cidVecs.size() == 2) {
       FTSAlgorithms::intersectTwoPostingLists(
-          cidVecs[0], scoreVecs[1], cidVecs[1], scoreVecs[1], cids, scores);
+          cidVecs[0], scoreVecs[0], cidVecs[1], scoreVecs[1], cids, scores);
     } else {
       vector<Id> dummy;
       FTSAlgorithms::intersectKWay(cidVecs, scoreVecs, nullptr, cids, dummy,
-- 
2.43.0


From 2e81b37f0951a40a597273b992a4609d596b9609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:59 +0000
Subject: [PATCH 33/91] fix: keep the co-occurring entities of a text search
 filtered by a list

---
 src/index/FTSAlgorithms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/FTSAlgorithms.cpp b/src/index/FTSAlgorithms.cpp
index 356a758..0361b70 100644
--- a/src/index/FTSAlgorithms.cpp
+++ b/src/index/FTSAlgorithms.cpp
@@ -1307,7 +1307,7 @@ void FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts(
       result(n, 1) = rscore;
       size_t off = 2;
       for (size_t i = 1; i < keyEids.size(); i++) {
-        result(n, 2 + i) = keyEids[i];
+        result(n, off) = keyEids[i];
         off++;
       }
       result(n, off) = keyEids[0];
-- 
2.43.0


From 47dbe885a51e3a564f3e88a7d0ac74f697006cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:13 +0000
Subject: [PATCH 34/91] fix: do not index empty postings when a text repeats
 many words

---
 src/index/Index.Text.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 9dab4d8..507517f 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -17,7 +17,8 @@ void Index::addTextFromContextFile(const string& contextFile) {
   size_t nofLines = passContextFileForVocabulary(contextFile);
   _textVocab.writeToFile(_onDiskBase + ".text.vocabulary");
   calculateBlockBoundaries();
-  TextVec v(nofLines);
+  TextVec v;
+  v.reserve(nofLines);
   passContextFileIntoVector(contextFile, v);
   LOG(INFO) << "Sorting text index with " << v.size() << " items ..."
             << std::endl;
-- 
2.43.0


From 57154e99852358ce9abcdf8dfc409a5965f02754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:35 +0000
Subject: [PATCH 35/91] fix: tell entity blocks from word blocks of the text
 index by their number

---
 src/index/TextMetaData.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index a0575af..e2e8a53 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -102,19 +102,16 @@ ad_utility::File& operator<<(ad_utility::File& f, const TextMetaData& md) {
 TextMetaData& TextMetaData::createFromByteBuffer(unsigned char* buffer) {
   size_t nofBlocks = *reinterpret_cast<size_t*>(buffer);
   off_t offset = sizeof(size_t);
-  bool stepEntity = false;
+  // The blocks for entities follow the blocks for words, there is one for each
+  // entity.
+  const size_t nofEntities = *reinterpret_cast<size_t*>(
+      buffer + offset + nofBlocks * TextBlockMetaData::sizeOnDisk());
   for (size_t i = 0; i < nofBlocks; ++i) {
     TextBlockMetaData tbmd;
     tbmd.createFromByteBuffer(buffer + offset);
     offset += TextBlockMetaData::sizeOnDisk();
-    if (!stepEntity) {
-      if (_blocks.size() == 0 ||
-          _blocks.back()._lastWordId + 1 == tbmd._firstWordId) {
-        _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
-      } else {
-        stepEntity = true;
-        _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
-      }
+    if (i + nofEntities < nofBlocks) {
+      _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
     } else {
       _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
     }
-- 
2.43.0


From 9f594f4e85b0dea3327b6976f96375d1682d80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:20 +0000
Subject: [PATCH 36/91] fix: show no excerpt for text records without a
 document

---
 src/index/DocsDB.cpp | 9 +++++++--
 src/index/DocsDB.h   | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/index/DocsDB.cpp b/src/index/DocsDB.cpp
index a09c411..6f52664 100644
--- a/src/index/DocsDB.cpp
+++ b/src/index/DocsDB.cpp
@@ -19,15 +19,20 @@ void DocsDB::init(const string& fileName) {
 
 // _____________________________________________________________________________
 string DocsDB::getTextExcerpt(Id cid) const {
+  // There is no text for records after the last document.
+  if (cid >= _size) {
+    return "";
+  }
   off_t ft[2];
   off_t& from = ft[0];
   off_t& to = ft[1];
   off_t at = _startOfOffsets + cid * sizeof(off_t);
   at += _dbFile.read(ft, sizeof(ft), at);
-  while (to == from) {
+  const off_t end = _startOfOffsets + (_size + 1) * sizeof(off_t);
+  while (to == from && at < end) {
     at += _dbFile.read(&to, sizeof(off_t), at);
   }
-  assert(to > from);
+  assert(to >= from);
   size_t nofBytes = static_cast<size_t>(to - from);
   string line(nofBytes, '\0');
   _dbFile.read(line.data(), nofBytes, from);
diff --git a/src/index/DocsDB.h b/src/index/DocsDB.h
index a83999b..0018c8e 100644
--- a/src/index/DocsDB.h
+++ b/src/index/DocsDB.h
@@ -19,6 +19,6 @@ class DocsDB {
   string getTextExcerpt(Id cid) const;
 
   mutable ad_utility::File _dbFile;
-  off_t _startOfOffsets;
-  size_t _size;
+  off_t _startOfOffsets = 0;
+  size_t _size = 0;
 };
-- 
2.43.0


From e7e808c67c42a3fc9d1f365cd3be2ecabb75bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:26:44 +0000
Subject: [PATCH 37/91] fix: take the column types of a union from a branch
 that has rows

---
 src/engine/Union.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 9c52f93..2f0bf97 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -156,7 +156,8 @@ void Union::computeResult(ResultTable* result) {
 
   result->_sortedBy = resultSortedOn();
   for (const std::array<size_t, 2>& o : _columnOrigins) {
-    if (o[0] != NO_COLUMN) {
+    // An empty result may not know the types of its columns.
+    if (o[0] != NO_COLUMN && (o[1] == NO_COLUMN || subRes1->size() > 0)) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes2->getResultType(o[1]));
-- 
2.43.0


From 9dd0173f07180714504fc6f3288a0922403b1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:14 +0000
Subject: [PATCH 38/91] fix: give an externalized word that occurs in several
 partial vocabularies one id

The vocabulary merger removed the externalization marker from the word it
remembers for detecting duplicates. The same word coming from the next
partial vocabulary was therefore written again, with a different id.
---
 src/index/VocabularyGeneratorImpl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/index/VocabularyGeneratorImpl.h b/src/index/VocabularyGeneratorImpl.h
index 167ff33..c58a23d 100644
--- a/src/index/VocabularyGeneratorImpl.h
+++ b/src/index/VocabularyGeneratorImpl.h
@@ -156,8 +156,10 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
       if (_lastWritten < EXTERNALIZED_LITERALS_PREFIX) {
         _outfile << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
       } else {
-        // we have to strip the externalization character again
-        auto& c = _lastWritten[0];
+        // we have to strip the externalization character again. This is done
+        // on a copy because _lastWritten is needed to detect duplicates.
+        std::string word = _lastWritten;
+        auto& c = word[0];
         switch (c) {
           case EXTERNALIZED_LITERALS_PREFIX_CHAR:
             c = '"';
@@ -171,7 +173,7 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
                           "should never happen\n";
             AD_CHECK(false)
         }
-        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
+        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(word) << '\n';
       }
 
       // write id to corresponding vec
-- 
2.43.0


From c6d1d9973e40ca6deeaf6d68404fda3eaf0488b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:14 +0000
Subject: [PATCH 39/91] fix: read all statements with the mmap Turtle parser

The parser stopped after the first statement that it could parse, and
looped when a statement could not be parsed.
---
 src/parser/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 3ef3596..3c80882 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -515,7 +515,7 @@ bool TurtleMmapParser<T>::getLine(std::array<string, 3>* triple) {
     // relatively expensive backup calls.
     while (_triples.size() < PARSER_MIN_TRIPLES_AT_ONCE &&
            !_isParserExhausted) {
-      if (this->statement()) {
+      if (!this->statement()) {
         // we cannot parse anymore from an mmaped file but there was no
         // error. check if we are just at the end of the input, otherwise
         // inform.
-- 
2.43.0


From 8855bb2c1c8cd159d149b4087c35de110b7dc1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:14 +0000
Subject: [PATCH 40/91] fix: accept non-ASCII characters in predicates of
 queries

A predicate IRI with a non-ASCII character was rejected.
---
 src/parser/PropertyPathParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index 5f43ab0..a0de3ce 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -126,6 +126,10 @@ void PropertyPathParser::initDelimiters() {
       VALID_CHARS[c] = true;
     }
   }
+  // All bytes of multibyte UTF-8 characters are valid.
+  for (size_t c = 128; c < 256; c++) {
+    VALID_CHARS[c] = true;
+  }
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From dea765dd83dd4e273b7a1ab7b48ee120530de3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:14 +0000
Subject: [PATCH 41/91] fix: answer queries with invalid UTF-8 instead of
 terminating

Composing the error answer threw an exception that nobody caught when the
query or the error message was not valid UTF-8.
---
 src/engine/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index c84d8b7..af101a1 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -440,7 +440,8 @@ string Server::composeResponseJson(const string& query,
   j["time"]["total"] = requestTimer.msecs();
   j["time"]["computeResult"] = requestTimer.msecs();
   j["exception"] = exception.what();
-  return j.dump(4);
+  // The query and the message may contain invalid UTF-8, this must not throw.
+  return j.dump(4, ' ', false, json::error_handler_t::replace);
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From a95c75f94e317d06d9b19b41a353d69d9df779fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:14 +0000
Subject: [PATCH 42/91] fix: reject requests without a path instead of
 terminating

A request like 'HTTPGET' made the server compute a substring beyond the end
of the request, and the exception was not caught.
---
 src/engine/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index af101a1..e797a3b 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -111,7 +111,8 @@ void Server::process(Socket* client) {
   size_t indexOfHTTP = request.find("HTTP");
   size_t upper = indexOfHTTP;
 
-  if (indexOfGET != request.npos && indexOfHTTP != request.npos) {
+  if (indexOfGET != request.npos && indexOfHTTP != request.npos &&
+      indexOfHTTP > indexOfGET + 5) {
     size_t indexOfQuest = request.find("?", indexOfGET);
     if (indexOfQuest != string::npos && indexOfQuest < indexOfHTTP) {
       upper = indexOfQuest + 1;
-- 
2.43.0


From 9b84448bcc8de62398afbd203bbbd960df4781f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:14 +0000
Subject: [PATCH 43/91] fix: initialize the delimiters of property paths only
 once

They were reset and filled again for every path, so that a path parsed by
another thread at the same time could be split wrongly.
---
 src/parser/PropertyPathParser.cpp | 6 ++----
 src/parser/PropertyPathParser.h   | 3 ++-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index a0de3ce..f830486 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -13,7 +13,7 @@
 #include "../util/StringUtils.h"
 #include "ParseException.h"
 
-bool PropertyPathParser::delimiters_initialized = false;
+std::once_flag PropertyPathParser::delimiters_initialized;
 
 std::array<bool, 256> PropertyPathParser::DELIMITER_CHARS;
 std::array<bool, 256> PropertyPathParser::VALID_CHARS;
@@ -38,9 +38,7 @@ PropertyPath PropertyPathParser::parse() {
 std::vector<PropertyPathParser::Token> PropertyPathParser::tokenize(
     std::string_view str) {
   // runs only once to initialize the delimiter characters
-  if (!delimiters_initialized) {
-    initDelimiters();
-  }
+  std::call_once(delimiters_initialized, initDelimiters);
 
   std::vector<Token> tokens;
 
diff --git a/src/parser/PropertyPathParser.h b/src/parser/PropertyPathParser.h
index 7f678e4..9b86b51 100644
--- a/src/parser/PropertyPathParser.h
+++ b/src/parser/PropertyPathParser.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -88,5 +89,5 @@ class PropertyPathParser {
   // Static members
   static std::array<bool, 256> DELIMITER_CHARS;
   static std::array<bool, 256> VALID_CHARS;
-  static bool delimiters_initialized;
+  static std::once_flag delimiters_initialized;
 };
-- 
2.43.0


From 7658c87144229a2ed609d7651be8287934c5b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:07 +0000
Subject: [PATCH 44/91] fix: name language-tagged predicates after the original
 predicate

For an externalized predicate the name contained the externalization
character. Language filters on such a predicate found nothing, and answers
showing the name were not valid UTF-8.
---
 src/index/IndexBuilderTypes.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/index/IndexBuilderTypes.h b/src/index/IndexBuilderTypes.h
index c307c21..a375f66 100644
--- a/src/index/IndexBuilderTypes.h
+++ b/src/index/IndexBuilderTypes.h
@@ -133,9 +133,14 @@ auto getIdMapLambdas(std::array<ItemMapManager, Parallelism>* itemArrayPtr,
         auto langTagId = map.assignNextId(
             ad_utility::convertLangtagToEntityUri(lt._langtag));
         // get the Id for the tagged predicate, e.g. @en@rdfs:label
+        // (always using the predicate without the externalization character)
+        std::string predicate = lt._triple[1];
+        if (predicate[0] == EXTERNALIZED_ENTITIES_PREFIX_CHAR) {
+          predicate[0] = '<';
+        }
         auto langTaggedPredId =
             map.assignNextId(ad_utility::convertToLanguageTaggedPredicate(
-                lt._triple[1], lt._langtag));
+                predicate, lt._langtag));
         auto& spoIds = *(res[0]);  // ids of original triple
         // extra triple <subject> @language@<predicate> <object>
         res[1].emplace(array<Id, 3>{spoIds[0], langTaggedPredId, spoIds[2]});
-- 
2.43.0


From 610c829aa863e1c2ec464dcb4181f319a03b7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:13 +0000
Subject: [PATCH 45/91] fix: compute the compression prefixes on the escaped
 words

A prefix with a newline was split into two when the list of prefixes was
read again, so that the vocabulary could not be loaded or had wrong words.
---
 src/index/PrefixHeuristic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/PrefixHeuristic.cpp b/src/index/PrefixHeuristic.cpp
index ac7131d..90618bb 100644
--- a/src/index/PrefixHeuristic.cpp
+++ b/src/index/PrefixHeuristic.cpp
@@ -185,7 +185,8 @@ std::vector<string> calculatePrefixes(const string& filename,
   LOG(INFO) << "start reading words and building prefix tree..." << std::endl;
   // insert all prefix candidates into  the tree
   while (std::getline(ifs, nextWord)) {
-    nextWord = RdfEscaping::unescapeNewlinesAndBackslashes(nextWord);
+    // The words (and thus the prefixes) deliberately stay escaped, because the
+    // prefixes are applied to the escaped words and stored one per line.
     totalChars += nextWord.size();
     // the longest common prefixes between two adjacent words are our candidates
     // for compression
-- 
2.43.0


From 0b3cb36ccbc3045e5a0c7cf4cba350629ac76a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:13 +0000
Subject: [PATCH 46/91] fix: accept language tags with subtags in literals of
 queries

A literal with a language tag like @en-GB was rejected as not terminated.
---
 src/parser/SparqlParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index cdb303f..8d8ef3c 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -946,7 +946,8 @@ string SparqlParser::parseLiteral(const string& literal, bool isEntireString,
     // allow for ascii based language tags (no current language tag should
     // contain non ascii letters).
     while (pos < literal.size() &&
-           std::isalpha(static_cast<unsigned char>(literal[pos]))) {
+           (std::isalnum(static_cast<unsigned char>(literal[pos])) ||
+            literal[pos] == '-')) {
       out << literal[pos];
       pos++;
     }
-- 
2.43.0


From 85609673e2c769cdf47f1230adab31f03194aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:06 +0000
Subject: [PATCH 47/91] fix: convert numbers with many digits correctly to
 floats

Numbers with more than 18 digits made aggregates fail, and numbers like
999999999999999 were off by a factor of ten because of a rounded logarithm.
---
 src/util/Conversions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index b4c6bd4..20defac 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -425,8 +425,10 @@ float convertIndexWordToFloat(const string& indexWord) {
   for (mStop = mantissa.size() - 1; mStop > mStart && mantissa[mStop] == '0';
        mStop--)
     ;
-  long absMantissa = stol(mantissa.substr(mStart, mStop - mStart + 1));
-  unsigned int mantissaLog = std::log10(absMantissa);
+  // Only as many digits as fit into a long, a float is less precise anyway.
+  size_t nofDigits = std::min(mStop - mStart + 1, size_t(18));
+  long absMantissa = stol(mantissa.substr(mStart, nofDigits));
+  unsigned int mantissaLog = nofDigits - 1;
   if (negaMantissa) {
     if (negaExponent) {
       return -absMantissa * std::pow(10, -absExponent - mantissaLog);
-- 
2.43.0


From da125bdaddb78816f3893e13373fec07ad64adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:59 +0000
Subject: [PATCH 48/91] fix: index numbers with an exponent, leading zeros or
 more than 30 digits correctly

'1.5E3' was stored with the E as a digit, '007' and '0.00' were sorted at the
wrong place, and zeros at the end of large numbers were lost.
---
 src/util/Conversions.h | 81 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 7 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index 20defac..5c06dba 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -49,6 +49,14 @@ enum class NumericType : char {
   DECIMAL = 'T'
 };
 
+//! Check if the string is a decimal number, possibly with an exponent.
+inline bool isDecimalOrDouble(const string& val);
+
+//! Converts numbers with an exponent or leading zeros like "-1.5E3" or "007"
+//! to plain decimal numbers like "-1500.0" and "7.0". Strings that are not
+//! numbers are returned unchanged.
+inline string expandExponentAndStripLeadingZeros(const string& orig);
+
 //! Converts strings like "12.34" to :v:float:PP0*2E0*1234F and -0.123 to
 //! :v:float:M-0*1E9*876F with the last F used to indicate that the value was
 //! originally a float. ('I' if it was an int).
@@ -197,6 +205,60 @@ string convertIndexWordToValueLiteral(const string& indexWord) {
   return indexWord;
 }
 
+// _____________________________________________________________________________
+bool isDecimalOrDouble(const string& val) {
+  const char* digits = "0123456789";
+  auto skipSignAndDigits = [&](size_t pos, bool sign) {
+    if (sign && pos < val.size() && (val[pos] == '-' || val[pos] == '+')) {
+      ++pos;
+    }
+    return std::min(val.find_first_not_of(digits, pos), val.size());
+  };
+  size_t pos = skipSignAndDigits(0, true);
+  if (pos < val.size() && val[pos] == '.') {
+    pos = skipSignAndDigits(pos + 1, false);
+  }
+  if (val.substr(0, pos).find_first_of(digits) == string::npos) {
+    return false;
+  }
+  if (pos < val.size() && (val[pos] == 'e' || val[pos] == 'E')) {
+    size_t end = skipSignAndDigits(pos + 1, true);
+    // Do not accept exponents that no double can have.
+    return end == val.size() && end - pos <= 5 &&
+           val.find_first_of(digits, pos) != string::npos;
+  }
+  return pos == val.size();
+}
+
+// _____________________________________________________________________________
+string expandExponentAndStripLeadingZeros(const string& orig) {
+  if (!isDecimalOrDouble(orig)) {
+    return orig;
+  }
+  size_t start = (orig[0] == '-') ? 1 : 0;
+  size_t endOfMantissa = std::min(orig.find_first_of("eE"), orig.size());
+  size_t posOfDot = std::min(orig.find('.'), endOfMantissa);
+  string before = orig.substr(start, posOfDot - start);
+  string after = orig.substr(posOfDot, endOfMantissa - posOfDot);
+  after.erase(0, 1);
+  int exponent = endOfMantissa == orig.size()
+                     ? 0
+                     : atoi(orig.c_str() + endOfMantissa + 1);
+  if (exponent > 0) {
+    after.resize(std::max(after.size(), static_cast<size_t>(exponent)), '0');
+    before += after.substr(0, exponent);
+    after.erase(0, exponent);
+  } else if (exponent < 0) {
+    size_t shift = -exponent;
+    before = string(shift, '0') + before;
+    after = before.substr(before.size() - shift) + after;
+    before.resize(before.size() - shift);
+  }
+  before.erase(0, std::min(before.find_first_not_of('0'), before.size()));
+  return orig.substr(0, start) + (before.empty() ? "0" : before) + '.' +
+         (after.empty() ? "0" : after);
+}
+
 // _____________________________________________________________________________
 string convertFloatStringToIndexWord(const string& orig,
                                      const NumericType type) {
@@ -208,13 +270,14 @@ string convertFloatStringToIndexWord(const string& orig,
   } else {
     value = orig;
   }
+  value = expandExponentAndStripLeadingZeros(value);
   size_t posOfDot = value.find('.');
   if (posOfDot == string::npos) {
     return convertFloatStringToIndexWord(value + ".0", type);
   }
 
   // Treat the special case 0.0
-  if (value == "0.0" || value == "-0.0") {
+  if (value.find_first_not_of("-0.") == string::npos) {
     return string(VALUE_FLOAT_PREFIX) + "N0" + char(type);
   }
 
@@ -378,14 +441,14 @@ string convertIndexWordToFloatString(const string& indexWord) {
       ++tenToThe;
     }
 
-    if (os.str().back() == '.') {
-      os << '0';
+    if (absExponent >= mantissa.size()) {
+      // The number has more digits than the mantissa.
+      os << zeros.str() << string(absExponent + 1 - mantissa.size(), '0')
+         << '.';
     }
 
-    if (absExponent > mantissa.size()) {
-      for (size_t i = 0; i < absExponent - mantissa.size(); ++i) {
-        os << "0";
-      }
+    if (os.str().back() == '.') {
+      os << '0';
     }
   }
   return os.str();
@@ -425,6 +488,10 @@ float convertIndexWordToFloat(const string& indexWord) {
   for (mStop = mantissa.size() - 1; mStop > mStart && mantissa[mStop] == '0';
        mStop--)
     ;
+  if (mStart == mantissa.size()) {
+    // All significant digits were beyond the precision of the mantissa.
+    return 0;
+  }
   // Only as many digits as fit into a long, a float is less precise anyway.
   size_t nofDigits = std::min(mStop - mStart + 1, size_t(18));
   long absMantissa = stol(mantissa.substr(mStart, nofDigits));
-- 
2.43.0


From 83c941257fc2d7cdb6c8350bb980da88c9189ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:59 +0000
Subject: [PATCH 49/91] fix: keep numeric literals that are not finite numbers
 as they are

'NaN' became 'NaN.0', '-INF' became '-', and aggregating them failed.
---
 src/util/Conversions.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index 5c06dba..1373255 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -145,6 +145,11 @@ string convertValueLiteralToIndexWord(const string& orig) {
   if (type == "dateTime" || type == "gYear" || type == "gYearMonth" ||
       type == "date") {
     return convertDateToIndexWord(value);
+  } else if (!isDecimalOrDouble(value) ||
+             ((type == "int" || type == "integer") &&
+              value.find_first_of(".eE") != string::npos)) {
+    // Keep everything that is not a finite number as it is.
+    return orig;
   } else {
     // No longer convert to int. instead always convert to float and
     // have a special marker at the very end to tell if the original number
-- 
2.43.0


From 0616551ec64814f55508bb02beb39589c4daae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:57 +0000
Subject: [PATCH 50/91] fix: keep date literals without a representable year as
 they are

A date with a very long year made the index builder fail.
---
 src/util/Conversions.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index 1373255..70e8b72 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -144,6 +144,14 @@ string convertValueLiteralToIndexWord(const string& orig) {
 
   if (type == "dateTime" || type == "gYear" || type == "gYearMonth" ||
       type == "date") {
+    size_t startOfYear = (!value.empty() && value[0] == '-') ? 1 : 0;
+    size_t endOfYear = std::min(
+        value.find_first_not_of("0123456789", startOfYear), value.size());
+    // Keep everything that does not start with a representable year as it is.
+    if (endOfYear == startOfYear ||
+        endOfYear >= size_t(DEFAULT_NOF_DATE_YEAR_DIGITS)) {
+      return orig;
+    }
     return convertDateToIndexWord(value);
   } else if (!isDecimalOrDouble(value) ||
              ((type == "int" || type == "integer") &&
-- 
2.43.0


From 82b3947f8e53bfa010a514f3c5ce117ba879f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 51/91] fix: find the end of N-Triples literals that contain
 escaped quotes

The first quote inside a literal was taken as its end even when it was
escaped, so that the literal was cut at the next space.
---
 src/parser/NTriplesParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/NTriplesParser.cpp b/src/parser/NTriplesParser.cpp
index 7b79d43..c912776 100644
--- a/src/parser/NTriplesParser.cpp
+++ b/src/parser/NTriplesParser.cpp
@@ -74,7 +74,7 @@ bool NTriplesParser::getLine(array<string, 3>& res) {
       }
     } else {
       // Literal
-      j = line.find('\"', i + 1);
+      j = i + 1;
       bool escape = false;
       while (j < line.size()) {
         if (!escape && line[j] == '\\') {
-- 
2.43.0


From 82d856de70ad556bd39a71c3975402aa5fc13d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 52/91] fix: accept numeric escapes at the end of literals and
 IRIs

"\\u00e4" was rejected because nothing follows the escape.
---
 src/parser/RdfEscaping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/RdfEscaping.cpp b/src/parser/RdfEscaping.cpp
index 1df8443..b5224a0 100644
--- a/src/parser/RdfEscaping.cpp
+++ b/src/parser/RdfEscaping.cpp
@@ -76,7 +76,7 @@ void unescapeStringAndNumericEscapes(InputIterator beginIterator,
   auto pushNumericEscape = [&outputIterator, &endIterator](const auto& iterator,
                                                            size_t length) {
     if constexpr (!acceptOnlyBackslashAndNewline) {
-      AD_CHECK(iterator + length < endIterator);
+      AD_CHECK(iterator + length <= endIterator);
       auto unesc =
           hexadecimalCharactersToUtf8(std::string_view(iterator, length));
       std::copy(unesc.begin(), unesc.end(), outputIterator);
-- 
2.43.0


From 3f652f865585f301cfd6905d5115a225fc46dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 53/91] fix: strip the angle brackets of prefixes declared with
 PREFIX

Prefixed names were expanded to IRIs with doubled brackets.
---
 src/parser/TurtleParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 3c80882..30c4d54 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -59,7 +59,9 @@ template <class T>
 bool TurtleParser<T>::sparqlPrefix() {
   if (skip<TokId::SparqlPrefix>()) {
     if (pnameNS() && iriref()) {
-      _prefixMap[_activePrefix] = _lastParseResult;
+      // strip  the angled brackes <bla> -> bla
+      _prefixMap[_activePrefix] =
+          _lastParseResult.substr(1, _lastParseResult.size() - 2);
       return true;
     } else {
       raise("sparqlPrefix");
-- 
2.43.0


From 27056f5bdf38006ab9089c204e038ad8563a0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 54/91] fix: read the dot after @base in Turtle

The dot was taken for the next statement, and everything after it was
silently ignored.
---
 src/parser/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 30c4d54..0b421dd 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -43,7 +43,7 @@ bool TurtleParser<T>::prefixID() {
 template <class T>
 bool TurtleParser<T>::base() {
   if (skip<TokId::TurtleBase>()) {
-    if (iriref()) {
+    if (iriref() && check(skip<TokId::Dot>())) {
       _baseIRI = _lastParseResult;
       return true;
     } else {
-- 
2.43.0


From 756caf6d8bd10dcea5b339d1354d54e7ad5c7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 55/91] fix: read blank node property lists that are subjects
 in Turtle

They were attached to the subject and predicate of the previous statement,
and the predicates after the list were, too.
---
 src/parser/TurtleParser.cpp | 10 ++++++----
 src/parser/TurtleParser.h   |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 0b421dd..1a51187 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -96,7 +96,7 @@ bool TurtleParser<T>::triples() {
       raise("triples");
     }
   } else {
-    if (blankNodePropertyList()) {
+    if (blankNodePropertyList(true)) {
       predicateObjectList();
       return true;
     } else {
@@ -199,7 +199,7 @@ bool TurtleParser<T>::literal() {
 
 // _____________________________________________________________________
 template <class T>
-bool TurtleParser<T>::blankNodePropertyList() {
+bool TurtleParser<T>::blankNodePropertyList(bool isSubject) {
   if (!skip<TokId::OpenSquared>()) {
     return false;
   }
@@ -209,13 +209,15 @@ bool TurtleParser<T>::blankNodePropertyList() {
   // new triple with blank node as object
   string blank = createAnonNode();
   _lastParseResult = blank;
-  emitTriple();
+  if (!isSubject) {
+    emitTriple();
+  }
   // the following triples have the blank node as subject
   _activeSubject = blank;
   check(predicateObjectList());
   check(skip<TokId::CloseSquared>());
   // restore subject and predicate
-  _activeSubject = savedSubject;
+  _activeSubject = isSubject ? blank : savedSubject;
   _activePredicate = savedPredicate;
   return true;
 }
diff --git a/src/parser/TurtleParser.h b/src/parser/TurtleParser.h
index 2cfc032..4b141f4 100644
--- a/src/parser/TurtleParser.h
+++ b/src/parser/TurtleParser.h
@@ -150,7 +150,9 @@ class TurtleParser {
   bool triples();
   bool subject();
   bool predicateObjectList();
-  bool blankNodePropertyList();
+  // If `isSubject` is true, then the blank node is the subject of the following
+  // triples, else it is the object of the current subject and predicate.
+  bool blankNodePropertyList(bool isSubject = false);
   bool objectList();
   bool object();
   bool verb();
-- 
2.43.0


From 54b3c55d2e97e0595512e3ef7b15eeb254687802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 56/91] fix: read decimal numbers and doubles in Turtle
 completely

Only the digits before the dot or exponent of numbers like 1.5 or 2e3 were
read, and everything after them was silently ignored.
---
 src/parser/Tokenizer.h      | 5 ++---
 src/parser/TurtleParser.cpp | 9 ++++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index 2ad09bb..d56bf2e 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -130,8 +130,7 @@ struct TurtleTokenCtre {
   static constexpr auto Exponent = grp(ExponentString);
 
   static constexpr auto DoubleString =
-      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*") + ExponentString + "|" +
-      ExponentString + ")";
+      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*|\\.?[0-9]*)") + ExponentString;
 
   static constexpr auto Double = grp(DoubleString);
 
@@ -318,7 +317,7 @@ struct TurtleToken {
   const string ExponentString = "[eE][+-]?[0-9]+";
   const RE2 Exponent;
   const string DoubleString =
-      "[+-]?([0-9]+\\.[0-9]*" + ExponentString + "|" + ExponentString + ")";
+      "[+-]?([0-9]+\\.[0-9]*|\\.?[0-9]*)" + ExponentString;
   const RE2 Double;
 
   const string HexString = "0-9A-Fa-f";
diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 1a51187..19eb062 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -235,7 +235,14 @@ bool TurtleParser<T>::collection() {
 // ______________________________________________________________________
 template <class T>
 bool TurtleParser<T>::numericLiteral() {
-  return integer() || decimal() || doubleParse();
+  // A name that looks like an exponent (e.g. "e5:x") is not a number.
+  _tok.skipWhitespaceAndComments();
+  auto view = _tok.view();
+  if (view.empty() || std::isalpha(static_cast<unsigned char>(view[0]))) {
+    return false;
+  }
+  // The longer forms have to come first, because they start with the others.
+  return doubleParse() || decimal() || integer();
 }
 
 // ______________________________________________________________________
-- 
2.43.0


From e9561c43a0024cc9121b2f48cb25a2e39cec139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 57/91] fix: accept the empty prefix in Turtle

Declarations like '@prefix : <http://example.org/> .' were rejected.
---
 src/parser/Tokenizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index d56bf2e..eee8115 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -196,7 +196,7 @@ struct TurtleTokenCtre {
                                          cls(PnCharsString) + "|" +
                                          cls(PnCharsString) + ")*";
 
-  static constexpr auto PnameNSString = PnPrefixString + ":";
+  static constexpr auto PnameNSString = grp(PnPrefixString) + "?:";
 
   static constexpr fixed_string PnLocalEscString =
       "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
@@ -377,7 +377,7 @@ struct TurtleToken {
                                 cls(PnCharsString) + "|" + cls(PnCharsString) +
                                 ")*";
 
-  const string PnameNSString = PnPrefixString + ":";
+  const string PnameNSString = grp(PnPrefixString) + "?:";
   const RE2 PnameNS;
 
   const string PnLocalEscString = "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
-- 
2.43.0


From 86c2a44b225a60e1bc30fae161e6e6d6f467575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:55 +0000
Subject: [PATCH 58/91] fix: tell prefixed names from the keywords a, true and
 false in Turtle

A predicate like 'ab:c' was read as the keyword 'a' followed by 'b:c'.
---
 src/parser/TurtleParser.cpp | 24 ++++++++++++++++++++++++
 src/parser/TurtleParser.h   |  3 +++
 2 files changed, 27 insertions(+)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 19eb062..fa277e2 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -144,6 +144,9 @@ bool TurtleParser<T>::verb() {
 template <class T>
 bool TurtleParser<T>::predicateSpecialA() {
   _tok.skipWhitespaceAndComments();
+  if (startsWithPrefixedName("a")) {
+    return false;
+  }
   if (auto [success, word] = _tok.template getNextToken<TokId::A>(); success) {
     (void)word;
     _activePredicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"s;
@@ -153,6 +156,23 @@ bool TurtleParser<T>::predicateSpecialA() {
   }
 }
 
+// ____________________________________________________________________
+template <class T>
+bool TurtleParser<T>::startsWithPrefixedName(std::string_view keyword) const {
+  auto view = _tok.view();
+  if (!ad_utility::startsWith(view, keyword)) {
+    return false;
+  }
+  auto isNameCharacter = [](unsigned char c) {
+    return std::isalnum(c) || c == '_' || c == '-' || c == '.' || c >= 128;
+  };
+  size_t pos = keyword.size();
+  while (pos < view.size() && isNameCharacter(view[pos])) {
+    ++pos;
+  }
+  return pos < view.size() && view[pos] == ':';
+}
+
 // ____________________________________________________________________
 template <class T>
 bool TurtleParser<T>::subject() {
@@ -270,6 +290,10 @@ bool TurtleParser<T>::rdfLiteral() {
 // ______________________________________________________________________
 template <class T>
 bool TurtleParser<T>::booleanLiteral() {
+  _tok.skipWhitespaceAndComments();
+  if (startsWithPrefixedName("true") || startsWithPrefixedName("false")) {
+    return false;
+  }
   return parseTerminal<TokId::True>() || parseTerminal<TokId::False>();
 }
 
diff --git a/src/parser/TurtleParser.h b/src/parser/TurtleParser.h
index 4b141f4..925c8c2 100644
--- a/src/parser/TurtleParser.h
+++ b/src/parser/TurtleParser.h
@@ -157,6 +157,9 @@ class TurtleParser {
   bool object();
   bool verb();
   bool predicateSpecialA();
+  // Check if the input starts with a prefixed name, the prefix of which starts
+  // with the `keyword`.
+  bool startsWithPrefixedName(std::string_view keyword) const;
   bool predicate();
 
   bool iri();
-- 
2.43.0


From 1a006eba68d1184cb249a9a11b1bd2571cffaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:59 +0000
Subject: [PATCH 59/91] fix: restore the prefixes when a chunk of Turtle is
 parsed again

When a prefix was declared twice and the input between the declarations was
parsed again together with the next chunk, the second declaration was used.
---
 src/parser/TurtleParser.cpp | 2 ++
 src/parser/TurtleParser.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index fa277e2..d257c8c 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -480,6 +480,7 @@ TurtleStreamParser<T>::backupState() const {
   TurtleParserBackupState b;
   b._numBlankNodes = this->_numBlankNodes;
   b._numTriples = this->_triples.size();
+  b._prefixMap = this->_prefixMap;
   b._tokenizerPosition = this->_tok.data().begin();
   b._tokenizerSize = this->_tok.data().size();
   return b;
@@ -501,6 +502,7 @@ bool TurtleStreamParser<T>::resetStateAndRead(
 
   // return to the state of the last backup
   this->_numBlankNodes = b._numBlankNodes;
+  this->_prefixMap = b._prefixMap;
   AD_CHECK(this->_triples.size() >= b._numTriples);
   this->_triples.resize(b._numTriples);
   this->_tok.reset(b._tokenizerPosition, b._tokenizerSize);
diff --git a/src/parser/TurtleParser.h b/src/parser/TurtleParser.h
index 925c8c2..781fe41 100644
--- a/src/parser/TurtleParser.h
+++ b/src/parser/TurtleParser.h
@@ -344,6 +344,7 @@ class TurtleStreamParser : public TurtleParser<Tokenizer_T> {
     size_t _numTriples;
     const char* _tokenizerPosition;
     size_t _tokenizerSize;
+    ad_utility::HashMap<std::string, std::string> _prefixMap;
   };
 
  public:
-- 
2.43.0


From 547944ea77456042bccb204ec9304a9dc2c2ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:59 +0000
Subject: [PATCH 60/91] fix: do not end a Turtle statement at a dot at the end
 of a chunk

If a chunk ended after the dot in a number or a name, the number or name was
cut there and the rest was ignored.
---
 src/parser/TurtleParser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index d257c8c..bb049bd 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -624,7 +624,11 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
         ex = p;
       }
 
-      if (!parsedStatement) {
+      // A dot at the very end of a block does not have to be the end of the
+      // statement, it might also be part of a number or name that continues in
+      // the next block.
+      bool reachedEndOfBlock = _tok.data().empty();
+      if (!parsedStatement || reachedEndOfBlock) {
         // we read chunks of memories in a buffered way
         // try to parse with a larger buffer and repeat the reading process
         // (maybe the failure was due to statements crossing our block).
@@ -659,6 +663,9 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
           // there are no more bytes in the buffer
           if (exceptionThrown) {
             throw ex;
+          } else if (parsedStatement) {
+            // The statement was complete.
+            continue;
           } else {
             // we are at the end of an input stream without an exception
             // the input is exhausted, but we still may retrieve
-- 
2.43.0


From 86e8d4d4c960da7170069c88a07620d237c0b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:28 +0000
Subject: [PATCH 61/91] fix: recognise all ends of prefixed names in the
 relaxed Turtle mode

With ascii-prefixes-only, a prefixed name was read up to the next blank,
newline, comma or semicolon, so that a tab, a carriage return, a closing
bracket or the dot of the statement became part of the name.  The prefix was
everything before the next colon, even when another token came first, for
example the bracket of a blank node.
---
 src/parser/TurtleParser.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index bb049bd..86adf2e 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -422,19 +422,23 @@ bool TurtleParser<T>::pnameLnRelaxed() {
   _tok.skipWhitespaceAndComments();
   auto view = _tok.view();
   auto pos = view.find(':');
-  if (pos == string::npos) {
+  // The colon has to belong to the token that comes next.
+  if (pos == string::npos || view[0] == '.' ||
+      view.find_first_of(" \t\r\n,;[]()<>\"'") < pos) {
     return false;
   }
   // these can also be part of a collection etc.
   // find any character that can end a pnameLn when assuming that no
   // escape sequences were used
-  auto posEnd = view.find_first_of(" \n,;", pos);
+  auto posEnd = view.find_first_of(" \t\r\n,;[]()", pos);
   if (posEnd == string::npos) {
     // make tests work
     posEnd = view.size();
   }
-  // TODO: is it allowed to have no space between triples and the dots? in
-  // this case we have to check something here
+  // A dot at the end does not belong to the name, but ends the statement.
+  while (view[posEnd - 1] == '.') {
+    posEnd--;
+  }
   _activePrefix = view.substr(0, pos);
   _lastParseResult = view.substr(pos + 1, posEnd - (pos + 1));
   // we do not remove the whitespace or the ,; since they are needed
-- 
2.43.0


From ec6c6daa3a45b3f6caa8fa9b240cee4a354cf2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:16 +0000
Subject: [PATCH 62/91] fix: do not hold the lock of the pinned sizes while
 estimating sizes

---
 src/engine/Operation.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/engine/Operation.cpp b/src/engine/Operation.cpp
index d2b6f9d..57784ae 100644
--- a/src/engine/Operation.cpp
+++ b/src/engine/Operation.cpp
@@ -77,12 +77,13 @@ shared_ptr<const ResultTable> Operation::getResult(bool isRoot) {
   // (and distinctness) because the multiplicity for an index scan with a single
   // free variable is always 1.
   if (pinFinalResultButNotSubtrees) {
-    auto lock = getExecutionContext()->getPinnedSizes().wlock();
-    forAllDescendants([&lock](QueryExecutionTree* child) {
+    forAllDescendants([this](QueryExecutionTree* child) {
       if (child->getType() == QueryExecutionTree::OperationType::SCAN &&
           child->getResultWidth() == 1) {
-        (*lock)[child->getRootOperation()->asString()] =
-            child->getSizeEstimate();
+        // Computing the size estimate might also lock the pinned sizes.
+        const size_t sizeEstimate = child->getSizeEstimate();
+        auto lock = getExecutionContext()->getPinnedSizes().wlock();
+        (*lock)[child->getRootOperation()->asString()] = sizeEstimate;
       }
     });
   }
-- 
2.43.0


From 427d47e70492382708c2ed759bdaf394b96eeff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:03 +0000
Subject: [PATCH 63/91] fix: make the time stamps of log messages thread-safe

---
 src/util/Log.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/Log.h b/src/util/Log.h
index 575e854..7a5bf69 100644
--- a/src/util/Log.h
+++ b/src/util/Log.h
@@ -112,8 +112,12 @@ class Log {
     auto now = std::chrono::system_clock::now();
     auto in_time_t = std::chrono::system_clock::to_time_t(now);
 
+    // `std::localtime` is not thread-safe.
+    std::tm localTime{};
+    localtime_r(&in_time_t, &localTime);
+
     std::stringstream ss;
-    ss << std::put_time(std::localtime(&in_time_t), "%Y-%m-%d %X");
+    ss << std::put_time(&localTime, "%Y-%m-%d %X");
     return ss.str();
   }
 
-- 
2.43.0


From 041843177cf8c1172aeeebe95685a7294d7966c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:56:26 +0000
Subject: [PATCH 64/91] fix: keep bytes that are not valid characters when
 changing the case of strings

---
 src/util/StringUtils.h | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/util/StringUtils.h b/src/util/StringUtils.h
index 52f4b26..2f2d44e 100644
--- a/src/util/StringUtils.h
+++ b/src/util/StringUtils.h
@@ -252,18 +252,25 @@ string getLowercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
+      // If this condition holds, there is an invalid multi-byte character.
       // However, this usually means that the locale is not utf8.
       // Note that the default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
-      i += len - 1;
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        state = std::mbstate_t();
+        retVal += orig[i];
+        continue;
+      }
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towlower(static_cast<wint_t>(wChar))),
           &state);
-      assert(ret > 0 && ret <= static_cast<size_t>(MB_CUR_MAX));
-      buf[ret] = 0;
-      retVal += buf;
+      if (ret == 0 || ret > static_cast<size_t>(MB_CUR_MAX)) {
+        state = std::mbstate_t();
+        retVal.append(orig.substr(i, len));
+      } else {
+        retVal.append(buf, ret);
+      }
+      i += len - 1;
     }
   }
   return retVal;
@@ -281,18 +288,25 @@ string getUppercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
+      // If this condition holds, there is an invalid multi-byte character.
       // However, this usually means that the locale is not utf8.
       // Note that the default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
-      i += len - 1;
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        state = std::mbstate_t();
+        retVal += orig[i];
+        continue;
+      }
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towupper(static_cast<wint_t>(wChar))),
           &state);
-      assert(ret > 0 && ret <= static_cast<size_t>(MB_CUR_MAX));
-      buf[ret] = 0;
-      retVal += buf;
+      if (ret == 0 || ret > static_cast<size_t>(MB_CUR_MAX)) {
+        state = std::mbstate_t();
+        retVal.append(orig.substr(i, len));
+      } else {
+        retVal.append(buf, ret);
+      }
+      i += len - 1;
     }
   }
   return retVal;
-- 
2.43.0


From 28adc055860e565896692e23653e57ae561a7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:04 +0000
Subject: [PATCH 65/91] fix: check for timeouts while computing the hull of a
 transitive path

---
 src/engine/TransitivePath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 4f6c2e0..84a1294 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -347,6 +347,7 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
     // While we have not found the entire transitive hull and have not reached
     // the max step limit
     while (!positions.empty()) {
+      checkTimeoutHashSet();
       size_t stackIndex = positions.size() - 1;
       // Process the next child of the node at the top of the stack
       ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
@@ -480,6 +481,7 @@ void TransitivePath::computeTransitivePathLeftBound(
     // While we have not found the entire transitive hull and have not reached
     // the max step limit
     while (!positions.empty()) {
+      checkTimeoutHashSet();
       size_t stackIndex = positions.size() - 1;
       // Process the next child of the node at the top of the stack
       ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
@@ -626,6 +628,7 @@ void TransitivePath::computeTransitivePathRightBound(
     // While we have not found the entire transitive hull and have not reached
     // the max step limit
     while (!positions.empty()) {
+      checkTimeoutHashSet();
       size_t stackIndex = positions.size() - 1;
       // Process the next child of the node at the top of the stack
       ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
-- 
2.43.0


From 275020ef9b85b716d8a98369ce3aaa761378b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:11 +0000
Subject: [PATCH 66/91] fix: name all token types in messages about unexpected
 tokens

---
 src/parser/SparqlLexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index c67c245..c71b61c 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -8,8 +8,8 @@
 #include "Tokenizer.h"
 
 const std::string SparqlToken::TYPE_NAMES[] = {
-    "IRI",       "WS",         "KEYWORD", "VARIABLE", "SYMBOL",
-    "AGGREGATE", "RDFLITERAL", "INTEGER", "FLOAT",    "LOGICAL_OR"};
+    "IRI",    "WS",        "KEYWORD",    "GROUP_BY", "ORDER_BY", "VARIABLE",
+    "SYMBOL", "AGGREGATE", "RDFLITERAL", "INTEGER",  "FLOAT",    "LOGICAL_OR"};
 
 const std::string SparqlLexer::LANGTAG = "@[a-zA-Z]+(-[a-zA-Z0-9]+)*";
 const std::string SparqlLexer::IRIREF =
-- 
2.43.0


From f1993b75eb00e311f7c327b4a85cff40dede9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:32 +0000
Subject: [PATCH 67/91] fix: accept a variable that is repeated in GROUP BY

---
 src/engine/GroupBy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 4421c2b..14f37c6 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -28,6 +28,9 @@ GroupBy::GroupBy(QueryExecutionContext* qec,
 
   // sort the groupByVariables to ensure the cache key is order invariant
   std::sort(_groupByVariables.begin(), _groupByVariables.end());
+  _groupByVariables.erase(
+      std::unique(_groupByVariables.begin(), _groupByVariables.end()),
+      _groupByVariables.end());
 
   // The returned columns are all groupByVariables followed by aggregrates
   size_t colIndex = 0;
-- 
2.43.0


From 061c50ca6775a5a25889925522f3e58c80d674b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:32 +0000
Subject: [PATCH 68/91] fix: support the same variable on both sides of a
 transitive path

---
 src/engine/QueryPlanner.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 35e6513..794401a 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -346,6 +346,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           std::string leftColName, rightColName;
           size_t min, max;
           bool leftVar, rightVar;
+          bool sameVariable = isVariable(arg._left) && arg._left == arg._right;
           if (isVariable(arg._left)) {
             leftVar = true;
             leftCol = sub._qet->getVariableColumn(arg._innerLeft);
@@ -362,7 +363,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           if (isVariable(arg._right)) {
             rightVar = true;
             rightCol = sub._qet->getVariableColumn(arg._innerRight);
-            rightColName = arg._right;
+            // The same variable on both sides is handled by a new unique
+            // variable + Filter.
+            rightColName =
+                sameVariable ? generateUniqueVarName() : arg._right;
           } else {
             rightVar = false;
             rightCol = sub._qet->getVariableColumn(arg._innerRight);
@@ -382,6 +386,15 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           tree.setVariableColumns(static_cast<TransitivePath*>(transOp.get())
                                       ->getVariableColumns());
           tree.setOperation(QueryExecutionTree::TRANSITIVE_PATH, transOp);
+          if (sameVariable) {
+            auto filter = std::make_shared<Filter>(
+                _qec, candidatesOut.back()._qet, SparqlFilter::FilterType::EQ,
+                leftColName, rightColName, vector<string>{}, vector<string>{});
+            auto filterTree = std::make_shared<QueryExecutionTree>(_qec);
+            filterTree->setOperation(QueryExecutionTree::FILTER, filter);
+            filterTree->setVariableColumns(filter->getVariableColumns());
+            candidatesOut.back()._qet = filterTree;
+          }
         }
         joinCandidates(std::move(candidatesOut));
 
-- 
2.43.0


From 3685f2966e6fe0177322c3da843028ccd6e90494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:39 +0000
Subject: [PATCH 69/91] fix: refuse text variables in ordinary triples

---
 src/engine/QueryPlanner.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 794401a..ce681ec 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2928,6 +2928,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       }
       const SubtreePlan& textPlan = aTextOp ? a : b;
       const SubtreePlan& filterPlan = aTextOp ? b : a;
+      size_t textPlanJc = aTextOp ? jcs[0][0] : jcs[0][1];
       size_t otherPlanJc = aTextOp ? jcs[0][1] : jcs[0][0];
       SubtreePlan plan(_qec);
       plan._idsOfIncludedNodes = filterPlan._idsOfIncludedNodes;
@@ -2937,6 +2938,12 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       const TextOperationWithoutFilter& noFilter =
           *static_cast<const TextOperationWithoutFilter*>(
               textPlan._qet->getRootOperation().get());
+      if (textPlan._qet->getVariableColumn(noFilter.getCVar()) == textPlanJc) {
+        AD_THROW(ad_semsearch::Exception::BAD_QUERY,
+                 "The variable " + noFilter.getCVar() +
+                     " stands for a text record and can thus only be used "
+                     "with text predicates.");
+      }
       auto textOp = std::make_shared<TextOperationWithFilter>(
           _qec, noFilter.getWordPart(), noFilter.getVars(), noFilter.getCVar(),
           filterPlan._qet, otherPlanJc);
-- 
2.43.0


From 451cd995a0d06b7315645a1d6b7488ebcb40d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:06 +0000
Subject: [PATCH 70/91] fix: allow the word HTTP in the parameters of a request

---
 src/engine/Server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index e797a3b..e22d30e 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -108,7 +108,7 @@ void Server::process(Socket* client) {
              << " and headers with total size: " << headers.size() << endl;
 
   size_t indexOfGET = request.find("GET");
-  size_t indexOfHTTP = request.find("HTTP");
+  size_t indexOfHTTP = request.rfind("HTTP");
   size_t upper = indexOfHTTP;
 
   if (indexOfGET != request.npos && indexOfHTTP != request.npos &&
@@ -262,7 +262,7 @@ Server::ParamValueMap Server::parseHttpRequest(
   // Parse the HTTP Request.
 
   size_t indexOfGET = httpRequest.find("GET");
-  size_t indexOfHTTP = httpRequest.find("HTTP");
+  size_t indexOfHTTP = httpRequest.rfind("HTTP");
 
   if (indexOfGET == httpRequest.npos || indexOfHTTP == httpRequest.npos) {
     AD_THROW(ad_semsearch::Exception::BAD_REQUEST,
-- 
2.43.0


From bf810307f803104ffc5a90ae85012bcb1bedbc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:20 +0000
Subject: [PATCH 71/91] fix: refuse triples whose predicate is a repeated
 variable

---
 src/engine/QueryPlanner.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index ce681ec..48e929d 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -1211,6 +1211,15 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::seedWithScansAndText(
       }
       // Simple iris can be resolved directly.
       if (node._triple._p._operation == PropertyPath::Operation::IRI) {
+        const auto& triple = node._triple;
+        if (isVariable(triple._p._iri) &&
+            (triple._p._iri == triple._s || triple._p._iri == triple._o ||
+             triple._s == triple._o)) {
+          AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+                   "Triple with a repeated variable and a variable as "
+                   "predicate: " +
+                       triple.asString());
+        }
         if (node._variables.size() == 1) {
           // Just pick one direction, they should be equivalent.
           SubtreePlan plan(_qec);
-- 
2.43.0


From 7f6577fb5b9fb8bb6b7f5d09c65bf7dae7194a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:20 +0000
Subject: [PATCH 72/91] fix: refuse queries with more triples than the planner
 can tell apart

---
 src/engine/QueryPlanner.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 48e929d..d2e7d77 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -1186,6 +1186,12 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::seedWithScansAndText(
     const QueryPlanner::TripleGraph& tg,
     const vector<vector<QueryPlanner::SubtreePlan>>& children) {
   vector<SubtreePlan> seeds;
+  // The sets of nodes are represented by the bits of a single number.
+  if (tg._nodeMap.size() + children.size() > 64) {
+    AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+             "Group graph patterns with more than 64 triples and subpatterns "
+             "are not supported.");
+  }
   // add all child plans as seeds
   uint64_t idShift = tg._nodeMap.size();
   for (const auto& vec : children) {
-- 
2.43.0


From 2ff77fca94945271a4f9b4764748cf9af11e02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:20 +0000
Subject: [PATCH 73/91] fix: refuse VALUES clauses with a repeated variable

---
 src/parser/SparqlParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 8d8ef3c..91e6a72 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -385,6 +385,12 @@ void SparqlParser::parseWhere(ParsedQuery* query,
       if (_lexer.accept("(")) {
         // values with several variables
         while (_lexer.accept(SparqlToken::Type::VARIABLE)) {
+          if (std::find(values._variables.begin(), values._variables.end(),
+                        _lexer.current().raw) != values._variables.end()) {
+            throw ParseException("The variable " + _lexer.current().raw +
+                                 " appears twice in a VALUES clause.\n" +
+                                 _lexer.input());
+          }
           values._variables.push_back(_lexer.current().raw);
         }
         _lexer.expect(")");
-- 
2.43.0


From 8434017ff56ab41fac49ad948df17b7b6ca10dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:46 +0000
Subject: [PATCH 74/91] fix: refuse aliases named like a variable of GROUP BY

---
 src/parser/SparqlParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 91e6a72..a0c411b 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -84,6 +84,14 @@ void SparqlParser::parseQuery(ParsedQuery* query) {
                            _lexer.input());
     }
     variable_counts[a._outVarName];
+    if (std::find(query->_groupByVariables.begin(),
+                  query->_groupByVariables.end(),
+                  a._outVarName) != query->_groupByVariables.end()) {
+      throw ParseException("The variable name " + a._outVarName +
+                           " used in an alias is also used in the group by "
+                           "statement.\n" +
+                           _lexer.input());
+    }
   }
 }
 
-- 
2.43.0


From b72f9e3a6ab2ed649abb741b2891af23e661095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:46 +0000
Subject: [PATCH 75/91] fix: do not shift by the whole width for patterns with
 64 triples

---
 src/engine/QueryPlanner.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index d2e7d77..cb9645f 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2142,8 +2142,10 @@ bool QueryPlanner::connected(const QueryPlanner::SubtreePlan& a,
     return false;
   }
 
-  if (a._idsOfIncludedNodes >= (size_t(1) << tg._nodeMap.size()) ||
-      b._idsOfIncludedNodes >= (size_t(1) << tg._nodeMap.size())) {
+  // With 64 nodes there is no room for the ids of other patterns.
+  if (tg._nodeMap.size() < 64 &&
+      (a._idsOfIncludedNodes >= (size_t(1) << tg._nodeMap.size()) ||
+       b._idsOfIncludedNodes >= (size_t(1) << tg._nodeMap.size()))) {
     return getJoinColumns(a, b).size() > 0;
   }
 
-- 
2.43.0


From 250494e721b1bd257f74862aab359f6fba7a5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:47:29 +0000
Subject: [PATCH 76/91] fix: do not pop an element twice whose key was changed
 back

---
 src/util/PriorityQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/PriorityQueue.h b/src/util/PriorityQueue.h
index 386867c..13553e6 100644
--- a/src/util/PriorityQueue.h
+++ b/src/util/PriorityQueue.h
@@ -402,11 +402,12 @@ class HeapBasedPQ {
   void pruneChangedKeys() {
     while (!_pq.empty()) {
       const auto& top = _pq.top();
-      if (top.mHandle.isValid() && top.mScore == top.mHandle.score()) {
+      if (top.mHandle.isInPq() && top.mScore == top.mHandle.score()) {
         return;
       }
       // a mismatch means, that somebody has changed the key, and this value is
-      // no longer valid.
+      // no longer valid. A handle that is no longer in the queue was already
+      // popped via another entry with the same key, or was erased.
       _pq.pop();
     }
   }
-- 
2.43.0


From f236e77e449addeb1e99764bc2fe6c1b8b065acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:47:29 +0000
Subject: [PATCH 77/91] fix: use a strict order in the heap-based priority
 queue

---
 src/util/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/PriorityQueue.h b/src/util/PriorityQueue.h
index 13553e6..56a023f 100644
--- a/src/util/PriorityQueue.h
+++ b/src/util/PriorityQueue.h
@@ -274,7 +274,7 @@ class HeapBasedPQ {
     // std::priority_queue is a max_heap by default, this makes it a min_heap as
     // documented, s.t. the two implementations behave similarly
     return [comp](const PqEntry& a, const PqEntry& b) {
-      return !comp(a.mScore, b.mScore);
+      return comp(b.mScore, a.mScore);
     };
   }
 
-- 
2.43.0


From 3256a9d0030fdd05552cb9d292c4469da31bf6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:55:14 +0000
Subject: [PATCH 78/91] fix: allow the same IRI as subject and object of a
 triple with a variable predicate

---
 src/engine/QueryPlanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index cb9645f..38f9eb8 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -1220,7 +1220,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::seedWithScansAndText(
         const auto& triple = node._triple;
         if (isVariable(triple._p._iri) &&
             (triple._p._iri == triple._s || triple._p._iri == triple._o ||
-             triple._s == triple._o)) {
+             (triple._s == triple._o && isVariable(triple._s)))) {
           AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
                    "Triple with a repeated variable and a variable as "
                    "predicate: " +
-- 
2.43.0


From 6a239dc8271a1025110696349012eb8becd48dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:54 +0000
Subject: [PATCH 79/91] fix: accept prefixes that begin like a keyword in
 queries

---
 src/parser/SparqlLexer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index c71b61c..5017cc2 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -97,7 +97,10 @@ void SparqlLexer::readNext() {
   // Return the first token type matched.
   while (_next.type == SparqlToken::Type::WS && !empty()) {
     _next.pos = _sparql.size() - _re_string.size();
-    if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
+    // IRIs come first because a prefix may begin like a keyword.
+    if (re2::RE2::Consume(&_re_string, RE_IRI, &raw)) {
+      _next.type = SparqlToken::Type::IRI;
+    } else if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
       _next.type = SparqlToken::Type::KEYWORD;
       raw = ad_utility::getLowercaseUtf8(raw);
     } else if (re2::RE2::Consume(&_re_string, RE_GROUP_BY, &raw)) {
@@ -116,8 +119,6 @@ void SparqlLexer::readNext() {
       _next.type = SparqlToken::Type::LOGICAL_OR;
     } else if (re2::RE2::Consume(&_re_string, RE_VARIABLE, &raw)) {
       _next.type = SparqlToken::Type::VARIABLE;
-    } else if (re2::RE2::Consume(&_re_string, RE_IRI, &raw)) {
-      _next.type = SparqlToken::Type::IRI;
     } else if (re2::RE2::Consume(&_re_string, RE_RDFLITERAL, &raw)) {
       _next.type = SparqlToken::Type::RDFLITERAL;
       auto lastQuote = raw.rfind('"');
-- 
2.43.0


From 007664be81915e70a6dc3d4d56fbac64281379b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:08:07 +0000
Subject: [PATCH 80/91] fix: accept literals in single quotes in queries

---
 src/parser/SparqlLexer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index 5017cc2..e240337 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -121,7 +121,8 @@ void SparqlLexer::readNext() {
       _next.type = SparqlToken::Type::VARIABLE;
     } else if (re2::RE2::Consume(&_re_string, RE_RDFLITERAL, &raw)) {
       _next.type = SparqlToken::Type::RDFLITERAL;
-      auto lastQuote = raw.rfind('"');
+      // Literals can be enclosed in double or single quotes.
+      auto lastQuote = raw.rfind(raw[0]);
       std::string_view quoted{raw.begin(), raw.begin() + lastQuote + 1};
       std::string_view langtagOrDatatype{raw.begin() + lastQuote + 1,
                                          raw.end()};
-- 
2.43.0


From 929befd2010880d91ba50dfc99f596d4f3c45cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:09:04 +0000
Subject: [PATCH 81/91] fix: expand prefixes in the filters of nested groups

---
 src/parser/ParsedQuery.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index dc2a201..e39d55c 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -253,14 +253,6 @@ void ParsedQuery::expandPrefixes() {
     prefixMap[p._prefix] = p._uri;
   }
 
-  for (auto& f : _rootGraphPattern._filters) {
-    expandPrefix(f._lhs, prefixMap);
-    // TODO<joka921>: proper type system for variable/regex/iri/etc
-    if (f._type != SparqlFilter::REGEX) {
-      expandPrefix(f._rhs, prefixMap);
-    }
-  }
-
   vector<GraphPattern*> graphPatterns;
   graphPatterns.push_back(&_rootGraphPattern);
   // Traverse the graph pattern tree using dfs expanding the prefixes in every
@@ -268,6 +260,13 @@ void ParsedQuery::expandPrefixes() {
   while (!graphPatterns.empty()) {
     GraphPattern* pattern = graphPatterns.back();
     graphPatterns.pop_back();
+    for (auto& f : pattern->_filters) {
+      expandPrefix(f._lhs, prefixMap);
+      // TODO<joka921>: proper type system for variable/regex/iri/etc
+      if (f._type != SparqlFilter::REGEX) {
+        expandPrefix(f._rhs, prefixMap);
+      }
+    }
     for (GraphPatternOperation& p : pattern->_children) {
       p.visit([&graphPatterns, &prefixMap = std::as_const(prefixMap),
                this](auto&& arg) {
-- 
2.43.0


From 315c61054a137a600222021dc4ff4782a8cc7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:27:30 +0000
Subject: [PATCH 82/91] fix: give the command line tools their memory limit in
 bytes

SparqlEngineMain and WriteIndexListsMain passed the default limit, which is
a number of gigabytes, as a number of bytes. Every query failed because no
memory was left for its result.
---
 src/SparqlEngineMain.cpp    | 2 +-
 src/WriteIndexListsMain.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SparqlEngineMain.cpp b/src/SparqlEngineMain.cpp
index 4254297..148d747 100644
--- a/src/SparqlEngineMain.cpp
+++ b/src/SparqlEngineMain.cpp
@@ -153,7 +153,7 @@ int main(int argc, char** argv) {
 
     ad_utility::AllocatorWithLimit<Id> allocator{
         ad_utility::makeAllocationMemoryLeftThreadsafeObject(
-            DEFAULT_MEM_FOR_QUERIES_IN_GB)};
+            DEFAULT_MEM_FOR_QUERIES_IN_GB * (1ull << 30))};
 
     SortPerformanceEstimator sortPerformanceEstimator;
     QueryExecutionContext qec(index, engine, &cache, &pinnedSizes, allocator,
diff --git a/src/WriteIndexListsMain.cpp b/src/WriteIndexListsMain.cpp
index 7ff5254..6c778e7 100644
--- a/src/WriteIndexListsMain.cpp
+++ b/src/WriteIndexListsMain.cpp
@@ -94,7 +94,7 @@ int main(int argc, char** argv) {
     PinnedSizes pinnedSizes;
     ad_utility::AllocatorWithLimit<Id> allocator{
         ad_utility::makeAllocationMemoryLeftThreadsafeObject(
-            DEFAULT_MEM_FOR_QUERIES_IN_GB)};
+            DEFAULT_MEM_FOR_QUERIES_IN_GB * (1ull << 30))};
     SortPerformanceEstimator sortPerformanceEstimator;
     QueryExecutionContext qec(index, engine, &cache, &pinnedSizes, allocator,
                               sortPerformanceEstimator);
-- 
2.43.0


From 93347bdbdd1a953e456c97ea5769f7f7a92dca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:31 +0000
Subject: [PATCH 83/91] fix: do not read behind a block when the looked up
 entity is missing

A lookup of an entity that is larger than all entities of its block of a
large relation compared it with the element after the last one of the block.
---
 src/index/Index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index dc9ca1d..7881288 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1149,7 +1149,7 @@ void Index::scanFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const array<Id, 2>& elem, Id key) { return elem[0] < key; });
-  if ((*it)[0] == lhsId) {
+  if (it != block.end() && (*it)[0] == lhsId) {
     result->push_back({(*it)[1]});
   }
   LOG(TRACE) << "Read " << result->size() << " RHS.\n";
@@ -1174,7 +1174,7 @@ void Index::scanNonFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const pair<Id, off_t>& elem, Id key) { return elem.first < key; });
-  if (it->first == lhsId) {
+  if (it != block.end() && it->first == lhsId) {
     size_t nofBytes = 0;
     if ((it + 1) != block.end()) {
       LOG(TRACE) << "Obtained upper bound from same block!\n";
-- 
2.43.0


From 181df537d756fc6e642638d0c6509fc1eb694e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:18 +0000
Subject: [PATCH 84/91] fix: sort the words of the text index in the order they
 are looked up in

Words that differ only in characters which the locale ignores, like soft
hyphens, were kept in any order and could not be found.
---
 src/index/StringSortComparator.h | 2 +-
 src/index/Vocabulary.cpp         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/index/StringSortComparator.h b/src/index/StringSortComparator.h
index 5525298..18144de 100644
--- a/src/index/StringSortComparator.h
+++ b/src/index/StringSortComparator.h
@@ -370,7 +370,7 @@ class SimpleStringComparator {
     if (cmpRes != 0 || level != Level::TOTAL) {
       return cmpRes;
     }
-    return a.compare(b) < 0;
+    return a.compare(b);
   }
 
   /**
diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index 45ef600..3459586 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -116,7 +116,10 @@ void Vocabulary<S, C>::createFromSet(const ad_utility::HashSet<S>& set) {
   _words.reserve(set.size());
   _words.insert(begin(_words), begin(set), end(set));
   LOG(INFO) << "... sorting ...\n";
-  std::sort(begin(_words), end(_words), _caseComparator);
+  // The words are looked up on the TOTAL level, see getId.
+  std::sort(begin(_words), end(_words), [this](const S& a, const S& b) {
+    return _caseComparator(a, b, SortLevel::TOTAL);
+  });
   LOG(INFO) << "Done creating vocabulary.\n";
 }
 
-- 
2.43.0


From 7ffee522da02d50ae77a0e571512d8c6030de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:07 +0000
Subject: [PATCH 85/91] fix: compare with constants in front of all words of
 the vocabulary

A filter like ?x > "" lost the first word, because no id lies in front of it.
---
 src/engine/Filter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index fb8b893..fff841c 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -670,11 +670,19 @@ void Filter::computeResultFixedValue(
       } else if (_type == SparqlFilter::GE) {
         rhs = getIndex().getVocab().getValueIdForGE(rhs_string, level);
       } else if (_type == SparqlFilter::GT) {
-        rhs = getIndex().getVocab().getValueIdForGT(rhs_string, level);
+        // Everything behind the words that are not bigger than the value.
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
+        range_filter_inverse = true;
       } else if (_type == SparqlFilter::LT) {
         rhs = getIndex().getVocab().getValueIdForLT(rhs_string, level);
       } else if (_type == SparqlFilter::LE) {
-        rhs = getIndex().getVocab().getValueIdForLE(rhs_string, level);
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
       }
       // All other types of filters do not use r and work on _rhs directly
       break;
-- 
2.43.0


From 5110df332765eccf0268abcf08ec20669408f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:37 +0000
Subject: [PATCH 86/91] fix: read input of unknown format as Turtle, as
 announced

---
 src/index/IndexBuilderMain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/index/IndexBuilderMain.cpp b/src/index/IndexBuilderMain.cpp
index ac83e90..db1130b 100644
--- a/src/index/IndexBuilderMain.cpp
+++ b/src/index/IndexBuilderMain.cpp
@@ -293,6 +293,7 @@ int main(int argc, char** argv) {
                        "specify "
                        "--file-format (-F)\n";
           LOG(WARN) << "In case this is not correct \n";
+          filetype = "ttl";
         }
         if (filetypeDeduced) {
           LOG(INFO) << "Assuming input file format to be " << filetype
-- 
2.43.0


From 180cbd463f4cb2b03150fd7dded0dcec5ad32638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:31:56 +0000
Subject: [PATCH 87/91] fix: accept the closing parenthesis of langMatches

---
 src/parser/SparqlParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index a0c411b..85d7c89 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -732,6 +732,7 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
     _lexer.expect(",");
     _lexer.expect(SparqlToken::Type::RDFLITERAL);
     std::string rhs = _lexer.current().raw;
+    _lexer.expect(")");
     expectClose();
     addLangFilter(lhs, rhs, pattern);
     return true;
-- 
2.43.0


From e4ca15e5041ad6949476280ccaed4018a82d2442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:31:56 +0000
Subject: [PATCH 88/91] fix: let the filter prefix(?x, "...") keep only
 literals with that prefix

---
 src/parser/SparqlParser.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 85d7c89..aab0acc 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -761,24 +761,16 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
     return true;
   } else if (_lexer.accept("prefix")) {
     _lexer.expect("(");
-    SparqlFilter f1;
-    SparqlFilter f2;
-    f1._type = SparqlFilter::GE;
-    f2._type = SparqlFilter::LT;
-    // Do prefix filtering by using two filters (one testing >=, the other =)
+    SparqlFilter f;
+    f._type = SparqlFilter::PREFIX;
     _lexer.expect(SparqlToken::Type::VARIABLE);
-    f1._lhs = _lexer.current().raw;
-    f2._lhs = f1._lhs;
+    f._lhs = _lexer.current().raw;
     _lexer.expect(",");
     _lexer.expect(SparqlToken::Type::RDFLITERAL);
-    f1._rhs = _lexer.current().raw;
-    f2._rhs = f1._lhs;
-    f1._rhs = f1._rhs.substr(0, f1._rhs.size() - 1) + " ";
-    f2._rhs = f2._rhs.substr(0, f2._rhs.size() - 2);
-    f2._rhs += f1._rhs[f1._rhs.size() - 2] + 1;
-    f2._rhs += f1._rhs[f1._rhs.size() - 1];
-    _filters->emplace_back(f1);
-    _filters->emplace_back(f2);
+    // The literals of interest start like the given one, but may go on.
+    f._rhs = _lexer.current().raw;
+    f._rhs = "^" + f._rhs.substr(0, f._rhs.size() - 1);
+    _filters->emplace_back(f);
     _lexer.expect(")");
     expectClose();
     return true;
-- 
2.43.0


From a1f8170392e02ada3bf7bf50ed76b60e7fd4e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:31:56 +0000
Subject: [PATCH 89/91] fix: apply each of several language filters on one
 variable

---
 src/parser/SparqlParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index aab0acc..e5ca6a3 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -859,8 +859,10 @@ void SparqlParser::addLangFilter(const std::string& lhs, const std::string& rhs,
   // predicate path
   auto& t = lastBasicPattern(pattern)._whereClauseTriples;
   auto it = std::find_if(t.begin(), t.end(), [&lhs](const auto& tr) {
+    // A predicate that already carries a language cannot get a second one.
     return tr._o == lhs && (tr._p._operation == PropertyPath::Operation::IRI &&
-                            !isVariable(tr._p));
+                            !isVariable(tr._p) &&
+                            !ad_utility::startsWith(tr._p._iri, "@"));
   });
   if (it == t.end()) {
     LOG(DEBUG) << "language filter variable " + lhs +
-- 
2.43.0


From e008e5dd164f68788b20a5c22bb82b78a64c512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:31:56 +0000
Subject: [PATCH 90/91] fix: apply filters that name the constant before the
 variable

---
 src/parser/SparqlParser.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index e5ca6a3..fa430c4 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -840,6 +840,26 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
                            " is not a valid right hand side for a filter.");
     }
     expectClose();
+    if (!f._lhsAsString && !isVariable(f._lhs) && isVariable(f._rhs)) {
+      // Filters are evaluated for a variable on the left.
+      std::swap(f._lhs, f._rhs);
+      switch (f._type) {
+        case SparqlFilter::LT:
+          f._type = SparqlFilter::GT;
+          break;
+        case SparqlFilter::LE:
+          f._type = SparqlFilter::GE;
+          break;
+        case SparqlFilter::GT:
+          f._type = SparqlFilter::LT;
+          break;
+        case SparqlFilter::GE:
+          f._type = SparqlFilter::LE;
+          break;
+        default:
+          break;
+      }
+    }
     _filters->emplace_back(f);
     return true;
 
-- 
2.43.0


From 1d57d2d6b97b584597fe6fb9327197ebab85bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:40:41 +0000
Subject: [PATCH 91/91] fix: do not report columns behind a descending one as
 sorted

---
 src/engine/OrderBy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine/OrderBy.cpp b/src/engine/OrderBy.cpp
index c7abf83..ff70db9 100644
--- a/src/engine/OrderBy.cpp
+++ b/src/engine/OrderBy.cpp
@@ -63,10 +63,12 @@ vector<size_t> OrderBy::resultSortedOn() const {
   std::vector<size_t> sortedOn;
   sortedOn.reserve(_sortIndices.size());
   for (const pair<size_t, bool>& p : _sortIndices) {
-    if (!p.second) {
-      // Only ascending columns count as sorted.
-      sortedOn.push_back(p.first);
+    if (p.second) {
+      // Only ascending columns count as sorted, and those behind a descending
+      // one are only sorted among the rows with the same value there.
+      break;
     }
+    sortedOn.push_back(p.first);
   }
   return sortedOn;
 }
-- 
2.43.0

