From ddb36b0f39ba9b0067dc9821350a24a0d4ef1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 01/24] fix: make key lookup, removal by key, range queries and
 equality of the coefficient manager usable

hasCoefficientWithKey, removeCoefficientWithKey, getCoefficients,
getCoefficientsInRange and equals did not compile when instantiated
(wrong iterator types), removeCoefficientWithKey dereferenced an
uninitialised iterator, and getCoefficientsInRange decremented begin()
of an empty map.
---
 .../LocalSupport2CoefficientManager-inl.hpp   | 31 ++++++-------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..ab57e80 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -32,25 +32,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
     CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
+    it1 = timeToCoefficient_.begin();
+    it2 = other.timeToCoefficient_.begin();
+    for( ; it1 != timeToCoefficient_.end(); ++it1, ++it2) {
       equal &= it1->first == it2->first;
       equal &= it1->second.equals(it2->second);
     }
-
-    CoefficientIter it3, it4;
-    it3 = timeToCoefficient_.begin();
-    it4 = other.timeToCoefficient_.begin();
-    for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
-      equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
-    }
-
   }
   return equal;
 }
@@ -195,7 +182,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -221,7 +208,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
+  typename boost::unordered_map<Key, CoefficientIter>::const_iterator it = keyToCoefficient_.find(key);
   return it != keyToCoefficient_.end();
 }
 
@@ -290,7 +277,7 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
 
-  if (startTime <= endTime && startTime <= this->getMaxTime()
+  if (!timeToCoefficient_.empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
     // be forgiving if start time is lower than definition of curve
     if (startTime < this->getMinTime()) {
@@ -306,10 +293,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -321,7 +308,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From 38a92891777dc2d8b8cdfbad548492ebe54f7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 02/24] fix: copying a coefficient manager shares state with
 the original

The key index stores iterators into the time map. The implicit copy
kept iterators into the map of the original, so updates through the
copy modified the original or accessed freed memory.
---
 .../LocalSupport2CoefficientManager-inl.hpp   | 20 +++++++++++++++++++
 .../LocalSupport2CoefficientManager.hpp       |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ab57e80..06b48df 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -19,6 +19,26 @@ template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager() {
 }
 
+// The key index holds iterators, it has to be rebuilt for the copied map.
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager(
+    const LocalSupport2CoefficientManager& other) {
+  *this = other;
+}
+
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>& LocalSupport2CoefficientManager<Coefficient>::operator=(
+    const LocalSupport2CoefficientManager& other) {
+  if (this != &other) {
+    keyToCoefficient_.clear();
+    timeToCoefficient_ = other.timeToCoefficient_;
+    for (CoefficientIter it = timeToCoefficient_.begin(); it != timeToCoefficient_.end(); ++it) {
+      keyToCoefficient_[it->second.key] = it;
+    }
+  }
+  return *this;
+}
+
 template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::~LocalSupport2CoefficientManager() {
 }
diff --git a/curves/include/curves/LocalSupport2CoefficientManager.hpp b/curves/include/curves/LocalSupport2CoefficientManager.hpp
index 1e769d4..ff6deaf 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager.hpp
@@ -50,6 +50,8 @@ class LocalSupport2CoefficientManager {
   typedef boost::unordered_map<size_t, Coefficient> CoefficientMap;
 
   LocalSupport2CoefficientManager();
+  LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other);
+  LocalSupport2CoefficientManager& operator=(const LocalSupport2CoefficientManager& other);
   virtual ~LocalSupport2CoefficientManager();
 
   /// Compare this Coefficient manager with another for equality.
-- 
2.43.0


From c9d4dd68aa0e1e62dec6c8baa4e916aa4be99669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 03/24] fix: getTimesInWindow drops the first coefficient of
 the curve

A window starting at the minimum time missed the first coefficient and
with a single coefficient (or none) the iterator was decremented past
the beginning of the map.
---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 06b48df..13c78c7 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -100,16 +100,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  CoefficientIter it = timeToCoefficient_.lower_bound(begTime);
+  for (; it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
-- 
2.43.0


From 65a0fb9ac10e05e4fa3e7fe735adb30b3cc448c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 04/24] fix: addCoefficientAtEnd on an empty manager

--end() of an empty map is undefined behaviour, and times <= 0 were
rejected because an empty manager reports a maximum time of 0.
---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 13c78c7..1860bad 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -164,12 +164,12 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
-  CHECK(time > getMaxTime()) << "Time to add is not greater than curve max time";
+  CHECK(empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From a9bbee8e961c0b734618b121579897a61bd5c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 05/24] fix: modifyCoefficient onto an occupied time corrupts
 the manager

Keeping the time of the modified coefficient erased it and left a
dangling key; moving it onto the time of another coefficient dropped the
value and mapped two keys to one coefficient.
---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 1860bad..f920c6e 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -183,6 +183,11 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
                                                                      Time time, const Coefficient& coefficient) {
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
+  if (time == it->first) {
+    it->second.coefficient = coefficient;
+    return;
+  }
+  CHECK(!this->hasCoefficientAtTime(time)) << "There is already a coefficient at the new time.";
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
   keyToCoefficient_[it->second.key] = newIt;
-- 
2.43.0


From 27c5b508bccf642a5efe6484b116a3562d7a4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 06/24] fix: batch modification of coefficients runs out of the
 map

An unknown first time walked past the beginning of the map, more times
than coefficients walked past its end and an empty batch read times[0].
---
 .../curves/LocalSupport2CoefficientManager-inl.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index f920c6e..13d7ee8 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -148,14 +148,14 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBatch(const std::vector<Time>& times,
                                                                                    const std::vector<Coefficient>& values) {
   CHECK_EQ(times.size(), values.size());
+  if (times.empty()) {
+    return;
+  }
   // Get an iterator to the first coefficient
-  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.end();
-
-  do {
-    --it;
-  } while (it->first != times[0]);
+  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.find(times[0]);
 
   for (size_t i = 0; i < times.size(); ++i) {
+    CHECK(it != timeToCoefficient_.end()) << "No coefficient at time " << times[i];
     CHECK_EQ(it->first,times[i]);
     it->second.coefficient = values[i];
     ++it;
-- 
2.43.0


From 453baf0d4c45c6a24aebc1885e43749be775dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:35 +0000
Subject: [PATCH 07/24] fix: refitting a CubicHermiteE3Curve mixes old and new
 knots

fitCurve and fitCurveWithDerivatives did not remove the previous knots,
unlike CubicHermiteSE3Curve.
---
 curves/src/CubicHermiteE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..1a82b39 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -146,6 +146,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
   assert(times.size() == values.size());
+  clear();
 
   // construct the Hemrite coefficients
   std::vector<Coefficient> coefficients;
-- 
2.43.0


From 32d93aef9ba6c55281f5ec695b93fabc0d772eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:35 +0000
Subject: [PATCH 08/24] fix: evaluating an empty Hermite curve at time 0 reads
 past the end

An empty manager reports 0 as minimum and maximum time, so evaluate and
evaluateDerivative at time 0 dereferenced the end iterator.
---
 curves/src/CubicHermiteE3Curve.cpp  | 4 ++--
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 1a82b39..0270c96 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -184,7 +184,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -237,7 +237,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..ebfd539 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -194,7 +194,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -273,7 +273,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From 93ac675e33353bc367d38d3d5b945b6ae15cdc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:35 +0000
Subject: [PATCH 09/24] fix: slope at the seam of periodic Hermite curves

The neighbours of the seam are the second to last knot of the previous
period and the second knot. The time between them was computed without
wrapping around, which gave a slope of the wrong sign and magnitude, and
a division by zero for three symmetric knots.
---
 curves/src/CubicHermiteE3Curve.cpp  | 3 ++-
 curves/src/CubicHermiteSE3Curve.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 0270c96..45919f5 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -136,7 +136,8 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  DerivativeType derivative = calculateSlope(times[nPoints-2] - (times[nPoints-1] - times[0]), times[1],
+                                             values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index ebfd539..1e4aa02 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,7 +153,8 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2] - (times[nPoints-1] - times[0]), times[1],
+                                             values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From 0a39792b7c82df0284d9e6982abe5b2ea8a8c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 10/24] fix: time offset of PolynomialSplineVectorSpaceCurve

A curve fitted to knots starting at a time other than zero reported
the duration as maximum time and was evaluated shifted by the first knot
time, unlike PolynomialSplineScalarCurve. clear() kept the offset.
---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..0a21657 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,11 +50,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       value(i) = containers_.at(i).getPositionAtTime(time);
     }
@@ -63,7 +64,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual bool evaluateDerivative(DerivativeType& value, Time time, unsigned derivativeOrder) const
   {
-
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
         value(i) = containers_.at(i).getVelocityAtTime(time);
@@ -149,6 +150,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From 6b2f055ad91fa6729142dc78c2e8e1a7dd1e4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 11/24] fix: refitting a scalar curve from spline options
 appends to the old curve

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..b632dcb 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,6 +131,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
       container_.addSpline(PolynomialSplineQuintic(options));
-- 
2.43.0


From bbfa0ac9b383518f4eb8ac0b3e27e2d9965da27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 12/24] fix: advancing a spline container across several
 splines

A time step longer than the active spline moved on by one spline only,
and the container was evaluated on the wrong spline until it caught up.
---
 curves/include/curves/PolynomialSplineContainer.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..e614e76 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -44,7 +44,8 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   containerTime_ += dt;
 
   // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
+  while (activeSplineIdx_ < splines_.size() &&
+         (containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
       timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
     }
-- 
2.43.0


From a2b903e537bb052f97002377fece8c3cf1ff80a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 13/24] fix: stale active spline after appending to a spline
 container

Appending a spline after the container time had reached the end (or had
been set on an empty container) left an active spline index and time
offset which did not match the container time.
---
 curves/include/curves/PolynomialSplineContainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cf5db6..71b5f08 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -50,6 +50,8 @@ class PolynomialSplineContainer {
   bool addSpline(SplineType_&& spline) {
     containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
+    // The container time may lie in the new spline.
+    activeSplineIdx_ = getActiveSplineIndexAtTime(containerTime_, timeOffset_);
     return true;
   }
 
-- 
2.43.0


From 61657cca81e0ae532e7e64c065ca476d008c0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 14/24] fix: setData without knots crashes

The number of splines wrapped around for an empty knot list, and with
it the number of constraints, which led to huge allocations.
---
 .../curves/PolynomialSplineContainer.tpp      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index e614e76..02fd608 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -252,17 +252,17 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.size()<2) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
-  if (numSplines<1) {
-    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
-    return false;
-  }
-
   // Total number of constraints.
   constexpr unsigned int num_initial_constraints = 3;   // pos, vel, accel
   constexpr unsigned int num_final_constraints = 3;     // pos, vel, accel
@@ -329,17 +329,17 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.size()<2) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1u;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
-  if (numSplines<1u) {
-    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
-    return false;
-  }
-
   // Total number of constraints.
   constexpr unsigned int num_initial_constraints = 2u;   // pos, vel
   constexpr unsigned int num_final_constraints = 2u;     // pos, vel
-- 
2.43.0


From 04f68fc1b9bcd040da663ab0450a9742d649bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 15/24] fix: a rejected piecewise linear fit leaves splines in
 the container

Unlike the other overloads, setData with positions only kept the
previous splines if there were not enough knots, and the splines up to
the invalid knot if the knot times were not increasing.
---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 02fd608..36d3b96 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -403,7 +403,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
     const std::vector<double>& knotDurations,
     const std::vector<double>& knotPositions) {
 
-  bool success = true;
+  bool success = reset();
   const int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
@@ -414,14 +414,13 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   std::fill(coefficients.begin(), coefficients.end(), 0.0);
 
-  success &= reset();
-
   this->reserveSplines(numSplines);
 
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
     if (duration<=0.0) {
+      reset();
       return false;
     }
 
-- 
2.43.0


From 78193289cce57ec7e0cb42e4d72f5f869298084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 16/24] fix: getDDiffTimeVector returns the first derivative of
 the time vector

---
 curves/include/curves/PolynomialSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index 0695acc..deb5b75 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -188,7 +188,7 @@ class PolynomialSpline {
            ddtimeVec.cols() == EigenTimeVectorType::ColsAtCompileTime);
     // https://eigen.tuxfamily.org/dox/TopicFunctionTakingEigenTypes.html
     const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =
-        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::dtau(tk)).data());
+        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtau(tk)).data());
   }
 
   //! Get the second derivative of the time vector evaluated at time tk and add it to the input vector.
-- 
2.43.0


From 9e149c9ca47c11828b8ec4a64d9c92a394a6d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 17/24] fix: define the time vectors at zero of linear,
 quadratic and quartic splines

The static constexpr members are odr-used by the spline containers, which
failed to link for these orders.
---
 curves/src/polynomial_splines_traits.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..e63ef00 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,11 +14,26 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
-- 
2.43.0


From 31c05b89426cd454cda689bf6c651bbbc8b5fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 18/24] fix: CSV loaders read the times from the wrong columns

The times are in the leading columns, the loaders were off by one and
returned vector entries (or a later time) as times.
---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From 00396f1f3b67c3a84c6868e3c29ff32f6a4476b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 19/24] fix: CSV writer rounds times and values to six digits

Distinct times of a curve (e.g. time stamps) collapsed to the same value
in the file. 17 digits are sufficient to recover any double.
---
 curves/src/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 8a6ca44..a9802ce 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -13,7 +13,7 @@ namespace curves {
 
 template <typename T>
 std::string toString(const T& t) {
-  std::ostringstream ss; ss<<t; return ss.str();
+  std::ostringstream ss; ss.precision(17); ss<<t; return ss.str();
 }
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
-- 
2.43.0


From d0f724c4cd8f70eda4345f230ad3030df5b091c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 20/24] fix: clearing an SE3 curve keeps the state of the
 sampling policy

The measurements counted since the last coefficient of the old curve
made extend() replace a coefficient of the new curve.
---
 curves/src/CubicHermiteSE3Curve.cpp | 1 +
 curves/src/SlerpSE3Curve.cpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 1e4aa02..870203d 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -563,6 +563,7 @@ void CubicHermiteSE3Curve::setSamplingRatio(const int ratio) {
 
 void CubicHermiteSE3Curve::clear() {
   manager_.clear();
+  hermitePolicy_.setMeasurementsSinceLastExtend_(0);
 }
 
 void CubicHermiteSE3Curve::transformCurve(const ValueType /*T*/) {
diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 8dac84e..9dd37d6 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -256,6 +256,7 @@ void SlerpSE3Curve::setSamplingRatio(const int ratio) {
 
 void SlerpSE3Curve::clear() {
   manager_.clear();
+  slerpPolicy_.setMeasurementsSinceLastExtend_(0);
 }
 
 void SlerpSE3Curve::transformCurve(const ValueType T) {
-- 
2.43.0


From af1d2905fa3069371dd4db9d54c5ce5c681533e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:04 +0000
Subject: [PATCH 21/24] fix: lowering the sampling ratio of a Slerp curve stops
 it from growing

When the ratio was lowered to the number of measurements already taken
or less, the counter never met it and every later measurement replaced
the last coefficient.
---
 curves/include/curves/SlerpSE3Curve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/SlerpSE3Curve.hpp b/curves/include/curves/SlerpSE3Curve.hpp
index 30dad54..8feb3ae 100644
--- a/curves/include/curves/SlerpSE3Curve.hpp
+++ b/curves/include/curves/SlerpSE3Curve.hpp
@@ -228,7 +228,7 @@ inline void SamplingPolicy::extend<SlerpSE3Curve, SE3>(const std::vector<Time>&
           SlerpSE3Curve::TimeToKeyCoefficientMap::iterator itPrev = (--curve->manager_.coefficientEnd());
           curve->manager_.modifyCoefficient(itPrev, times[0], values[0]);
         }
-        if (measurementsSinceLastExtend_ == minimumMeasurements_) {
+        if (measurementsSinceLastExtend_ >= minimumMeasurements_) {
           measurementsSinceLastExtend_ = 0;
         }
       }
-- 
2.43.0


From a81cb11058033e6541de305c5e5296005008d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:31 +0000
Subject: [PATCH 22/24] fix: a trajectory message without joints is read as if
 it had the joint

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                  | 2 +-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp          | 2 +-
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..146a1a0 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -31,8 +31,8 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..e4eff81 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -34,8 +34,8 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..00dbe0c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -31,8 +31,8 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
-- 
2.43.0


From a213bb596600bcd6c60a4bfac77f62387458072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:47 +0000
Subject: [PATCH 23/24] fix: long or short splines do not meet their boundary
 conditions

The rank decision of the QR solve drops boundary conditions as soon as the
powers of the duration differ by many orders of magnitude: a quintic of an
hour, for instance, misses its end position. Solve in units of the duration.
---
 .../curves/polynomial_splines_traits.hpp      | 46 +++++++++++++++----
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/polynomial_splines_traits.hpp b/curves/include/curves/polynomial_splines_traits.hpp
index 78e74d8..6868d54 100644
--- a/curves/include/curves/polynomial_splines_traits.hpp
+++ b/curves/include/curves/polynomial_splines_traits.hpp
@@ -68,6 +68,22 @@ struct SplineOptions {
 
 namespace spline_traits {
 
+//! The unit of time in which the boundary conditions are solved. The powers of the duration
+//! differ by many orders of magnitude when the spline is very long or very short.
+inline double timeScale(double tf) noexcept {
+  return (tf > 0.0) ? tf : 1.0;
+}
+
+//! Convert coefficients (highest power first) which were solved in units of scale to seconds.
+template<typename Coefficients_>
+inline void unscaleCoefficients(double scale, Coefficients_& coefficients) noexcept {
+  double power = 1.0;
+  for (auto it = coefficients.rbegin(); it != coefficients.rend(); ++it) {
+    *it /= power;
+    power *= scale;
+  }
+}
+
 // Main struct template.
 template<typename Core_, int SplineOrder_>
 struct spline_rep {
@@ -186,16 +202,19 @@ struct spline_rep<double, 3> {
   //! Map initial pos, initial vel, final pos and final vel to spline coefficients.
   static bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
 
+    const double scale = timeScale(opts.tf_);
+
     Eigen::Matrix<double, numCoefficients, 1> b;
-    b << opts.pos0_, opts.vel0_, opts.posT_, opts.velT_;
+    b << opts.pos0_, opts.vel0_*scale, opts.posT_, opts.velT_*scale;
 
     Eigen::Matrix<double, numCoefficients, numCoefficients> A;
     A << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_/scale)).data()),
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_/scale)).data());
 
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
+    unscaleCoefficients(scale, coefficients);
 
     return true;
   }
@@ -229,17 +248,20 @@ struct spline_rep<double, 4> {
 
   //! Map initial pos/vel/accel and final pos/vel to spline coefficients.
   static bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
+    const double scale = timeScale(opts.tf_);
+
     Eigen::Matrix<double, numCoefficients, 1> b;
-    b << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_;
+    b << opts.pos0_, opts.vel0_*scale, opts.acc0_*boost::math::pow<2>(scale), opts.posT_, opts.velT_*scale;
 
     Eigen::Matrix<double, numCoefficients, numCoefficients> A;
     A << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(ddtauZero.data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_/scale)).data()),
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_/scale)).data());
 
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
+    unscaleCoefficients(scale, coefficients);
 
     return true;
   }
@@ -278,15 +300,19 @@ struct spline_rep<double, 5> {
 
   //! Map initial pos/vel/accel and final pos/vel/accel to spline coefficients.
   static inline bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
+    const double scale = timeScale(opts.tf_);
+
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) =
       (Eigen::Matrix<double, numCoefficients, numCoefficients>() << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(ddtauZero.data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(opts.tf_)).data())).finished().
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_/scale)).data()),
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_/scale)).data()),
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(opts.tf_/scale)).data())).finished().
                  colPivHouseholderQr().solve(
-                     (Eigen::Matrix<double, numCoefficients, 1>() << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_, opts.accT_).finished());
+                     (Eigen::Matrix<double, numCoefficients, 1>() << opts.pos0_, opts.vel0_*scale, opts.acc0_*boost::math::pow<2>(scale),
+                         opts.posT_, opts.velT_*scale, opts.accT_*boost::math::pow<2>(scale)).finished());
+    unscaleCoefficients(scale, coefficients);
 
     return true;
   }
-- 
2.43.0


From d3d9473f10371014b240e0fff9987eec4fecb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:59 +0000
Subject: [PATCH 24/24] fix: fitting knots far apart or close together misses
 the knots

The rank decision of the QR solve drops constraints when the powers of the
durations differ by many orders of magnitude: a quintic through knots that are
half an hour apart misses them and jumps. Solve such systems again with each
spline in units of its own duration.
---
 .../curves/PolynomialSplineContainer.hpp      |  4 +++
 .../curves/PolynomialSplineContainer.tpp      | 32 +++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 71b5f08..1f8dfb9 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -173,6 +173,10 @@ class PolynomialSplineContainer {
       unsigned int& constraintIdx,
       const unsigned int num_junctions);
 
+  //! Solve the equality constraints for the coefficients of all splines.
+  Eigen::VectorXd solveEqualityConstraints(
+      const std::vector<double>& splineDurations) const;
+
   bool extractSplineCoefficients(
       const Eigen::VectorXd& coeffs,
       const std::vector<double>& splineDurations,
diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 36d3b96..15d4dcc 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -312,7 +312,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Find spline coefficients.
-  Eigen::VectorXd coeffs = equalityConstraintJacobian_.colPivHouseholderQr().solve(equalityConstraintTargetValues_);
+  Eigen::VectorXd coeffs = solveEqualityConstraints(splineDurations);
 
   // Extract spline coefficients and add splines.
   success &= extractSplineCoefficients(coeffs, splineDurations, numSplines);
@@ -389,7 +389,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Find spline coefficients.
-  Eigen::VectorXd coeffs = equalityConstraintJacobian_.colPivHouseholderQr().solve(equalityConstraintTargetValues_);
+  Eigen::VectorXd coeffs = solveEqualityConstraints(splineDurations);
 
   // Extract spline coefficients and add splines.
   success &= extractSplineCoefficients(coeffs, splineDurations, numSplines);
@@ -541,6 +541,34 @@ void PolynomialSplineContainer<splineOrder_>::addJunctionsConditions(const std::
   }
 }
 
+template <int splineOrder_>
+Eigen::VectorXd PolynomialSplineContainer<splineOrder_>::solveEqualityConstraints(
+    const std::vector<double>& splineDurations) const {
+  const Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr(equalityConstraintJacobian_);
+  if (qr.rank() == equalityConstraintJacobian_.rows()) {
+    return qr.solve(equalityConstraintTargetValues_);
+  }
+
+  // The powers of very long or very short durations make constraints look dependent, and they would be
+  // dropped. Express each spline in units of its own duration.
+  Eigen::VectorXd columnScale(equalityConstraintJacobian_.cols());
+  for (size_t splineId = 0; splineId < splineDurations.size(); ++splineId) {
+    double scale = 1.0;
+    for (int i = SplineType::coefficientCount-1; i >= 0; --i) {
+      columnScale(getSplineColumnIndex(splineId) + i) = scale;
+      scale /= splineDurations[splineId];
+    }
+  }
+
+  const Eigen::MatrixXd jacobian = equalityConstraintJacobian_ * columnScale.asDiagonal();
+  const Eigen::VectorXd rowScale = jacobian.rowwise().lpNorm<Eigen::Infinity>().cwiseInverse();
+
+  const Eigen::MatrixXd scaledJacobian = rowScale.asDiagonal() * jacobian;
+  const Eigen::VectorXd scaledTargetValues = rowScale.asDiagonal() * equalityConstraintTargetValues_;
+
+  return columnScale.asDiagonal() * scaledJacobian.colPivHouseholderQr().solve(scaledTargetValues);
+}
+
 template <int splineOrder_>
 bool PolynomialSplineContainer<splineOrder_>::extractSplineCoefficients(
     const Eigen::VectorXd& coeffs,
-- 
2.43.0

