From a86071fcf1c72f8bde985466817660a6a8f40fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/68] fix: keep the attribute cache alive while an
 interpretation is read from it

load() returned a pointer into the cached value while only a local shared_ptr
owned it. A concurrent reader asking for another type replaced the cache and
the pointer dangled, although concurrent reads are documented to be safe.
---
 lanelet2_core/src/Attribute.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index bac48c3..89c4a93 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -37,12 +37,14 @@ T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
 }
 
 template <typename T>
-T* load(const std::shared_ptr<Attribute::Cache>& cache) {
+Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
+  // keeps the cached value alive while it is read: other readers might replace the cache at any time
   auto c = std::atomic_load_explicit(&cache, std::memory_order_acquire);
-  if (!c) {
-    return nullptr;
+  auto* val = boost::get<T>(c.get());
+  if (val == nullptr) {
+    return {};
   }
-  return boost::get<T>(&*cache);
+  return *val;
 }
 }  // namespace
 
@@ -60,8 +62,8 @@ Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQu
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-  auto* val = load<bool>(cache_);
-  if (val != nullptr) {
+  auto val = load<bool>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -80,8 +82,8 @@ Optional<bool> Attribute::asBool() const {
 
 Optional<double> Attribute::asDouble() const {
   // try load from cache
-  auto* val = load<double>(cache_);
-  if (val != nullptr) {
+  auto val = load<double>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -94,8 +96,8 @@ Optional<double> Attribute::asDouble() const {
 
 Optional<Id> Attribute::asId() const {
   // try load from cache
-  auto* val = load<Id>(cache_);
-  if (val != nullptr) {
+  auto val = load<Id>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -108,8 +110,8 @@ Optional<Id> Attribute::asId() const {
 
 Optional<int> Attribute::asInt() const {
   // try load from cache
-  auto* val = load<int>(cache_);
-  if (val != nullptr) {
+  auto val = load<int>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -122,8 +124,8 @@ Optional<int> Attribute::asInt() const {
 
 Optional<Velocity> Attribute::asVelocity() const {
   // try load from cache
-  auto* val = load<Velocity>(cache_);
-  if (val != nullptr) {
+  auto val = load<Velocity>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
-- 
2.43.0


From 8137d1550cf231ce112eab64057121755136ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 02/68] fix: do not lose the precision of numeric attributes in
 their text

Attribute(double) and Attribute(Velocity) cached the exact value but stored a
text with six decimals. The value changed as soon as the cache was replaced by
another query, on comparison and after writing to a file.
---
 lanelet2_core/src/Attribute.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index 89c4a93..610a90b 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -46,6 +46,12 @@ Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
   }
   return *val;
 }
+
+//! The text of a number must not lose information, because it is what is stored, compared and written to files.
+std::string toText(double value) {
+  auto text = std::to_string(value);
+  return boost::lexical_cast<double>(text) == value ? text : boost::lexical_cast<std::string>(value);
+}
 }  // namespace
 
 Attribute::Attribute(Id value) : value_(std::to_string(value)) { store(cache_, value); }
@@ -54,9 +60,9 @@ Attribute::Attribute(bool value) : value_(std::to_string(int(value))) { store(ca
 
 Attribute::Attribute(int value) : value_(std::to_string(value)) { store(cache_, value); }
 
-Attribute::Attribute(double value) : value_(std::to_string(value)) { store(cache_, value); }
+Attribute::Attribute(double value) : value_(toText(value)) { store(cache_, value); }
 
-Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQuantity(value).value())} {
+Attribute::Attribute(const Velocity& value) : value_{toText(units::KmHQuantity(value).value())} {
   store(cache_, value);
 }
 
-- 
2.43.0


From b1ba1d7efa3f3eb1f1cfc1e8ecb896a6d8018900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 03/68] fix: range insert on inverted line strings returns an
 iterator to the first inserted point

It returned the last inserted one, unlike for line strings that are not inverted.
---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..985c10a 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -423,8 +423,10 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
     using RIter = LineStringData::iterator;
     if (inverted()) {
       using RViter = std::reverse_iterator<Viter>;
+      const auto oldSize = points().size();
       auto fwIter = points().insert(internal::pointIter(position), RViter(end), RViter(start));
-      return RIter(Points3d::reverse_iterator(fwIter + 1));
+      const auto numInserted = static_cast<Points3d::difference_type>(points().size() - oldSize);
+      return RIter::reversed(fwIter + numInserted);  // the last one in forward direction is our first one
     }
     auto fwIter = points().insert(internal::pointIter(position), Viter(start), Viter(end));
     return RIter(fwIter);
-- 
2.43.0


From eee1c7e831216e31b3265e4ea45732219443fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 04/68] fix: intersectCenterlines2d measures the other distance
 along the other centerline

---
 lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
index 39a82a0..e522fdd 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
@@ -102,7 +102,7 @@ BasicPoints2d intersectCenterlines2d(const Lanelet1T& lanelet, const Lanelet2T&
   }
   if (distanceOther != nullptr) {
     std::transform(intersections.begin(), intersections.end(), std::back_inserter(*distanceOther),
-                   [&centerline](const auto& elem) { return toArcCoordinates(centerline, elem).length; });
+                   [&otherCenterline](const auto& elem) { return toArcCoordinates(otherCenterline, elem).length; });
   }
   return intersections;
 }
-- 
2.43.0


From 92cfa6b89c5faf60f4c2f8be390f90765042f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 05/68] fix: register the ids of all primitives a layer is
 created with

---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ad53b2f..291ed80 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -330,6 +330,7 @@ PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
@@ -338,6 +339,7 @@ PrimitiveLayer<Lanelet>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
-- 
2.43.0


From e0b8945988a7deda90d921ed28cc2deddfde3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 06/68] fix: withoutConflicting really leaves out conflicting
 relations

---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0


From cf2f25f873aba499e7c14fc36383b9646e586700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 07/68] fix: left and right relations of a lanelet outside of
 the route are empty

---
 lanelet2_routing/src/Route.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..899db20 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -267,6 +267,9 @@ Optional<LaneletRelation> Route::leftRelation(const ConstLanelet& lanelet) const
 LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
@@ -288,6 +291,9 @@ Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) cons
 LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-- 
2.43.0


From 20c4e57808e6353c3c09006b4ec8034ab5f38939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 08/68] fix: report inconsistent instead of consistent
 relations when a route is checked

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 899db20..f8f4667 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -359,7 +359,7 @@ bool Route::contains(const ConstLanelet& lanelet) const { return !!graph_->getVe
 
 template <RelationType Expect>
 void checkRelationIs(Route::Errors& errors, Id source, Id dest, RelationType sourceRel, RelationType targetRel) {
-  if ((Expect & targetRel) != RelationType::None) {
+  if ((Expect & targetRel) == RelationType::None) {
     auto sourceStr = std::to_string(source);
     auto destStr = std::to_string(dest);
     errors.emplace_back("Lanelet " + sourceStr + " is " + relationToString(sourceRel) + "of/with " + destStr +
-- 
2.43.0


From f2622a766155a2b1a911123f99f5a57589bab660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 09/68] fix: areas can only be passed between if both are
 passable

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index bbf181b..28ab26e 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -235,7 +235,7 @@ bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to)
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
-  if (!canPass(from) && canPass(to)) {
+  if (!canPass(from) || !canPass(to)) {
     return false;
   }
   auto line = determineCommonLine(from, to);
-- 
2.43.0


From 8f029555b844ad4fbd976bdd158b70e6f5db24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 10/68] fix: keep placeholder locations valid when several
 references are missing

---
 lanelet2_io/src/OsmHandlerWrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index a397ea4..93d4bda 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -29,7 +29,8 @@ void removeAndFixPlaceholders(osm::Primitive** toRemove, osm::Roles& fromRoles,
   std::vector<std::pair<size_t, osm::Primitive**>> placeholderLocations;
   for (auto it = fromRoles.begin(); it != fromRoles.end(); ++it) {
     if (it->second == nullptr && remIt != it) {
-      placeholderLocations.emplace_back(std::distance(fromRoles.begin(), it), &it->second);
+      const auto idx = std::distance(fromRoles.begin(), it);
+      placeholderLocations.emplace_back(it > remIt ? idx - 1 : idx, &it->second);
     }
   }
   fromRoles.erase(remIt);
-- 
2.43.0


From 00a5cf296f99944980aac2f1ea641d721e385fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 11/68] Revert "fix: range insert on inverted line strings
 returns an iterator to the first inserted point"

This reverts commit b1ba1d7efa3f3eb1f1cfc1e8ecb896a6d8018900.
---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 985c10a..5416d99 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -423,10 +423,8 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
     using RIter = LineStringData::iterator;
     if (inverted()) {
       using RViter = std::reverse_iterator<Viter>;
-      const auto oldSize = points().size();
       auto fwIter = points().insert(internal::pointIter(position), RViter(end), RViter(start));
-      const auto numInserted = static_cast<Points3d::difference_type>(points().size() - oldSize);
-      return RIter::reversed(fwIter + numInserted);  // the last one in forward direction is our first one
+      return RIter(Points3d::reverse_iterator(fwIter + 1));
     }
     auto fwIter = points().insert(internal::pointIter(position), Viter(start), Viter(end));
     return RIter(fwIter);
-- 
2.43.0


From bbfdd75dddf923721f02c8d8b21cd4459eef750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 12/68] fix: respect the inversion when points are moved into a
 line string

---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..b82fda4 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      std::reverse(rhs.begin(), rhs.end());
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From d5fae764b2ac65321324a0be6050c7d6839f72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 13/68] fix: all way stops find the stop line of a lanelet when
 other lanelets expired

---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index d27909e..af72222 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -33,6 +33,23 @@ bool findAndErase(const T& primitive, RuleParameterMap& parameters, RoleName rol
   return true;
 }
 
+//! Position of a lanelet within a role. Expired lanelets keep their position.
+Optional<size_t> findLanelet(const RuleParameterMap& parameters, RoleName role, const ConstLanelet& llt) {
+  auto parameterIt = parameters.find(role);
+  if (parameterIt == parameters.end()) {
+    return {};
+  }
+  const auto& parameter = parameterIt->second;
+  auto it = std::find_if(parameter.begin(), parameter.end(), [&llt](const RuleParameter& param) {
+    const auto* weakLlt = boost::get<WeakLanelet>(&param);
+    return weakLlt != nullptr && *weakLlt == ConstWeakLanelet(llt);
+  });
+  if (it == parameter.end()) {
+    return {};
+  }
+  return size_t(std::distance(parameter.begin(), it));
+}
+
 template <typename T>
 Optional<T> tryGetFront(const std::vector<T>& vec) {
   if (vec.empty()) {
@@ -379,12 +396,11 @@ Optional<ConstLineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) con
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto idx = findLanelet(parameters(), RoleName::Yield, llt);
+  if (!idx) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*idx);
 }
 
 Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
@@ -392,12 +408,11 @@ Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto idx = findLanelet(parameters(), RoleName::Yield, llt);
+  if (!idx) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*idx);
 }
 
 ConstLineStringsOrPolygons3d AllWayStop::trafficSigns() const {
-- 
2.43.0


From e169d824c9c72be4ca9117327900ec8cdc5835b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 14/68] fix: searching for zero nearest primitives does not
 read an empty vector

---
 lanelet2_core/src/LaneletMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 291ed80..97bc259 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -974,7 +974,7 @@ auto findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
   NSmallestElements<RetT> closest(count);
   auto searchFunction = [&closest, &pt](auto& box, const RetT& prim) {
     auto dBox = distance(box, pt);
-    if (closest.full() && dBox > closest.values().back().first) {
+    if (closest.full() && !closest.empty() && dBox > closest.values().back().first) {
       return true;
     }
     closest.insert(distance2d(prim, pt), prim);
-- 
2.43.0


From 783a6a4091e05a15a08aa02da6c88c86f8e7d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 15/68] fix: submaps assign missing ids and do not list a
 primitive twice

---
 .../primitives/RegulatoryElement.h            |  1 +
 lanelet2_core/src/LaneletMap.cpp              | 77 ++++++++++++++++++-
 2 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h b/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h
index 375e020..4d73970 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h
@@ -256,6 +256,7 @@ class RegulatoryElement  // NOLINT
 
   friend class RegulatoryElementFactory;
   friend class LaneletMap;  // Needs access to add all parameters of a regElem
+  friend class LaneletSubmap;
   explicit RegulatoryElement(Id id = InvalId, const RuleParameterMap& members = RuleParameterMap(),
                              const AttributeMap& attributes = AttributeMap())
       : ConstPrimitive(std::make_shared<RegulatoryElementData>(id, members, attributes)) {}
diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 97bc259..e1373c3 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -203,6 +203,43 @@ void checkId(T& t) {
   }
 }
 
+template <typename T>
+void checkMissingId(T& t) {
+  if (t.id() == InvalId) {
+    checkId(t);
+  }
+}
+
+template <typename LineStringT>
+void checkMissingIds(LineStringT lineString) {
+  checkMissingId(lineString);
+  for (auto p : lineString) {
+    checkMissingId(p);
+  }
+}
+
+// a submap does not contain the parameters of its regulatory elements, but they need an id to be found by it
+struct CheckMissingIdsVisitor : public lanelet::internal::MutableParameterVisitor {
+  void operator()(const Point3d& p) override {
+    Point3d point{p};
+    checkMissingId(point);
+  }
+  void operator()(const LineString3d& l) override { checkMissingIds(l); }
+  void operator()(const Polygon3d& p) override { checkMissingIds(p); }
+  void operator()(const WeakLanelet& ll) override {
+    if (!ll.expired()) {
+      auto lanelet = ll.lock();
+      checkMissingId(lanelet);
+    }
+  }
+  void operator()(const WeakArea& ar) override {
+    if (!ar.expired()) {
+      auto area = ar.lock();
+      checkMissingId(area);
+    }
+  }
+};
+
 template <typename ConstLaneletsT, typename ConstAreasT>
 LaneletMapUPtr createMapFromConst(const ConstLaneletsT& fromLanelets, const ConstAreasT& fromAreas) {
   // sorry, we temporarily have to const cast our primitives back to non-const to be able to create a const map. Its not
@@ -686,34 +723,70 @@ void LaneletMap::add(Point3d point) {
 
 void LaneletSubmap::add(Lanelet lanelet) {
   checkId(lanelet);
-  utils::forEach(lanelet.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
+  if (laneletLayer.exists(lanelet.id())) {
+    return;
+  }
+  checkMissingIds(lanelet.leftBound());
+  checkMissingIds(lanelet.rightBound());
+  if (lanelet.hasCustomCenterline()) {
+    checkMissingIds(uglyRemoveConst(lanelet.centerline()));
+  }
+  utils::forEach(lanelet.regulatoryElements(), [&](auto& regElem) {
+    checkMissingId(*regElem);
+    this->trackParameters(*regElem);
+  });
   laneletLayer.add(lanelet);
 }
 
 void LaneletSubmap::add(Area area) {
   checkId(area);
-  utils::forEach(area.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
+  if (areaLayer.exists(area.id())) {
+    return;
+  }
+  utils::forEach(area.outerBound(), [](auto& ls) { checkMissingIds(ls); });
+  utils::forEach(area.innerBounds(),
+                 [](auto& inner) { utils::forEach(inner, [](auto& ls) { checkMissingIds(ls); }); });
+  utils::forEach(area.regulatoryElements(), [&](auto& regElem) {
+    checkMissingId(*regElem);
+    this->trackParameters(*regElem);
+  });
   areaLayer.add(area);
 }
 
 void LaneletSubmap::add(const RegulatoryElementPtr& regElem) {
   checkId(*regElem);
+  if (regulatoryElementLayer.exists(regElem->id())) {
+    return;
+  }
+  CheckMissingIdsVisitor visitor;
+  regElem->applyVisitor(visitor);
   trackParameters(*regElem);
   regulatoryElementLayer.add(regElem);
 }
 
 void LaneletSubmap::add(Polygon3d polygon) {
   checkId(polygon);
+  if (polygonLayer.exists(polygon.id())) {
+    return;
+  }
+  checkMissingIds(polygon);
   polygonLayer.add(polygon);
 }
 
 void LaneletSubmap::add(LineString3d lineString) {
   checkId(lineString);
+  if (lineStringLayer.exists(lineString.id())) {
+    return;
+  }
+  checkMissingIds(lineString);
   lineStringLayer.add(lineString);
 }
 
 void LaneletSubmap::add(Point3d point) {
   checkId(point);
+  if (pointLayer.exists(point.id())) {
+    return;
+  }
   pointLayer.add(point);
 }
 
-- 
2.43.0


From 7df1f174cad7a9183245f7d0c9a77f6d8835463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 16/68] fix: attributes can be copied while others read them

---
 lanelet2_core/include/lanelet2_core/Attribute.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index 6319eda..e57cdcf 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -2,6 +2,7 @@
 // indent-tabs-mode: nil -*-
 
 #pragma once
+#include <atomic>
 #include <boost/variant/variant.hpp>
 #include <memory>
 #include <string>
@@ -46,6 +47,18 @@ class Attribute {
   Attribute(double value);                                      // NOLINT
   Attribute(const Velocity& value);                             // NOLINT
 
+  // reading an attribute fills its cache, therefore the cache of an attribute that is copied has to be read atomically
+  Attribute(const Attribute& rhs)
+      : value_{rhs.value_}, cache_{std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire)} {}
+  Attribute& operator=(const Attribute& rhs) {
+    value_ = rhs.value_;
+    cache_ = std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire);
+    return *this;
+  }
+  Attribute(Attribute&& rhs) noexcept = default;
+  Attribute& operator=(Attribute&& rhs) noexcept = default;
+  ~Attribute() noexcept = default;
+
   /**
    * @brief interpret this attribute as bool value
    * @throw ConversionError if the attribute could not be interpreted as bool
-- 
2.43.0


From c64310d9169003b4c525c0acee2925b4c0d490e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 17/68] fix: the side of a line string does not depend on which
 of two closest segments is found

---
 .../lanelet2_core/geometry/impl/LineString.h  | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index a6461cf..c40a49d 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -43,9 +43,13 @@ inline auto crossProd(const Eigen::Matrix<double, 2, 1>& p1, const Eigen::Matrix
   return BasicPoint3d(p1.x(), p1.y(), 0.).cross(BasicPoint3d(p2.x(), p2.y(), 0.)).eval();
 }
 
-template <typename LineStringT, typename BasicPointT>
-auto findPoint(const LineStringT& ls, const BasicPointT& p) {
-  return std::find_if(ls.begin(), ls.end(), [&p](const auto& elem) { return boost::geometry::equals(elem, p); });
+//! finds the first point of a segment. A point alone does not identify it, line strings might pass a point repeatedly.
+template <typename LineStringT, typename SegmentT>
+auto findSegment(const LineStringT& ls, const SegmentT& seg) {
+  using boost::geometry::equals;
+  return std::adjacent_find(ls.begin(), ls.end(), [&seg](const auto& first, const auto& second) {
+    return equals(first, seg.first) && equals(second, seg.second);
+  });
 }
 
 template <typename PointT>
@@ -79,16 +83,29 @@ bool isLeftOf(const LineStringT& ls, const BasicPointT& p, const ProjectedPointI
   BasicPointT pSeg1 = ppInfo.closestSegment.first;
   BasicPointT pSeg2 = ppInfo.closestSegment.second;
   bool isLeft = pointIsLeftOf(pSeg1, pSeg2, p);
+  if (pSeg2 != ppInfo.projectedPoint && pSeg1 != ppInfo.projectedPoint) {
+    return isLeft;
+  }
+  const auto segIt = findSegment(ls, ppInfo.closestSegment);
+  if (segIt == ls.end()) {
+    return isLeft;
+  }
+  // see stackoverflow.com/questions/10583212
   if (pSeg2 == ppInfo.projectedPoint) {
-    auto nextSegPointIt = std::next(findPoint(ls, pSeg2));
+    auto nextSegPointIt = std::next(segIt, 2);
     if (nextSegPointIt != ls.end()) {
-      // see stackoverflow.com/questions/10583212
       BasicPointT nextSegPoint;
       boost::geometry::convert(*nextSegPointIt, nextSegPoint);
       if (isLeft != pointIsLeftOf(pSeg2, nextSegPoint, p) && isLeft == pointIsLeftOf(pSeg1, pSeg2, nextSegPoint)) {
         return !isLeft;
       }
     }
+  } else if (segIt != ls.begin()) {
+    BasicPointT prevSegPoint;
+    boost::geometry::convert(*std::prev(segIt), prevSegPoint);
+    if (isLeft != pointIsLeftOf(prevSegPoint, pSeg1, p) && isLeft == pointIsLeftOf(prevSegPoint, pSeg1, pSeg2)) {
+      return !isLeft;
+    }
   }
   return isLeft;
 }
-- 
2.43.0


From 8fc09be452f8295bf968891354d1efc633dad09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 18/68] fix: arc coordinates of line strings that pass a point
 repeatedly

---
 lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index c40a49d..9d5ac41 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -745,7 +745,8 @@ ArcCoordinates toArcCoordinates(const LineString2dT& lineString, const BasicPoin
   // find first point in segment in linestring
   double length = 0.;
   auto accumulateLength = [&](const auto& first, const auto& second) {
-    if (boost::geometry::equals(first, projectedPoint.closestSegment.first)) {
+    if (boost::geometry::equals(first, projectedPoint.closestSegment.first) &&
+        boost::geometry::equals(second, projectedPoint.closestSegment.second)) {
       return true;
     }
     length += distance(first, second);
-- 
2.43.0


From 27c7a2a1f316df7ee111a652d7aec77416a1087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 19/68] fix: distances between polygon borders take the closing
 segment into account

---
 lanelet2_core/src/LineStringGeometry.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LineStringGeometry.cpp b/lanelet2_core/src/LineStringGeometry.cpp
index 5cf07b6..a5eba2f 100644
--- a/lanelet2_core/src/LineStringGeometry.cpp
+++ b/lanelet2_core/src/LineStringGeometry.cpp
@@ -126,9 +126,12 @@ void distForAllSegments(const RangeT& r, Func f) {
   }
   for (auto first = r.begin(), second = r.begin() + 1; second != r.end(); ++first, ++second) {
     if (f(*first, *second) == 0.) {
-      break;
+      return;
     }
   }
+  if (traits::isPolygonT<RangeT>() && r.size() > 1) {
+    f(r.back(), r.front());  // the border of a polygon is closed
+  }
 }
 
 namespace bg = boost::geometry;
-- 
2.43.0


From fed59cc3d01c2675c705b1dd796499198367cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 20/68] fix: triangulating a concave polygon leaves out
 triangles outside of it

---
 lanelet2_core/src/PolygonTriangulationGeometry.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lanelet2_core/src/PolygonTriangulationGeometry.cpp b/lanelet2_core/src/PolygonTriangulationGeometry.cpp
index 7635e69..eefc2ca 100644
--- a/lanelet2_core/src/PolygonTriangulationGeometry.cpp
+++ b/lanelet2_core/src/PolygonTriangulationGeometry.cpp
@@ -429,6 +429,15 @@ BasicPolygons2d convexPartitionImpl(const BasicPolygon2d& poly) {
   return res;
 }
 
+//! the triangulation covers the convex hull, so that parts of it are outside of a concave polygon
+bool isInside(const BasicPolygon2d& poly, const IndexedPolygon& part) {
+  BasicPoint2d center{0., 0.};
+  for (auto idx : part) {
+    center += poly.at(idx) / double(part.size());
+  }
+  return within(center, poly);
+}
+
 IndexedTriangles triangulateImpl(const BasicPolygon2d& poly) {
   if (poly.size() < 3) {
     throw GeometryError("Can't triangulate a polygon with less than 3 points");
@@ -437,6 +446,9 @@ IndexedTriangles triangulateImpl(const BasicPolygon2d& poly) {
   res.reserve(poly.size() - 2);
   auto segData = makeVoronoi(poly);
   for (const auto& i : segData.getConvexPolygons()) {
+    if (!isInside(poly, i)) {
+      continue;
+    }
     if (isTriangular(i)) {
       res.emplace_back(IndexedTriangle{i.at(0), i.at(1), i.at(2)});
     } else {
-- 
2.43.0


From 1095412d9da153e20e967a202ff8e2d98bcc2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 21/68] fix: offset line strings to the right are checked for
 inversion, too

---
 lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 9d5ac41..2e43871 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -443,7 +443,7 @@ inline void checkForInversion(const LineString2dT& oldLS, const BasicLineString2
   for (const auto& p : offsetLS) {
     auto it = tree.qbegin(internal::bgi::nearest(p, 1));
     auto pd = geometry::distance2d(BasicLineString2d{it->first, it->second}, p);
-    if (pd + epsilon < distance) {
+    if (pd + epsilon < std::abs(distance)) {
       throw GeometryError("Possible Lanelet Inversion");
     }
   }
-- 
2.43.0


From b2f7bc2dcb388ae50ebfbdb128db52dcde5d681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 22/68] fix: BinWriter reports failed writes as WriteError

---
 lanelet2_io/src/BinHandler.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 8d22edc..9cf2a84 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -23,10 +23,18 @@ void BinWriter::write(const std::string& filename, const LaneletMap& laneletMap,
   if (!fs.good()) {
     throw ParseError("Failed open archive " + filename);
   }
-  boost::archive::binary_oarchive oa(fs);
-  oa << laneletMap;
-  auto idCounter = utils::getId();
-  oa << idCounter;
+  try {
+    boost::archive::binary_oarchive oa(fs);
+    oa << laneletMap;
+    auto idCounter = utils::getId();
+    oa << idCounter;
+  } catch (const boost::archive::archive_exception& err) {
+    throw WriteError("Failed to write archive " + filename + ": " + err.what());
+  }
+  fs.close();
+  if (!fs.good()) {
+    throw WriteError("Failed to write archive " + filename);
+  }
 }
 
 std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorMessages& /*errors*/) const {
-- 
2.43.0


From e80c0bbbe93e29ce6b910b50d759cc7c705570cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 23/68] fix: BinParser reports damaged archives as ParseError

---
 lanelet2_io/src/BinHandler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 9cf2a84..9519c35 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -43,10 +43,14 @@ std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorM
     throw ParseError("Failed open archive " + filename);
   }
   std::unique_ptr<LaneletMap> laneletMap = std::make_unique<LaneletMap>();
-  boost::archive::binary_iarchive ia(fs);
-  ia >> *laneletMap;
   Id idCounter = 0;
-  ia >> idCounter;
+  try {
+    boost::archive::binary_iarchive ia(fs);
+    ia >> *laneletMap;
+    ia >> idCounter;
+  } catch (const std::exception& err) {
+    throw ParseError("Failed to read archive " + filename + ": " + err.what());
+  }
   utils::registerId(idCounter);
   return laneletMap;
 }
-- 
2.43.0


From 50d08f675cf3dc891d107d7f1cd17b7eb594e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 24/68] fix: OsmParser loads the holes of areas
 counter-clockwise, as documented

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 4e1f6a6..c1b79cb 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -285,7 +285,10 @@ class FromFileLoader {  // NOLINT
 
   std::vector<LineStrings3d> getInnerRing(const osm::Relation& area) {
     auto innerLs = getLinestrings(area.members, RoleNameString::Inner, area.id);
-    return assembleBoundary(innerLs, area.id);
+    auto rings = assembleBoundary(innerLs, area.id);
+    // the rings are clockwise, but holes are defined counter-clockwise
+    utils::forEach(rings, [](auto& ring) { reverse(ring); });
+    return rings;
   }
 
   RuleParameterMap getRulesForRegulatoryElement(Id currElemId, const osm::Roles& roles) {
-- 
2.43.0


From 59f3d2078f2820b49267f32ec0fa9e6bf3525a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 25/68] fix: traffic rules know the documented subtype bus_lane

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 28ab26e..582c71d 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -271,6 +271,8 @@ SpeedLimitInformation getSpeedLimitFromType(const AttributeMap& attributes, cons
       {{Value::Urban, Value::PlayStreet}, &CountrySpeedLimits::playStreet},
       {{Value::Nonurban, Value::PlayStreet}, &CountrySpeedLimits::playStreet},
       {{Value::Urban, Value::Exit}, &CountrySpeedLimits::vehicleUrbanRoad},
+      {{Value::Urban, Value::BusLane}, &CountrySpeedLimits::vehicleUrbanRoad},
+      {{Value::Nonurban, Value::BusLane}, &CountrySpeedLimits::vehicleNonurbanRoad},
   };
   if (participant == Participants::Pedestrian) {
     return countryLimits.pedestrian;
@@ -334,6 +336,7 @@ Optional<bool> GenericTrafficRules::canPass(const std::string& type, const std::
       {Value::BicycleLane, {Participants::Bicycle}},
       {Value::PlayStreet, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::EmergencyLane, {Participants::VehicleEmergency}},
+      {Value::BusLane, {Participants::VehicleBus, Participants::VehicleEmergency, Participants::VehicleTaxi}},
       {Value::Exit, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::Walkway, {Participants::Pedestrian}},
       {Value::Crosswalk, {Participants::Pedestrian}},
-- 
2.43.0


From 82cdad2b6906de31d176a8ec58e937ff3f63e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 26/68] fix: passing between areas and lanelets considers all
 their common borders

---
 .../src/GenericTrafficRules.cpp               | 44 ++++++++-----------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 582c71d..4bc5eee 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -193,56 +193,48 @@ Optional<ConstLineString3d> determineCommonLine(const ConstLanelet& ll, const Co
     return (boundLs.back() == p1 && boundLs.front() == p2);
   });
 }
-Optional<ConstLineString3d> determineCommonLine(const ConstArea& ar1, const ConstArea& ar2) {
-  return utils::findIf(ar1.outerBound(), [&ar2](auto& ar1Bound) {
-    return !!utils::findIf(ar2.outerBound(),
-                           [ar1Bound = ar1Bound.invert()](auto& ar2Bound) { return ar2Bound == ar1Bound; });
-  });
+bool isCommonLine(const ConstLineString3d& ar1Bound, const ConstArea& ar2) {
+  return utils::anyOf(ar2.outerBound(),
+                      [ar1Bound = ar1Bound.invert()](auto& ar2Bound) { return ar2Bound == ar1Bound; });
 }
 
 bool GenericTrafficRules::canPass(const ConstLanelet& from, const ConstArea& to) const {
   if (!canPass(from) || !canPass(to)) {
     return false;
   }
-  if (geometry::leftOf(from, to)) {
-    return canChangeToLeft(laneChangeType(from.leftBound(), true));
+  // an area can touch a lanelet on more than one side
+  if (geometry::leftOf(from, to) && canChangeToLeft(laneChangeType(from.leftBound(), true))) {
+    return true;
   }
-  if (geometry::rightOf(from, to)) {
-    return canChangeToRight(laneChangeType(from.rightBound(), true));
+  if (geometry::rightOf(from, to) && canChangeToRight(laneChangeType(from.rightBound(), true))) {
+    return true;
   }
   auto line = determineCommonLine(from, to);
-  if (!!line) {
-    return canChangeToRight(laneChangeType(*line, true));
-  }
-  return false;
+  return !!line && canChangeToRight(laneChangeType(*line, true));
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to) const {
   if (!canPass(from) || !canPass(to)) {
     return false;
   }
-  if (geometry::leftOf(to, from)) {
-    return canChangeToRight(laneChangeType(to.leftBound(), true));
+  if (geometry::leftOf(to, from) && canChangeToRight(laneChangeType(to.leftBound(), true))) {
+    return true;
   }
-  if (geometry::rightOf(to, from)) {
-    return canChangeToLeft(laneChangeType(to.rightBound(), true));
+  if (geometry::rightOf(to, from) && canChangeToLeft(laneChangeType(to.rightBound(), true))) {
+    return true;
   }
   auto line = determineCommonLine(to.invert(), from);
-  if (!!line) {
-    return canChangeToLeft(laneChangeType(*line, true));
-  }
-  return false;
+  return !!line && canChangeToLeft(laneChangeType(*line, true));
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
   if (!canPass(from) || !canPass(to)) {
     return false;
   }
-  auto line = determineCommonLine(from, to);
-  if (!line) {
-    return false;
-  }
-  return canChangeToLeft(laneChangeType(*line, true));
+  // areas can have more than one line in common
+  return utils::anyOf(from.outerBound(), [this, &to](auto& bound) {
+    return isCommonLine(bound, to) && canChangeToLeft(laneChangeType(bound, true));
+  });
 }
 
 bool GenericTrafficRules::canChangeLane(const ConstLanelet& from, const ConstLanelet& to) const {
-- 
2.43.0


From f06d8960a8e2d96051afd5c37655051fe09279a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 27/68] fix: BinWriter also reports failures while the file is
 closed

---
 lanelet2_io/src/BinHandler.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 9519c35..0344666 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -24,14 +24,16 @@ void BinWriter::write(const std::string& filename, const LaneletMap& laneletMap,
     throw ParseError("Failed open archive " + filename);
   }
   try {
-    boost::archive::binary_oarchive oa(fs);
-    oa << laneletMap;
-    auto idCounter = utils::getId();
-    oa << idCounter;
-  } catch (const boost::archive::archive_exception& err) {
+    {
+      boost::archive::binary_oarchive oa(fs);
+      oa << laneletMap;
+      auto idCounter = utils::getId();
+      oa << idCounter;
+    }
+    fs.close();
+  } catch (const std::exception& err) {
     throw WriteError("Failed to write archive " + filename + ": " + err.what());
   }
-  fs.close();
   if (!fs.good()) {
     throw WriteError("Failed to write archive " + filename);
   }
-- 
2.43.0


From 7b47dc60354d40c8c02f9f77114b081abb2bfab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 28/68] fix: make lane change costs independent of the order in
 which lane changes are visited

---
 .../internal/RoutingGraphBuilder.h            |   2 +-
 lanelet2_routing/src/RoutingGraphBuilder.cpp  | 102 +++++++-----------
 2 files changed, 39 insertions(+), 65 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
index 92a66d5..029d59b 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
@@ -46,7 +46,7 @@ class RoutingGraphBuilder {
   //! Adds the first and last points of a lanelet to the search index
   void addPointsToSearchIndex(const ConstLanelet& ll);
   bool hasEdge(const ConstLanelet& from, const ConstLanelet& to);
-  void assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation);
+  void assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos, const RelationType& relation);
 
   /** @brief Assigns routing costs of each routing cost module to a relation between two lanelets
    *  @param from Start lanelet
diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8d2c606..0ccf338 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -5,6 +5,7 @@
 #include <lanelet2_core/geometry/Lanelet.h>
 
 #include <unordered_map>
+#include <unordered_set>
 
 #include "lanelet2_routing/Exceptions.h"
 #include "lanelet2_routing/RoutingGraph.h"
@@ -19,65 +20,46 @@ inline IdPair orderedIdPair(const Id id1, const Id id2) { return (id1 < id2) ? I
 
 //! This class collects lane changable lanelets and combines them to a sequence of adjacent lanechangable lanelets
 class LaneChangeLaneletsCollector {
-  struct LaneChangeInfo {
-    ConstLanelet target;
-    bool visited;
-  };
-  using LaneChangeMap = std::unordered_map<ConstLanelet, LaneChangeInfo>;
+  using LaneChangeMap = std::unordered_map<ConstLanelet, ConstLanelet>;
 
  public:
   using LaneChangeLanelets = std::pair<ConstLanelets, ConstLanelets>;
 
   LaneChangeLaneletsCollector() = default;
   void add(ConstLanelet from, ConstLanelet to) {
-    laneChanges_.emplace(std::move(from), LaneChangeInfo{std::move(to), false});
+    laneChanges_.emplace(std::move(from), std::move(to));
     currPos_ = laneChanges_.begin();
   }
 
-  template <typename Func1, typename Func2>
-  Optional<LaneChangeLanelets> getNextChangeLanelets(Func1&& prev, Func2&& next) {
-    for (; currPos_ != laneChanges_.end() && currPos_->second.visited; ++currPos_) {
-    }
+  //! Returns the next lane change together with all lane changes that are possible after it
+  template <typename Func>
+  Optional<LaneChangeLanelets> getNextChangeLanelets(Func&& next) {
     if (currPos_ == laneChanges_.end()) {
       return {};
     }
-    return getLaneChangeLanelets(currPos_, std::forward<Func1>(prev), std::forward<Func2>(next));
+    return getLaneChangeLanelets(currPos_++, std::forward<Func>(next));
   }
 
  private:
-  template <typename Func1, typename Func2>
-  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& prev, Func2&& next) {
-    iter->second.visited = true;
-    auto followers = getAdjacentLaneChangeLanelets(iter, std::forward<Func2>(next));
-    auto predecessors = getAdjacentLaneChangeLanelets(iter, std::forward<Func1>(prev));
-    std::reverse(predecessors.first.begin(), predecessors.first.end());
-    std::reverse(predecessors.second.begin(), predecessors.second.end());
-    std::pair<ConstLanelets, ConstLanelets> result;
-    result.first = utils::concatenate({predecessors.first, ConstLanelets{iter->first}, followers.first});
-    result.second = utils::concatenate({predecessors.second, ConstLanelets{iter->second.target}, followers.second});
-    return result;
-  }
-
-  template <typename Func1>
-  LaneChangeLanelets getAdjacentLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& adjacent) {
-    std::pair<ConstLanelets, ConstLanelets> successors;
-    while (true) {
-      auto nextSourceLlts = adjacent(iter->first);
-      auto nextTargetLlts = adjacent(iter->second.target);
+  template <typename Func>
+  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::iterator iter, Func&& next) {
+    LaneChangeLanelets result;
+    std::unordered_set<ConstLanelet> visited;
+    do {
+      visited.insert(iter->first);
+      result.first.push_back(iter->first);
+      result.second.push_back(iter->second);
+      auto nextSourceLlts = next(iter->first);
+      auto nextTargetLlts = next(iter->second);
       if (nextSourceLlts.size() != 1 || nextTargetLlts.size() != 1) {
         break;
       }
-      ConstLanelet& nextSourceLlt = nextSourceLlts.front();
-      ConstLanelet& nextTargetLlt = nextTargetLlts.front();
-      iter = laneChanges_.find(nextSourceLlt);
-      if (iter == laneChanges_.end() || iter->second.visited || iter->second.target != nextTargetLlt) {
+      iter = laneChanges_.find(nextSourceLlts.front());
+      if (iter == laneChanges_.end() || iter->second != nextTargetLlts.front()) {
         break;
       }
-      iter->second.visited = true;
-      successors.first.push_back(nextSourceLlt);
-      successors.second.push_back(nextTargetLlt);
-    }
-    return successors;
+    } while (visited.count(iter->first) == 0);
+    return result;
   }
 
   LaneChangeMap laneChanges_;
@@ -241,27 +223,20 @@ void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const Lanel
 }
 
 void RoutingGraphBuilder::addLaneChangeEdges(LaneChangeLaneletsCollector& laneChanges, const RelationType& relation) {
-  auto getSuccessors = [this](auto beginEdgeIt, auto endEdgeIt, auto getVertex) {
+  auto next = [this](const ConstLanelet& llt) {
     ConstLanelets nexts;
-    for (; beginEdgeIt != endEdgeIt; ++beginEdgeIt) {
-      auto& edgeInfo = graph_->get()[*beginEdgeIt];
+    auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
+    for (auto edgeIt = edges.first; edgeIt != edges.second; ++edgeIt) {
+      auto& edgeInfo = graph_->get()[*edgeIt];
       if (edgeInfo.relation == RelationType::Successor && edgeInfo.costId == 0) {
-        nexts.push_back(graph_->get()[getVertex(*beginEdgeIt, graph_->get())].lanelet());
+        nexts.push_back(graph_->get()[boost::target(*edgeIt, graph_->get())].lanelet());
       }
     }
     return nexts;
   };
-  auto next = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::target(edge, g); });
-  };
-  auto prev = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::in_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::source(edge, g); });
-  };
   Optional<LaneChangeLaneletsCollector::LaneChangeLanelets> laneChangeLanelets;
-  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(prev, next))) {
-    assignLaneChangeCosts(std::move(laneChangeLanelets->first), std::move(laneChangeLanelets->second), relation);
+  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(next))) {
+    assignLaneChangeCosts(laneChangeLanelets->first, laneChangeLanelets->second, relation);
   }
 }
 
@@ -338,20 +313,19 @@ bool RoutingGraphBuilder::hasEdge(const ConstLanelet& from, const ConstLanelet&
   return !!graph_->getEdgeInfo(from, to);
 }
 
-void RoutingGraphBuilder::assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation) {
+void RoutingGraphBuilder::assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos,
+                                                const RelationType& relation) {
   assert(relation == RelationType::Left || relation == RelationType::Right);
   assert(froms.size() == tos.size());
-  for (; !froms.empty(); froms.erase(froms.begin()), tos.erase(tos.begin())) {
-    for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
-      auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
-      if (!std::isfinite(cost)) {
-        // if the costs are infinite, we add an adjacent edge instead
-        auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
-        graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
-        continue;
-      }
-      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
+  for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
+    auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
+    if (!std::isfinite(cost)) {
+      // if the costs are infinite, we add an adjacent edge instead
+      auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
+      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
+      continue;
     }
+    graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
   }
 }
 
-- 
2.43.0


From 6a8fe6fc4a1dc219d4bdcc3e4b0e21510b389445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 29/68] fix: find conflicts between lanelets independent of
 their order and direction

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 35 +++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 0ccf338..0a9f8ca 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -135,12 +135,16 @@ void RoutingGraphBuilder::addEdges(const ConstLanelets& lanelets, const LaneletL
     addFollowingEdges(ll);
     addSidewayEdge(rightToLeft, ll, ll.leftBound(), RelationType::AdjacentLeft);
     addSidewayEdge(leftToRight, ll, ll.rightBound(), RelationType::AdjacentRight);
-    addConflictingEdge(ll, passableLanelets);
   }
 
   // now process the lane changes
   addLaneChangeEdges(rightToLeft, RelationType::Left);
   addLaneChangeEdges(leftToRight, RelationType::Right);
+
+  // everything else that overlaps is in conflict
+  for (auto const& ll : lanelets) {
+    addConflictingEdge(ll, passableLanelets);
+  }
 }
 
 void RoutingGraphBuilder::addEdges(const ConstAreas& areas, const LaneletLayer& passableLanelets,
@@ -198,26 +202,17 @@ void RoutingGraphBuilder::addSidewayEdge(LaneChangeLaneletsCollector& laneChange
 void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const LaneletLayer& passableLanelets) {
   // Conflicting
   ConstLanelets results = passableLanelets.search(geometry::boundingBox2d(ll));
-  ConstLanelet other;
   for (auto& result : results) {
-    if (bothWaysLaneletIds_.find(ll.id()) != bothWaysLaneletIds_.end() && result == ll) {
-      other = result.invert();
-      assignCosts(ll, other, RelationType::Conflicting);
-      assignCosts(other, ll, RelationType::Conflicting);
-      continue;
-    }
-    other = result;
-    if (hasEdge(ll, result)) {
-      continue;
-    }
-    auto vertex = graph_->getVertex(other);
-    if (!vertex || result == ll) {
-      continue;
-    }
-    auto maxHeight = participantHeight();
-    if ((maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) || (!maxHeight && geometry::overlaps2d(ll, other))) {
-      assignCosts(ll, other, RelationType::Conflicting);
-      assignCosts(other, ll, RelationType::Conflicting);
+    for (auto& other : {result, result.invert()}) {
+      if (other == ll || !graph_->getVertex(other) || hasEdge(ll, other) || hasEdge(other, ll)) {
+        continue;
+      }
+      auto maxHeight = participantHeight();
+      if (result.id() == ll.id() || (maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) ||
+          (!maxHeight && geometry::overlaps2d(ll, other))) {
+        assignCosts(ll, other, RelationType::Conflicting);
+        assignCosts(other, ll, RelationType::Conflicting);
+      }
     }
   }
 }
-- 
2.43.0


From 43016d03466e5ce3ecdff35aed1dcdaf68c74cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 30/68] fix: make conflicts with areas symmetric

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 0a9f8ca..8ad87e5 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -261,7 +261,12 @@ void RoutingGraphBuilder::addAreaEdge(const ConstArea& area, const LaneletLayer&
     auto maxHeight = participantHeight();
     if ((maxHeight && geometry::overlaps3d(area, candidate, *maxHeight)) ||
         (!maxHeight && geometry::overlaps2d(area, candidate))) {
-      assignCosts(candidate, area, RelationType::Conflicting);
+      for (auto& lanelet : {candidate, candidate.invert()}) {
+        if (!!graph_->getVertex(lanelet)) {
+          assignCosts(lanelet, area, RelationType::Conflicting);
+          assignCosts(area, lanelet, RelationType::Conflicting);
+        }
+      }
     }
   }
 }
@@ -276,6 +281,9 @@ void RoutingGraphBuilder::addAreaEdge(const ConstArea& area, const AreaLayer& pa
       assignCosts(area, candidate, RelationType::Area);
       continue;
     }
+    if (trafficRules_.canPass(candidate, area)) {
+      continue;
+    }
     auto maxHeight = participantHeight();
     if ((maxHeight && geometry::overlaps3d(ConstArea(area), candidate, *maxHeight)) ||
         (!maxHeight && geometry::overlaps2d(ConstArea(area), candidate))) {
-- 
2.43.0


From 14ceb2c3105b53ff4e82be549b9c3796cda92f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 31/68] fix: do not count passing an area as a lane change

---
 .../include/lanelet2_routing/internal/ShortestPath.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
index 9e67370..da7342a 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
@@ -99,7 +99,8 @@ class DijkstraStyleSearch {
       auto& follower = (*map_)[boost::target(e, g)];
       follower.length = predecessor.length + 1;
       follower.predecessor = boost::source(e, g);
-      follower.numLaneChanges = predecessor.numLaneChanges + (g[e].relation != RelationType::Successor);
+      const auto isLaneChange = g[e].relation != RelationType::Successor && g[e].relation != RelationType::Area;
+      follower.numLaneChanges = predecessor.numLaneChanges + (isLaneChange ? 1 : 0);
     }
 
    private:
-- 
2.43.0


From 049403db15ee6853246247a79574d73a412e0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 32/68] fix: end the remaining shortest path of a route with a
 single lanelet

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index f8f4667..e906a90 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -142,7 +142,7 @@ LaneletPath Route::remainingShortestPath(const ConstLanelet& ll) const {
   if (iter == shortestPath_.end()) {
     return LaneletPath{};
   }
-  if (!shortestPath_.empty() && shortestPath_.front() == shortestPath_.back()) {  // circular
+  if (shortestPath_.size() > 1 && shortestPath_.front() == shortestPath_.back()) {  // circular
     ConstLanelets llts{shortestPath_.begin(), shortestPath_.end()};
     llts.pop_back();
     std::rotate(llts.begin(), llts.begin() + std::distance(shortestPath_.begin(), iter), llts.end());
-- 
2.43.0


From c213f3e9905290e4c69edb3c48895b6ae7186965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 33/68] fix: do not treat the predecessors of a route as beside
 it

---
 .../include/lanelet2_routing/internal/GraphUtils.h            | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h b/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
index a7f5004..9ed07f8 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
@@ -187,9 +187,7 @@ class NextToRouteFilter {
     }
     auto outEdges = boost::out_edges(vertexId, *originalGraph_);
     auto connectedToRoute = std::any_of(outEdges.first, outEdges.second, [&](OriginalGraph::edge_descriptor e) {
-      auto dest = boost::target(e, *originalGraph_);
-      return onRoute_->find(dest) != onRoute_->end() ||
-             onRoute_->find(boost::source(e, *originalGraph_)) != onRoute_->end();
+      return (*originalGraph_)[e].relation != RelationType::Successor && has(*onRoute_, boost::target(e, *originalGraph_));
     });
     return connectedToRoute;
   }
-- 
2.43.0


From 27bfc3c1fe8b2d7377c1f58cd908e43984daeb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:19 +0000
Subject: [PATCH 34/68] fix: drop all lanelets that do not lead to the end of
 the route

---
 lanelet2_routing/src/RouteBuilder.cpp | 146 +++++++++-----------------
 1 file changed, 47 insertions(+), 99 deletions(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 2634693..338e329 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -20,129 +20,76 @@ void breadthFirstSearch(const Graph& g, StartVertex v, Visitor vis) {
   boost::breadth_first_visit(g, v, q, vis, cm);
 }
 
-struct VisitationCount {
-  bool isLeaf() const { return numFollowers + numLaneChangesOut == 0; }
-  unsigned numFollowers{};
-  unsigned numLaneChangesOut{};
-};
-
-//! Explicit representation into which the implicit filtered_graph from boost is parsed. Contains functionality to add
-//! or delete vertices.
+//! Explicit representation into which the implicit filtered_graph from boost is parsed. Contains functionality to
+//! delete vertices.
 class VisitedLaneletGraph {
-  using VisitedCounters = std::map<NextToRouteGraph::vertex_descriptor, Optional<VisitationCount>>;
-
  public:
-  using VisitedVertex = VisitedCounters::value_type;
-
   explicit VisitedLaneletGraph(const RouteLanelets& llts) : routeLanelets_{&llts} {}
 
   //! To be called on each new vertex once it is discovered
-  void init(LaneletVertexId v) {
-    assert(!visited_[v]);
-    visited_[v] = VisitationCount{};
-  }
-
-  //! Adds an edge
-  void add(LaneletVertexId v, NextToRouteGraph::edge_descriptor e, const NextToRouteGraph& g) {
-    auto type = g[e].relation;
-    assert(!!visited_[v] && "init() should make sure vertex is valid!");
-    if (type == RelationType::Left || type == RelationType::Right) {
-      auto dest = boost::target(e, g);
-      if (routeLanelets_->find(dest) != routeLanelets_->end()) {
-        visited_[v]->numLaneChangesOut++;
-      }
-    } else if (type == RelationType::Successor) {
-      visited_[v]->numFollowers++;
-    } else {
-      assert(false && "This is not possible if the edge filter did his job!");
-    }
-  }
-
-  //! Prunes all leafs if this graph except for the lanelet llt
-  void pruneLeafsExcluding(LaneletVertexId llt, const NextToRouteGraph& g) {
-    bool progress = true;
-    while (progress) {
-      progress = false;
-      for (auto& vertex : visited_) {
-        if (vertex.first == llt || !vertex.second || !vertex.second->isLeaf()) {
-          continue;
-        }
-        progress = true;
-        remove(vertex, g);
-      }
-    }
+  void init(LaneletVertexId v) { visited_.insert(v); }
+
+  //! Prunes all vertices that can not be reached from begin or do not lead to end
+  void pruneUnconnected(LaneletVertexId begin, LaneletVertexId end, const NextToRouteGraph& g) {
+    auto fromBegin = getConnected<false>(begin, g);
+    auto toEnd = getConnected<true>(end, g);
+    visited_.clear();
+    std::set_intersection(fromBegin.begin(), fromBegin.end(), toEnd.begin(), toEnd.end(),
+                          std::inserter(visited_, visited_.end()));
   }
 
   //! Clears the graph
-  void clear() {
-    for (auto& vertex : visited_) {
-      vertex.second.reset();
-    }
-  }
+  void clear() { visited_.clear(); }
 
   //! Iterates the vertices of the graph
   template <typename Func>
   void forAllValidLanelets(Func&& f) const {
-    for (const auto& vertex : visited_) {
-      if (!!vertex.second && !vertex.second->isLeaf()) {
-        f(vertex);
-      }
-    }
+    std::for_each(visited_.begin(), visited_.end(), f);
   }
 
   //! Remove a vertex from the graph
-  void remove(LaneletVertexId v, const NextToRouteGraph& g) {
-    auto iter = visited_.find(v);
-    assert(iter != visited_.end());
-    remove(*iter, g);
-  }
+  void remove(LaneletVertexId v) { visited_.erase(v); }
 
  private:
-  void remove(VisitedCounters::value_type& v, const NextToRouteGraph& g) {
-    v.second.reset();
-    auto inEdges = boost::in_edges(v.first, g);
-    std::for_each(inEdges.first, inEdges.second, [&](NextToRouteGraph::edge_descriptor e) {
-      auto relation = g[e].relation;
-      if ((relation & (RelationType::Successor | RelationType::Left | RelationType::Right)) == RelationType::None) {
-        return;
-      }
-      auto vertex = visited_.find(boost::source(e, g));
-      if (vertex == visited_.end() || !vertex->second) {
-        return;
-      }
-      if (relation == RelationType::Successor && vertex->second->numFollowers > 0) {
-        vertex->second->numFollowers--;
-      } else if (vertex->second->numLaneChangesOut > 0) {  // implies left or right
-        vertex->second->numLaneChangesOut--;
+  //! Finds all vertices that are connected to a vertex
+  template <bool Backwards>
+  RouteLanelets getConnected(LaneletVertexId start, const NextToRouteGraph& g) const {
+    RouteLanelets connected;
+    std::vector<LaneletVertexId> todo{start};
+    while (!todo.empty()) {
+      auto v = todo.back();
+      todo.pop_back();
+      if (!has(visited_, v) || !connected.insert(v).second) {
+        continue;
       }
-    });
+      auto edges = GetEdges<Backwards>{}(v, g);
+      std::for_each(edges.first, edges.second, [&](NextToRouteGraph::edge_descriptor e) {
+        // changing to a lane that is not (yet) part of the route does not help to get anywhere
+        if (!Backwards || g[e].relation == RelationType::Successor || has(*routeLanelets_, boost::target(e, g))) {
+          todo.push_back(GetTarget<Backwards>{}(e, g));
+        }
+      });
+    }
+    return connected;
   }
-  VisitedCounters visited_;
+
+  RouteLanelets visited_;
   const RouteLanelets* routeLanelets_{};
 };
 
 //! Adaptor for boost graph. It is used to build the VisitedLaneletGraph.
 class NeighbouringGraphVisitor : public boost::default_bfs_visitor {
  public:
-  explicit NeighbouringGraphVisitor(VisitedLaneletGraph& counter) : counter_{&counter} {}
+  explicit NeighbouringGraphVisitor(VisitedLaneletGraph& visited) : visited_{&visited} {}
 
   // called by boost graph on a new vertex
   template <typename GraphType>
   void examine_vertex(LaneletVertexId v, const GraphType& /*g*/) {  // NOLINT
-    counter_->init(v);
-    vCurr_ = v;
-  }
-
-  // called directly after an all its edges
-  template <typename GraphType>
-  void examine_edge(NextToRouteGraph::edge_descriptor e, const GraphType& g) const {  // NOLINT
-    assert(vCurr_ == boost::source(e, g) && "Breadth first search seems to iterate in a weird manner");
-    counter_->add(vCurr_, e, g);
+    visited_->init(v);
   }
 
  private:
-  LaneletVertexId vCurr_{};
-  VisitedLaneletGraph* counter_;
+  VisitedLaneletGraph* visited_;
 };
 
 RouteLanelets getLeftAndRightLanelets(const LaneletVertexId& llt, const OriginalGraph& g) {
@@ -196,9 +143,9 @@ class PathsOutOfRouteFinder {
   void forEachVertexOutOfRoute(const VisitedLaneletGraph& visited, Func&& f) {
     newConflictingVertices_.clear();
     permittedVertices_.clear();
-    visited.forAllValidLanelets([&](const VisitedLaneletGraph::VisitedVertex& v) {
-      if (conflictsWithRoute_(v.first)) {
-        newConflictingVertices_.push_back(v.first);
+    visited.forAllValidLanelets([&](LaneletVertexId v) {
+      if (conflictsWithRoute_(v)) {
+        newConflictingVertices_.push_back(v);
       }
     });
     permittedVertices_.resize(newConflictingVertices_.size(), false);
@@ -396,15 +343,16 @@ class RouteUnderConstruction {
     breadthFirstSearch(nextToRouteGraph_, begin_, NeighbouringGraphVisitor{laneletVisitor_});
 
     // remove lanelets that do not lead to end_ from the graph
-    laneletVisitor_.pruneLeafsExcluding(end_, nextToRouteGraph_);
+    laneletVisitor_.pruneUnconnected(begin_, end_, nextToRouteGraph_);
 
-    // remove lanelets that (temporarily) leave the route from the graph
-    pathOutOfRouteFinder_.forEachVertexOutOfRoute(
-        laneletVisitor_, [&](auto& vertex) { laneletVisitor_.remove(vertex, nextToRouteGraph_); });
+    // remove lanelets that (temporarily) leave the route from the graph and those that depend on them
+    pathOutOfRouteFinder_.forEachVertexOutOfRoute(laneletVisitor_,
+                                                  [&](auto& vertex) { laneletVisitor_.remove(vertex); });
+    laneletVisitor_.pruneUnconnected(begin_, end_, nextToRouteGraph_);
 
     // add the new vertices to the laneletsOnTheRoute_ and determine if we made progress.
     bool progress = false;
-    laneletVisitor_.forAllValidLanelets([&](auto lltId) { progress |= laneletsOnRoute_.insert(lltId.first).second; });
+    laneletVisitor_.forAllValidLanelets([&](auto lltId) { progress |= laneletsOnRoute_.insert(lltId).second; });
     return progress;
   }
 
-- 
2.43.0


From 7c7eb1288fef6ba97519eb6203461e50ec398a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:19 +0000
Subject: [PATCH 35/68] fix: do not end circular routes at lanelets beside
 their last one

---
 lanelet2_routing/src/RouteBuilder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 338e329..a82b7df 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -114,10 +114,17 @@ RouteLanelets getLeftAndRightLanelets(const LaneletVertexId& llt, const Original
 }
 
 RouteLanelets lastLanelets(const std::vector<LaneletVertexId>& initialRoute, const OriginalGraph& originalGraph) {
-  if (initialRoute.empty() || initialRoute.front() == initialRoute.back()) {
+  if (initialRoute.empty()) {
     return {};
   }
-  return getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  auto last = getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  // if the initial route itself continues from there (e.g. because it is circular), all others can do so, too
+  for (auto it = initialRoute.begin(); std::next(it) != initialRoute.end(); ++it) {
+    if (has(last, *it) && !has(last, *std::next(it))) {
+      return {};
+    }
+  }
+  return last;
 }
 
 //! The visited lanelet graph initially also contains lanelets that are always conflicting with the route, but the route
-- 
2.43.0


From 8d0f5ec6f18ece356e73e28c0480e77b5946c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 36/68] fix: check the subtypes of linestrings against those of
 their type

The check looked up the name of the type attribute instead of its value and therefore never found anything. The entries
for virtual and pedestrian_marking are gone, since the documentation lists no subtypes for them and the example map uses
others.
---
 lanelet2_validation/src/validators/CheckTags.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lanelet2_validation/src/validators/CheckTags.cpp b/lanelet2_validation/src/validators/CheckTags.cpp
index c3ff409..6b0d0c2 100644
--- a/lanelet2_validation/src/validators/CheckTags.cpp
+++ b/lanelet2_validation/src/validators/CheckTags.cpp
@@ -72,12 +72,10 @@ const ValueMap& knownLineStringValues() {
       {Str(Value::Arrow) + Attr::Subtype,
        {Value::Left, Value::LeftRight, Value::Right, Value::Straight, Value::StraightLeft, Value::StraightRight}},
       {Str(Value::BikeMarking) + Attr::Subtype, {Value::Dashed, Value::Solid}},
-      {Str(Value::PedestrianMarking) + Attr::Subtype, {Value::Dashed, Value::Solid}},
       {Str(Value::StopLine) + Attr::Subtype, {Value::Dashed, Value::Solid}},
       {Str(Value::Bump) + Attr::Subtype, {}},
       {Str(Value::TrafficLight) + Attr::Subtype,
-       {Value::Red, Value::RedGreen, Value::RedYellow, Value::RedYellowGreen}},
-      {Str(Value::Virtual) + Attr::Subtype, {}}};
+       {Value::Red, Value::RedGreen, Value::RedYellow, Value::RedYellowGreen}}};
   return Tags;
 }
 
@@ -178,7 +176,7 @@ Issues checkKnownTagValues(const AttributeMap& attrs, const ValueMap& knownTagVa
     auto key = attr.first;
     bool isSubtype = combineSubtypes && key == Attr::Subtype && type != attrs.end();
     if (isSubtype) {
-      key = type->first + key;  // NOLINT
+      key = type->second.value() + key;
     }
     auto values = knownTagValues.find(key);
     if (values == knownTagValues.end()) {
@@ -191,8 +189,7 @@ Issues checkKnownTagValues(const AttributeMap& attrs, const ValueMap& knownTagVa
       if (isSubtype) {
         issue += " and type=" + type->second.value();
       }
-      issues.push_back(Issue(Severity::Warning, primitive, id,
-                             "value " + attr.second.value() + " is not a known value for " + attr.first));
+      issues.push_back(Issue(Severity::Warning, primitive, id, issue));
     }
   }
   return issues;
-- 
2.43.0


From 0b59a95f892c279f41c4102606d77365aefa464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 37/68] fix: accept the documented subtype exit for lanelets

---
 lanelet2_validation/src/validators/CheckTags.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_validation/src/validators/CheckTags.cpp b/lanelet2_validation/src/validators/CheckTags.cpp
index 6b0d0c2..d27f7ad 100644
--- a/lanelet2_validation/src/validators/CheckTags.cpp
+++ b/lanelet2_validation/src/validators/CheckTags.cpp
@@ -98,8 +98,8 @@ const ValueMap& knownLaneletValues() {
   const static ValueMap Tags{
       {Attr::Type, {Value::Lanelet}},
       {Attr::Subtype,
-       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Highway, Value::PlayStreet,
-        Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
+       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Exit, Value::Highway,
+        Value::PlayStreet, Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
       {Attr::Location, {Value::Nonurban, Value::Private, Value::Urban}}};
   return Tags;
 }
-- 
2.43.0


From 784cdc7c8781484dada9a77510638fe7639c4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 38/68] fix: know all documented tags of lanelets and areas

---
 lanelet2_validation/src/validators/CheckTags.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lanelet2_validation/src/validators/CheckTags.cpp b/lanelet2_validation/src/validators/CheckTags.cpp
index d27f7ad..2942c82 100644
--- a/lanelet2_validation/src/validators/CheckTags.cpp
+++ b/lanelet2_validation/src/validators/CheckTags.cpp
@@ -82,7 +82,8 @@ const ValueMap& knownLineStringValues() {
 const std::vector<std::string>& knownLaneletTags() {
   using Attr = AttributeNamesString;
   const static std::vector<std::string> Tags{Attr::Type,   Attr::Subtype,    Attr::OneWay,   Attr::Name,
-                                             Attr::Region, Attr::SpeedLimit, Attr::Location, Attr::Participant};
+                                             Attr::Region, Attr::SpeedLimit, Attr::Location, Attr::Participant,
+                                             "road_name",  "road_surface"};
   return Tags;
 }
 
@@ -106,8 +107,9 @@ const ValueMap& knownLaneletValues() {
 
 const std::vector<std::string>& knownAreaTags() {
   using Attr = AttributeNamesString;
-  const static std::vector<std::string> Tags{Attr::Type,     Attr::Subtype, Attr::SpeedLimit,
-                                             Attr::Location, Attr::Region,  Attr::Name};
+  const static std::vector<std::string> Tags{Attr::Type,   Attr::Subtype, Attr::SpeedLimit,  Attr::Location,
+                                             Attr::Region, Attr::Name,    Attr::Participant, "road_name",
+                                             "road_surface"};
   return Tags;
 }
 
-- 
2.43.0


From c0bc3ceb6ba0db720fdfaa0137ee501b738de85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 39/68] fix: speed_limit_mandatory has to be convertible to
 bool

---
 lanelet2_validation/src/validators/CheckTags.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lanelet2_validation/src/validators/CheckTags.cpp b/lanelet2_validation/src/validators/CheckTags.cpp
index 2942c82..4f0f8fe 100644
--- a/lanelet2_validation/src/validators/CheckTags.cpp
+++ b/lanelet2_validation/src/validators/CheckTags.cpp
@@ -206,8 +206,9 @@ const ValueMap& knownRegelemValues() {
 
 Issues checkAttribute(const AttributeMap& map, Id id, Primitive primitive) {
   using Attr = AttributeNamesString;
-  static std::vector<std::string> boolAttributes{Attr::OneWay,      Attr::Dynamic,  Attr::LaneChange,
-                                                 Attr::Participant, Attr::Fallback, Attr::Temporary};
+  static std::vector<std::string> boolAttributes{
+      Attr::OneWay,   Attr::Dynamic,   Attr::LaneChange,         Attr::Participant,
+      Attr::Fallback, Attr::Temporary, Attr::SpeedLimitMandatory};
   Issues issues;
   for (const auto& attr : map) {
     bool isBoolAttr =
-- 
2.43.0


From 3d12be4a87212d30691a7181a47bb6abcb1e2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 40/68] fix: find close points next to points above or below

---
 lanelet2_validation/src/validators/PointsTooClose.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lanelet2_validation/src/validators/PointsTooClose.cpp b/lanelet2_validation/src/validators/PointsTooClose.cpp
index 05d5186..bb05120 100644
--- a/lanelet2_validation/src/validators/PointsTooClose.cpp
+++ b/lanelet2_validation/src/validators/PointsTooClose.cpp
@@ -8,18 +8,21 @@ namespace lanelet {
 namespace validation {
 namespace {
 RegisterMapValidator<PointsTooCloseChecker> reg;
+constexpr double MinDistance = 0.05;
 }  // namespace
 
 Issues PointsTooCloseChecker::operator()(const lanelet::LaneletMap& map) {
   Issues issues;
   for (const auto& p : map.pointLayer) {
-    auto nearest = map.pointLayer.nearest(utils::to2D(p).basicPoint(), 2);
-    if (nearest.size() == 2) {
-      auto& next = nearest[0] == p ? nearest[1] : nearest[0];
-      if (geometry::distance(p, next) < 0.05) {
+    // the closest points in 2d might be far above or below, so look at all of them
+    const BasicPoint2d center = utils::to2D(p).basicPoint();
+    const BasicPoint2d offset(MinDistance, MinDistance);
+    for (const auto& next : map.pointLayer.search(BoundingBox2d(center - offset, center + offset))) {
+      if (next != p && geometry::distance(p, next) < MinDistance) {
         issues.emplace_back(
             Severity::Warning, Primitive::Point, p.id(),
             "Point is very close to point " + std::to_string(next.id()) + ". This can lead to defects in the map");
+        break;
       }
     }
   }
-- 
2.43.0


From 617811b446ac33c8e2f86c4f876c48823495668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 41/68] fix: refuse to build routing graphs of lanelets without
 points

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8ad87e5..aa6bf1f 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -302,6 +302,9 @@ Optional<double> RoutingGraphBuilder::participantHeight() const {
 
 void RoutingGraphBuilder::addPointsToSearchIndex(const ConstLanelet& ll) {
   using PointLaneletPair = std::pair<IdPair, ConstLanelet>;
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    throw InvalidInputError("Lanelet " + std::to_string(ll.id()) + " has a bound without points!");
+  }
   pointsToLanelets_.insert(
       PointLaneletPair(orderedIdPair(ll.leftBound().front().id(), ll.rightBound().front().id()), ll));
   pointsToLanelets_.insert(
-- 
2.43.0


From 7b697cbde1ffb09eb378f60110ac5ac2fd13f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 42/68] fix: python: elements of linestrings stay valid when
 the linestring changes

---
 lanelet2_python/python_api/core.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 36eab12..7e9bfc2 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -347,7 +347,8 @@ class IsConstLineString : public def_visitor<IsConstLineString<LsT, InternalRef>
   }
   template <bool InternalRefVal, typename ClassT>
   std::enable_if_t<InternalRefVal> addGetitem(ClassT& c) const {
-    c.def("__getitem__", wrappers::getItem<LsT>, return_internal_reference<>());
+    // by value: a reference into the linestring would dangle as soon as points are added or removed
+    c.def("__getitem__", wrappers::getItem<LsT>, return_value_policy<return_by_value>());
   }
   template <bool InternalRefVal, typename ClassT>
   std::enable_if_t<!InternalRefVal> addGetitem(ClassT& c) const {
@@ -375,7 +376,8 @@ class IsLineString : public def_visitor<IsLineString<LsT>> {
   }
   template <typename ClassT>
   void addGetitem(ClassT& c) const {
-    c.def("__getitem__", wrappers::getItem<LsT>, return_internal_reference<>());
+    // by value: a reference into the linestring would dangle as soon as points are added or removed
+    c.def("__getitem__", wrappers::getItem<LsT>, return_value_policy<return_by_value>());
   }
 };
 
-- 
2.43.0


From 4d15ccf93fb31b243d3ccbac3737d096b074ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 43/68] fix: python: points can be divided in python 3

---
 lanelet2_python/python_api/core.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 7e9bfc2..5576b1a 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -511,6 +511,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint2d, double>)
       .def("__rmul__", mulWrapper<BasicPoint2d, double>)
       .def("__div__", divWrapper<BasicPoint2d, double>)
+      .def("__truediv__", divWrapper<BasicPoint2d, double>)
       .def(
           "__repr__", +[](BasicPoint2d p) { return makeRepr("BasicPoint2d", p.x(), p.y()); })
       .def(self_ns::str(self_ns::self));
@@ -523,6 +524,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint2d, double>)
       .def("__rmul__", mulWrapper<BasicPoint2d, double>)
       .def("__div__", divWrapper<BasicPoint2d, double>)
+      .def("__truediv__", divWrapper<BasicPoint2d, double>)
       .def(
           "__repr__", +[](Eigen::Vector2d p) { return makeRepr("Vector2d", p.x(), p.y()); })
       .def(self_ns::str(self_ns::self));
@@ -539,6 +541,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint3d, double>)
       .def("__rmul__", mulWrapper<BasicPoint3d, double>)
       .def("__div__", divWrapper<BasicPoint3d, double>)
+      .def("__truediv__", divWrapper<BasicPoint3d, double>)
       .def(
           "__repr__", +[](BasicPoint3d p) { return makeRepr("BasicPoint3d", p.x(), p.y(), p.z()); })
       .def(self_ns::str(self_ns::self));
-- 
2.43.0


From 5f1450aa8533cef8a83e2c1d889f44a7c5f4db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 44/68] fix: python: the constructor of SpeedLimit makes speed
 limits

---
 lanelet2_python/python_api/core.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 5576b1a..d117068 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1390,7 +1390,10 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<SpeedLimit, boost::noncopyable, std::shared_ptr<SpeedLimit>, bases<TrafficSign>>(  // NOLINT
       "SpeedLimit", "A speed limit regulatory element. This is a special case of a traffic sign regulatory element.",
       no_init)
-      .def("__init__", make_constructor(&TrafficSign::make, default_call_policies(),
+      .def("__init__", make_constructor(static_cast<SpeedLimit::Ptr (*)(Id, const AttributeMap&, const TrafficSignsWithType&,
+                                                                        const TrafficSignsWithType&, const LineStrings3d&,
+                                                                        const LineStrings3d&)>(&SpeedLimit::make),
+                                        default_call_policies(),
                                         (arg("id"), arg("attributes"), arg("trafficSigns"),
                                          arg("cancellingTrafficSigns") = TrafficSignsWithType{},
                                          arg("refLines") = LineStrings3d(), arg("cancelLines") = LineStrings3d())))
-- 
2.43.0


From f19302874e6edc7dfd96974bb240d6221a8f244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 45/68] fix: python: ConstLaneletWithStopLine can be
 constructed

---
 lanelet2_python/python_api/core.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index d117068..c7190dc 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -695,6 +695,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .fromPython<ConstLineStringsOrPolygons3d>();
 
   ToOptionalConverter().fromPython<LineString3d>();
+  ToOptionalConverter().fromPython<ConstLineString3d>();
 
   to_python_converter<LineStringOrPolygon3d, LineStringOrPolygonToObject>();
   to_python_converter<ConstLineStringOrPolygon3d, ConstLineStringOrPolygonToObject>();
-- 
2.43.0


From b3ef730916271e93e1724b9cba8f163745388a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 46/68] fix: python: id and attributes of LineString2d can be
 set

---
 lanelet2_python/python_api/core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index c7190dc..571065c 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -834,7 +834,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
           +[](LineString2d& ls) {
             return makeRepr("LineString2d", ls.id(), repr(list(ls)), repr(ls.attributes()));
           })
-      .def(IsLineString<LineString2d>());
+      .def(IsLineString<LineString2d>())
+      .def(IsPrimitive<LineString2d>());
 
   class_<ConstLineString3d>("ConstLineString3d",
                             "Immutable 3d lineString primitive. They cannot be created directly, but "
-- 
2.43.0


From 276ae4c6d6311b3f7ff29dffffa9a4ef13bcb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 47/68] fix: python: attribute values are not truncated at NUL
 and do not leak

---
 lanelet2_python/python_api/core.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 571065c..056416b 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -119,14 +119,12 @@ struct AttributeFromPythonStr {
 
   static void construct(PyObject* objPtr, boost::python::converter::rvalue_from_python_stage1_data* data) {
 #if PY_MAJOR_VERSION < 3
-    const char* value = PyString_AsString(objPtr);
+    boost::python::handle<> pyStr(boost::python::borrowed(objPtr));
+    const std::string value(PyString_AS_STRING(pyStr.get()), PyString_GET_SIZE(pyStr.get()));
 #else
-    auto* pyStr = PyUnicode_AsUTF8String(objPtr);
-    const char* value = PyBytes_AsString(pyStr);
+    boost::python::handle<> pyStr(PyUnicode_AsUTF8String(objPtr));  // throws if the string can not be encoded
+    const std::string value(PyBytes_AS_STRING(pyStr.get()), PyBytes_GET_SIZE(pyStr.get()));
 #endif
-    if (value == nullptr) {
-      boost::python::throw_error_already_set();
-    }
     using StorageType = boost::python::converter::rvalue_from_python_storage<Attribute>;
     void* storage = reinterpret_cast<StorageType*>(data)->storage.bytes;  // NOLINT
     new (storage) Attribute(value);
-- 
2.43.0


From d409619f15614da493ef3f32b3a80eaa6f37fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 48/68] fix: python: SpeedLimitInformation can be constructed
 from a velocity in m/s

---
 lanelet2_python/python_api/traffic_rules.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lanelet2_python/python_api/traffic_rules.cpp b/lanelet2_python/python_api/traffic_rules.cpp
index 936f74a..4ed9a2f 100644
--- a/lanelet2_python/python_api/traffic_rules.cpp
+++ b/lanelet2_python/python_api/traffic_rules.cpp
@@ -9,8 +9,9 @@ using namespace boost::python;
 using namespace lanelet;
 using namespace lanelet::traffic_rules;
 
-SpeedLimitInformation makeSpeedLimit(double speedLimitKph, bool isMandatory) {
-  return SpeedLimitInformation{Velocity(speedLimitKph * units::KmH()), isMandatory};
+std::shared_ptr<SpeedLimitInformation> makeSpeedLimit(double speedLimitMps, bool isMandatory) {
+  return std::make_shared<SpeedLimitInformation>(
+      SpeedLimitInformation{Velocity(speedLimitMps * units::MPS()), isMandatory});
 }
 
 double getVelocity(const SpeedLimitInformation& self) { return units::KmHQuantity(self.speedLimit).value(); }
@@ -54,7 +55,9 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   auto core = import("lanelet2.core");
 
   class_<SpeedLimitInformation>("SpeedLimitInformation", "Current speed limit as returned by a traffic rule object")
-      .def("__init__", makeSpeedLimit, (arg("speedLimitMPS"), arg("isMandatory") = true),
+      .def("__init__",
+           make_constructor(makeSpeedLimit, default_call_policies(),
+                            (arg("speedLimitMPS"), arg("isMandatory") = true)),
            "Initialize from speed limit [m/s] and bool if speedlimit is "
            "mandatory")
       .add_property("speedLimit", getVelocity, setVelocity, "velocity in km/h")
-- 
2.43.0


From 0c8c7bf71fc69874e07e08b5d6b1ea429451f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 49/68] fix: python: Origin can be constructed with keyword alt

---
 lanelet2_python/python_api/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/io.cpp b/lanelet2_python/python_api/io.cpp
index 4651d85..d12645d 100644
--- a/lanelet2_python/python_api/io.cpp
+++ b/lanelet2_python/python_api/io.cpp
@@ -70,7 +70,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            +[](double lat, double lon, double alt) {
                              return std::make_shared<Origin>(GPSPoint{lat, lon, alt});
                            },
-                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("lon") = 0)))
+                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("alt") = 0)))
       .def_readwrite("position", &Origin::position);
 
   py::def("load", loadProjectorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()));
-- 
2.43.0


From 3254918c9bd966015316b0c504549f49c0e50157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 50/68] fix: python: loadRobust can be called with keywords

---
 lanelet2_python/python_api/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/io.cpp b/lanelet2_python/python_api/io.cpp
index d12645d..c2b8359 100644
--- a/lanelet2_python/python_api/io.cpp
+++ b/lanelet2_python/python_api/io.cpp
@@ -75,7 +75,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   py::def("load", loadProjectorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()));
   py::def("load", loadWrapper, (py::arg("filename"), py::arg("origin")));
-  py::def("loadRobust", loadWithErrorWrapper, py::arg("filename"),
+  py::def("loadRobust", loadWithErrorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()),
       "Loads a map robustly. Parser errors are returned as second member of "
       "the tuple. If there are errors, the map will be incomplete somewhere.");
 
-- 
2.43.0


From c7f85e8f88a93fd8654d0d7e1f851de88c784216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 51/68] fix: python: intersects2d for two dimensional boxes

---
 lanelet2_python/python_api/geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/geometry.cpp b/lanelet2_python/python_api/geometry.cpp
index d3d9cec..ace3a26 100644
--- a/lanelet2_python/python_api/geometry.cpp
+++ b/lanelet2_python/python_api/geometry.cpp
@@ -364,7 +364,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
         return lg::intersects(utils::toHybrid(ls1), utils::toHybrid(ls2));
       });
   def("intersects2d", lg::intersects<ConstHybridPolygon2d, ConstHybridPolygon2d>);
-  def("intersects2d", lg::intersects<BoundingBox3d, BoundingBox3d>);
+  def("intersects2d", lg::intersects<BoundingBox2d, BoundingBox2d>);
   def("intersects2d", lg::intersects2d<ConstLanelet, ConstLanelet>);
   def("intersects2d", lg::intersects2d<ConstArea, ConstArea>);
 
-- 
2.43.0


From c0c229de4d82eadc449e49c671027769a8bd1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 52/68] fix: python: the hull of objects for matching can be
 set

---
 lanelet2_python/python_api/matching.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/matching.cpp b/lanelet2_python/python_api/matching.cpp
index 1fab969..3b72781 100644
--- a/lanelet2_python/python_api/matching.cpp
+++ b/lanelet2_python/python_api/matching.cpp
@@ -134,7 +134,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            (arg("objectId") = lanelet::InvalId, arg("pose") = Pose2d::Identity(),
                             arg("absoluteHull") = boost::python::list())))
       .add_property(
-          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; }, &hullFromList,
+          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; },
+          +[](Object2d& self, const boost::python::list& hull) { self.absoluteHull = hullFromList(hull); },
           "hull in absolute coordinates (not relative to the object's pose)")
       .def_readwrite("pose", &Object2d::pose)
       .def_readwrite("objectId", &Object2d::objectId);
-- 
2.43.0


From 56d995034645e7c0478d32cb7445ebe8cea89b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 53/68] fix: python: possiblePaths can be called with keywords

---
 lanelet2_python/python_api/routing.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 712c229..8b02606 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -295,14 +295,12 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("reachableSetTowards", &RoutingGraph::reachableSetTowards, "set of lanelets that can reach a given lanelet",
            (arg("lanelet"), arg("maxRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = true))
       .def("possiblePaths", possPCost, "possible paths from a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePaths", possPParam, "possible paths from a given start lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsTowards", possPToCost,
            "possible paths to a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePathsTowards", possPToParam, "possible paths to a given lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsMinLen", possPLen, "possible routes from a given start lanelet that are 'minLanelets'-long",
-- 
2.43.0


From 268a978c088099682b718560adac14d87494d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 54/68] fix: python: the number of holes of a ConstArea can be
 queried

---
 lanelet2_python/python_api/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 056416b..f89b8e7 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1130,7 +1130,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<ConstInnerBounds>("ConstInnerBounds", "An immutable list-like type to hold of inner boundaries of an Area",
                            no_init)
       .def("__iter__", iterator<ConstInnerBounds>())
-      .def("__len__", &InnerBounds::size, "Number of holes")
+      .def("__len__", &ConstInnerBounds::size, "Number of holes")
       .def("__getitem__", wrappers::getItem<ConstInnerBounds>, return_value_policy<return_by_value>())
       .def("__repr__", +[](const ConstInnerBounds& b) { return repr(list(b)); });
 
-- 
2.43.0


From eeb966301ad1e357cf46cf61a63ece2179117b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 55/68] fix: python: the signs of TrafficSignsWithType can be
 read

---
 lanelet2_python/python_api/core.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index f89b8e7..f2a402e 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1333,7 +1333,9 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
              return std::make_shared<TrafficSignsWithType>(TrafficSignsWithType{std::move(ls), std::move(type)});
            }),
            "Construct from a Linestring/Polygon with an explicit type")
-      .def_readwrite("trafficSigns", &TrafficSignsWithType::trafficSigns)
+      .add_property("trafficSigns",
+                    make_getter(&TrafficSignsWithType::trafficSigns, return_value_policy<return_by_value>()),
+                    make_setter(&TrafficSignsWithType::trafficSigns))
       .def_readwrite("type", &TrafficSignsWithType::type);
 
   class_<TrafficSign, boost::noncopyable, std::shared_ptr<TrafficSign>, bases<RegulatoryElement>>(
-- 
2.43.0


From e878eec1b71b0800b2e5af3c6138b3d1446a16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 56/68] fix: python: changes to the holes of an area reach the
 polygons of the holes

---
 lanelet2_python/python_api/core.cpp | 48 +++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index f2a402e..0dde44f 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -65,6 +65,18 @@ std::string makeLaneletRepr(const std::string& displayName, bool withRegelems, L
                   repr(llt.attributes()));
 }
 
+// The holes of an area. Changes go through the area, because more than the bounds depends on them
+struct AreaInnerBounds {
+  Area area;
+  const InnerBounds& get() { return area.innerBounds(); }
+  template <typename FuncT>
+  void modify(FuncT f) {
+    auto bounds = area.innerBounds();
+    f(bounds);
+    area.setInnerBounds(bounds);
+  }
+};
+
 template <typename AreaT>
 std::string makeAreaRepr(const std::string& displayName, bool withRegelems, AreaT& area) {
   if (withRegelems) {
@@ -621,6 +633,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   VectorToListConverter<ConstRuleParameters>();
   VectorToListConverter<RegulatoryElementPtrs>();
   VectorToListConverter<RegulatoryElementConstPtrs>();
+  VectorToListConverter<InnerBounds>();
   VectorToListConverter<LineStringsOrPolygons3d>();
   VectorToListConverter<ConstLineStringsOrPolygons3d>();
   VectorToListConverter<ConstLaneletOrAreas>();
@@ -1134,16 +1147,28 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__getitem__", wrappers::getItem<ConstInnerBounds>, return_value_policy<return_by_value>())
       .def("__repr__", +[](const ConstInnerBounds& b) { return repr(list(b)); });
 
-  class_<InnerBounds>("InnerBounds", "A list-like type to hold of inner boundaries of an Area", no_init)
-      .def("__setitem__", wrappers::setItem<InnerBounds, LineStrings3d>)
-      .def("__delitem__", wrappers::delItem<InnerBounds>)
+  class_<AreaInnerBounds>("InnerBounds", "A list-like type to hold of inner boundaries of an Area", no_init)
       .def(
-          "append", +[](InnerBounds& self, LineStrings3d ls) { self.push_back(std::move(ls)); }, "Appends a new hole",
-          arg("hole"))
-      .def("__iter__", iterator<InnerBounds>())
-      .def("__len__", &InnerBounds::size, "Number of holes")
-      .def("__getitem__", wrappers::getItem<InnerBounds>, return_value_policy<return_by_value>())
-      .def("__repr__", +[](const InnerBounds& b) { return repr(list(b)); });
+          "__setitem__", +[](AreaInnerBounds& self, int64_t index, LineStrings3d ls) {
+            self.modify([&](InnerBounds& b) { wrappers::setItem(b, index, std::move(ls)); });
+          })
+      .def(
+          "__delitem__", +[](AreaInnerBounds& self, int64_t index) {
+            self.modify([&](InnerBounds& b) { wrappers::delItem(b, index); });
+          })
+      .def(
+          "append",
+          +[](AreaInnerBounds& self, LineStrings3d ls) {
+            self.modify([&](InnerBounds& b) { b.push_back(std::move(ls)); });
+          },
+          "Appends a new hole", arg("hole"))
+      .def("__iter__", +[](AreaInnerBounds& self) { return object(self.get()).attr("__iter__")(); })
+      .def("__len__", +[](AreaInnerBounds& self) { return self.get().size(); }, "Number of holes")
+      .def(
+          "__getitem__", +[](AreaInnerBounds& self, int64_t index) -> LineStrings3d {
+            return wrappers::getItem(self.get(), index);
+          })
+      .def("__repr__", +[](AreaInnerBounds& self) { return repr(object(self.get())); });
 
   class_<ConstArea>(
       "ConstArea",
@@ -1185,10 +1210,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
           "The outer boundary, a list of clockwise oriented linestrings")
       .add_property(
           "innerBounds",
-          make_function(
-              // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
-              +[](Area& self) -> InnerBounds& { return const_cast<InnerBounds&>(self.innerBounds()); },
-              return_internal_reference<>()),
+          +[](Area& self) { return AreaInnerBounds{self}; },
           +[](Area& self, const InnerBounds& lss) { self.setInnerBounds(lss); },
           "The inner boundaries (holes), a list of a list of counter-clockwise oriented linestrings")
       .add_property(
-- 
2.43.0


From 167b036b2b9c62404ff455f445382d6ce7670660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 57/68] fix: python: findUsages finds the usages of every kind
 of regulatory element

---
 lanelet2_python/python_api/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 0dde44f..f7397c8 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1431,14 +1431,14 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   wrapLayer<AreaLayer, bases<PrimitiveLayer<Area>>>("AreaLayer")
       .def(
-          "findUsages", +[](AreaLayer& self, RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
+          "findUsages", +[](AreaLayer& self, const RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
           "Find areas with this regulatory element")
       .def(
           "findUsages", +[](AreaLayer& self, ConstLineString3d& ls) { return self.findUsages(ls); }, arg("ls"),
           "Find areas with this linestring");
   wrapLayer<LaneletLayer, bases<PrimitiveLayer<Lanelet>>>("LaneletLayer")
       .def(
-          "findUsages", +[](LaneletLayer& self, RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
+          "findUsages", +[](LaneletLayer& self, const RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
           "Find lanelets with this regualtory element")
       .def(
           "findUsages", +[](LaneletLayer& self, ConstLineString3d& ls) { return self.findUsages(ls); }, arg("ls"),
-- 
2.43.0


From 3bb24847ae3af4c43acdd8a9df291ce6c95d2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 58/68] fix: python: BasicPoint2d() is the origin

---
 lanelet2_python/python_api/core.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index f7397c8..6d8cd9b 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -513,7 +513,6 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__repr__", &ReprWrapper::operator(), "Returns the string representation of this object");
 
   class_<BasicPoint2d>("BasicPoint2d", "A simple 2D point", init<double, double>((arg("x") = 0., arg("y") = 0.)))
-      .def(init<>("BasicPoint2d()"))
       .add_property("x", getXWrapper<BasicPoint2d>, setXWrapper<BasicPoint2d>, "x coordinate")
       .add_property("y", getYWrapper<BasicPoint2d>, setYWrapper<BasicPoint2d>, "y coordinate")
       .def("__add__", addWrapper<BasicPoint2d>)
-- 
2.43.0


From 6808a3e0397ec753ee4485927b407d86bf7f94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:35 +0000
Subject: [PATCH 59/68] fix: python: lanelet or area of
 LaneletOrAreaVisitInformation can be read

---
 lanelet2_python/python_api/routing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 8b02606..497a9c8 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -208,10 +208,12 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<LaneletOrAreaVisitInformation>(
       "LaneletOrAreaVisitInformation",
       "Object passed as input for the forEachSuccessorIncludingAreas function of the routing graph")
-      .def_readwrite("laneletOrArea", &LaneletOrAreaVisitInformation::laneletOrArea,
-                     "the currently visited lanelet/area")
-      .def_readwrite("predecessor", &LaneletOrAreaVisitInformation::predecessor,
-                     "the predecessor within the shortest path")
+      .add_property("laneletOrArea",
+                    make_getter(&LaneletOrAreaVisitInformation::laneletOrArea, return_value_policy<return_by_value>()),
+                    make_setter(&LaneletOrAreaVisitInformation::laneletOrArea), "the currently visited lanelet/area")
+      .add_property("predecessor",
+                    make_getter(&LaneletOrAreaVisitInformation::predecessor, return_value_policy<return_by_value>()),
+                    make_setter(&LaneletOrAreaVisitInformation::predecessor), "the predecessor within the shortest path")
       .def_readwrite("length", &LaneletOrAreaVisitInformation::length,
                      "The length of the shortest path to this lanelet (including lanelet")
       .def_readwrite("cost", &LaneletOrAreaVisitInformation::cost, "The cost along the shortest path")
-- 
2.43.0


From 2cef70d98391b6738027388595d55c8e6a855b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 60/68] fix: python: the covariance of new
 ObjectWithCovariance2d is initialised

---
 lanelet2_python/python_api/matching.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/matching.cpp b/lanelet2_python/python_api/matching.cpp
index 3b72781..225ff46 100644
--- a/lanelet2_python/python_api/matching.cpp
+++ b/lanelet2_python/python_api/matching.cpp
@@ -164,7 +164,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            default_call_policies(),
                            (arg("objectId") = lanelet::InvalId, arg("pose") = Pose2d::Identity(),
                             arg("absoluteHull") = boost::python::list(),
-                            arg("positionCovariance") = PositionCovariance2d(), arg("vonMisesKappa") = 0.)))
+                            arg("positionCovariance") = PositionCovariance2d(PositionCovariance2d::Zero()),
+                             arg("vonMisesKappa") = 0.)))
       .def_readwrite("vonMisesKappa", &ObjectWithCovariance2d::vonMisesKappa)
       .def_readwrite("positionCovariance", &ObjectWithCovariance2d::positionCovariance);
 
-- 
2.43.0


From 37d6d561185a1f3f06c2b9c29ceac1755652ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 61/68] fix: give every line of a route's debug map an id of
 its own

Without an id all but one of them got lost when the map was created.
---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index e906a90..ab4ca6e 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -59,7 +59,7 @@ void addRelation(std::map<DebugEdge, LineString3d>& edgeMap, std::map<Id, Point2
     if (toPointIt == vertexMap.end()) {
       toPointIt = createAndAddPoint(vertexMap, to);
     }
-    LineString2d lineString;
+    LineString2d lineString(utils::getId());
     lineString.push_back(fromPointIt->second);
     lineString.push_back(toPointIt->second);
     lineStringMapIt = edgeMap.emplace(orderedPair, LineString3d(lineString)).first;
-- 
2.43.0


From 36a487367aff84a34c32a977b4531748fd80c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 62/68] fix: show lanelets without relations in a route's debug
 map

A route of a single lanelet was shown as a point without id and position.
---
 lanelet2_routing/src/Route.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index ab4ca6e..19be7f5 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -208,6 +208,7 @@ LaneletMapPtr Route::getDebugLaneletMap() const {
     addRelation(edgeMap, vertexMap, g[boost::source(e, g)], g[boost::target(e, g)], g[e].relation);
   };
   for (auto v : graph_->get().vertex_set()) {
+    createAndAddPoint(vertexMap, g[v]);  // also for lanelets without relations
     auto outEdges = boost::out_edges(v, graph_->get());
     std::for_each(outEdges.first, outEdges.second, addEdge);
   }
-- 
2.43.0


From 226defd0d06dd0e685ed6674d9695f5e0c50c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 63/68] fix: one point per bidirectional lanelet in the graph's
 debug map

Both directions had a point with the same id, so that lines referred to points that are not in the map.
---
 lanelet2_routing/src/RoutingGraph.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraph.cpp b/lanelet2_routing/src/RoutingGraph.cpp
index 057db0b..2ab96dc 100644
--- a/lanelet2_routing/src/RoutingGraph.cpp
+++ b/lanelet2_routing/src/RoutingGraph.cpp
@@ -815,9 +815,9 @@ class DebugMapBuilder {
   }
 
   void addPoint(const ConstLaneletOrArea& point) {
-    auto inMap = pointMap_.find(point);
+    auto inMap = pointMap_.find(point.id());
     if (inMap == pointMap_.end()) {
-      pointMap_.emplace(point, createPoint<Point2d>(point));
+      pointMap_.emplace(point.id(), createPoint<Point2d>(point));
     }
   }
 
@@ -829,8 +829,8 @@ class DebugMapBuilder {
       inMap->second.setAttribute("routing_cost_reverse", std::to_string(edge.routingCost));
 
     } else {
-      auto pFrom = pointMap_.at(from);
-      auto pTo = pointMap_.at(to);
+      auto pFrom = pointMap_.at(from.id());
+      auto pTo = pointMap_.at(to.id());
       LineString3d lineString3d{createLineString(pFrom, pTo, edge.relation, edge.routingCost)};
       lineStringMap_.emplace(pair, lineString3d);
     }
@@ -838,7 +838,7 @@ class DebugMapBuilder {
 
   FilteredRoutingGraph graph_;
   std::unordered_map<LaneletOrAreaPair, LineString3d> lineStringMap_;  // Stores all relations
-  std::unordered_map<ConstLaneletOrArea, Point2d> pointMap_;           // Stores all 'edges'
+  std::unordered_map<Id, Point2d> pointMap_;                           // Stores all 'edges'
 };
 
 LaneletMapPtr RoutingGraph::getDebugLaneletMap(RoutingCostId routingCostId, bool includeAdjacent,
-- 
2.43.0


From 6dfa6ddd44542981c26ff1ab7dc188f6960f5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 64/68] fix: report graph exports that could not be written
 completely

---
 .../lanelet2_routing/internal/RoutingGraphVisualization.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
index 9ddcf15..e7f0361 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
@@ -75,6 +75,9 @@ inline void exportGraphVizImpl(const std::string& filename, const G& g, E edgeFi
   boost::write_graphviz(file, fg, vertexWriter, edgeWriter);
 
   file.close();
+  if (!file) {
+    throw lanelet::ExportError("Could not write to file at " + filename + ".");
+  }
 }
 
 /** @brief GraphViz export function
@@ -115,6 +118,11 @@ inline void exportGraphMLImpl(const std::string& filename, const G& g, E eFilter
   dp.property("routingCost", pmRoutingCosts);
 
   boost::write_graphml(file, filteredGraph, dp, false);
+
+  file.close();
+  if (!file) {
+    throw lanelet::ExportError("Could not write to file at " + filename + ".");
+  }
 }
 
 /** @brief GraphML export function
-- 
2.43.0


From 29813a7167330ec004fdafed567a7b9765ecd821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 65/68] fix: print_ids.py --has-id raised TypeError for ids
 that are not in the map

---
 lanelet2_python/scripts/print_ids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/scripts/print_ids.py b/lanelet2_python/scripts/print_ids.py
index dca9c49..74eef78 100755
--- a/lanelet2_python/scripts/print_ids.py
+++ b/lanelet2_python/scripts/print_ids.py
@@ -30,4 +30,4 @@ for layer_name, layer in layers.items():
                 print("Found ID " + str(elem.id) + " in layer " + layer_name)
                 sys.exit(0)
 if args.has_id:
-    print("ID " + args.has_id + " not in map")
+    print("ID " + str(args.has_id) + " not in map")
-- 
2.43.0


From f9496df2835eff5d18dec8d7ab39c0fa402278b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:21 +0000
Subject: [PATCH 66/68] fix: IO handlers kept a pointer to their configuration

A handler made by one of the factories without a configuration kept a pointer to a default argument that was gone when
the handler asked for its configuration.
---
 .../include/lanelet2_io/io_handlers/IoHandler.h    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h b/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h
index 849e4df..686821e 100644
--- a/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h
+++ b/lanelet2_io/include/lanelet2_io/io_handlers/IoHandler.h
@@ -14,7 +14,7 @@ class IOHandler {  // NOLINT
  public:
   using Ptr = std::shared_ptr<IOHandler>;
   explicit IOHandler(const Projector& projector, const io::Configuration& config = io::Configuration())
-      : projector_{&projector}, config_{&config} {}
+      : projector_{&projector}, config_(config) {}
   virtual ~IOHandler() = default;
 
   /**
@@ -38,17 +38,17 @@ class IOHandler {  // NOLINT
     return *projector_;
   }
 
-  io::Configuration config() { return *config_; }
+  io::Configuration config() { return config_; }
 
  protected:
   IOHandler() = default;  // workaround for gcc5 bug
 
  private:
-  const Projector* projector_{};       //!< projection object for lat/lon
-                                       //!< from/to x/y conversions
-  const io::Configuration* config_{};  //!< config object for additional parameters.
-                                       //! Parser should always use default parameters
-                                       //! if parameters are missing
+  const Projector* projector_{};  //!< projection object for lat/lon
+                                  //!< from/to x/y conversions
+  io::Configuration config_;      //!< config object for additional parameters.
+                                  //! Parser should always use default parameters
+                                  //! if parameters are missing
 
   //! using a default projector is not allowed. The implementations define how this issue is handled.
   virtual void handleDefaultProjector() const = 0;
-- 
2.43.0


From a24dc023883740f1f3b1ab66b3393c5f70132c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 67/68] fix: OSM relations with different members of the same
 type compared equal

---
 lanelet2_io/src/OsmFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 55df1bf..ea5cbb5 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -327,7 +327,7 @@ bool operator==(const Way& lhs, const Way& rhs) {
 bool operator==(const Relation& lhs, const Relation& rhs) {
   auto membersEqual = [&lhs, &rhs]() {
     for (auto itL = lhs.members.begin(), itR = rhs.members.begin(); itL != lhs.members.end(); ++itL, ++itR) {
-      if (itL->second->type() != itR->second->type() && itL->second->id != itR->second->id) {
+      if (itL->second->type() != itR->second->type() || itL->second->id != itR->second->id) {
         return false;
       }
     }
-- 
2.43.0


From b597d1ea31b346c0fe2a15349e95dd47b45689f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 68/68] fix: attributes named ele of line strings, lanelets and
 others were lost in OSM files

---
 lanelet2_io/src/OsmFile.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index ea5cbb5..84bde47 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -43,9 +43,6 @@ Attributes tags(const pugi::xml_node& node) {
   Attributes attributes;
   for (auto tag = node.child(keyword::Tag); tag;  // NOLINT
        tag = tag.next_sibling(keyword::Tag)) {
-    if (std::string(tag.attribute(keyword::Key).value()) == keyword::Elevation) {
-      continue;
-    }
     attributes[tag.attribute(keyword::Key).value()] = tag.attribute(keyword::Value).value();
   }
   return attributes;
@@ -210,7 +207,8 @@ class OsmFileParser {
         continue;
       }
       const auto id = node.attribute(keyword::Id).as_llong(InvalId);
-      const auto attributes = tags(node);
+      auto attributes = tags(node);
+      attributes.erase(keyword::Elevation);  // part of the point
       const auto lat = node.attribute(keyword::Lat).as_double(0.);
       const auto lon = node.attribute(keyword::Lon).as_double(0.);
       const auto ele = node.find_child_by_attribute(keyword::Tag, keyword::Key, keyword::Elevation)
-- 
2.43.0

