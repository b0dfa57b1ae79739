From 8ebdc005acf498c4588a45be033d28bb21e7358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 01/39] fix: report failing writes of binary maps instead of
 ignoring them

---
 lanelet2_io/src/BinHandler.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 8d22edc..685c6db 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -23,10 +23,21 @@ void BinWriter::write(const std::string& filename, const LaneletMap& laneletMap,
   if (!fs.good()) {
     throw ParseError("Failed open archive " + filename);
   }
-  boost::archive::binary_oarchive oa(fs);
-  oa << laneletMap;
-  auto idCounter = utils::getId();
-  oa << idCounter;
+  try {
+    boost::archive::binary_oarchive oa(fs);
+    oa << laneletMap;
+    auto idCounter = utils::getId();
+    oa << idCounter;
+    fs.flush();
+  } catch (boost::archive::archive_exception& e) {
+    throw WriteError("Failed to write archive " + filename + ": " + e.what());
+  }
+  if (fs.good()) {
+    fs.close();
+  }
+  if (!fs.good()) {
+    throw WriteError("Failed to write archive " + filename);
+  }
 }
 
 std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorMessages& /*errors*/) const {
-- 
2.43.0


From abba47335ef7e75ee091a3c15d8be1da3519eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 02/39] fix: hand the locale warning of the osm handlers to the
 caller instead of overwriting it

---
 lanelet2_io/src/OsmHandlerLoad.cpp  | 2 +-
 lanelet2_io/src/OsmHandlerWrite.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 4e1f6a6..f501d50 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -427,8 +427,8 @@ std::unique_ptr<LaneletMap> OsmParser::parse(const std::string& filename, ErrorM
     throw lanelet::ParseError("Errors occured while parsing osm file: "s + result.description());
   }
   osm::Errors osmReadErrors;
-  testAndPrintLocaleWarning(osmReadErrors);
   auto file = lanelet::osm::read(doc, &osmReadErrors);
+  testAndPrintLocaleWarning(osmReadErrors);  // after read, which resets the errors
   auto map = fromOsmFile(file, errors);
   // make sure ids in the file are known to Lanelet2 id management.
   registerIds(file.nodes);
diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index a397ea4..ffacd43 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -297,8 +297,8 @@ void testAndPrintLocaleWarning(ErrorMessages& errors) {
 }  // namespace
 
 void OsmWriter::write(const std::string& filename, const LaneletMap& laneletMap, ErrorMessages& errors, const io::Configuration& params) const {
-  testAndPrintLocaleWarning(errors);
   auto file = toOsmFile(laneletMap, errors, params);
+  testAndPrintLocaleWarning(errors);  // after toOsmFile, which resets the errors
   auto doc = osm::write(*file, params);
   auto res = doc->save_file(filename.c_str(), "  ");
   if (!res) {
-- 
2.43.0


From 173cfca58cfad356ff37546d3c7e9b6cf36bec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 03/39] fix: report failing writes of routing graph exports

---
 .../lanelet2_routing/internal/RoutingGraphVisualization.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
index 9ddcf15..0d3e2dd 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
@@ -75,6 +75,9 @@ inline void exportGraphVizImpl(const std::string& filename, const G& g, E edgeFi
   boost::write_graphviz(file, fg, vertexWriter, edgeWriter);
 
   file.close();
+  if (!file.good()) {
+    throw lanelet::ExportError("Could not write file at " + filename + ".");
+  }
 }
 
 /** @brief GraphViz export function
@@ -115,6 +118,11 @@ inline void exportGraphMLImpl(const std::string& filename, const G& g, E eFilter
   dp.property("routingCost", pmRoutingCosts);
 
   boost::write_graphml(file, filteredGraph, dp, false);
+
+  file.close();
+  if (!file.good()) {
+    throw lanelet::ExportError("Could not write file at " + filename + ".");
+  }
 }
 
 /** @brief GraphML export function
-- 
2.43.0


From fdab2eb7908a53224fd96efb3f00161c1f09a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 04/39] fix: report truncated or unreadable binary maps as
 ParseError

---
 lanelet2_io/src/BinHandler.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 685c6db..5d0839a 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -46,11 +46,17 @@ std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorM
     throw ParseError("Failed open archive " + filename);
   }
   std::unique_ptr<LaneletMap> laneletMap = std::make_unique<LaneletMap>();
-  boost::archive::binary_iarchive ia(fs);
-  ia >> *laneletMap;
-  Id idCounter = 0;
-  ia >> idCounter;
-  utils::registerId(idCounter);
+  try {
+    boost::archive::binary_iarchive ia(fs);
+    ia >> *laneletMap;
+    Id idCounter = 0;
+    ia >> idCounter;
+    utils::registerId(idCounter);
+  } catch (boost::archive::archive_exception& e) {
+    throw ParseError("Failed to read archive " + filename + ": " + e.what());
+  } catch (std::ios_base::failure& e) {
+    throw ParseError("Failed to read archive " + filename + ": " + e.what());
+  }
   return laneletMap;
 }
 }  // namespace io_handlers
-- 
2.43.0


From d03051282111d462b5544e1e136b025b189e78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 05/39] fix: report map files that cannot be accessed as
 FileNotFoundError

---
 lanelet2_io/src/Io.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lanelet2_io/src/Io.cpp b/lanelet2_io/src/Io.cpp
index 1a32a00..32dd252 100644
--- a/lanelet2_io/src/Io.cpp
+++ b/lanelet2_io/src/Io.cpp
@@ -11,6 +11,11 @@ namespace lanelet {
 namespace {
 std::string extension(const std::string& path) { return fs::path(path).extension().string(); }
 
+bool fileExists(const std::string& path) {
+  boost::system::error_code ec;  // an inaccessible file must not end in a boost exception
+  return fs::exists(fs::path(path), ec);
+}
+
 template <typename ExceptionT>
 void handleErrorsOrThrow(const ErrorMessages& errors, ErrorMessages* targetErrs) {
   if (targetErrs != nullptr) {
@@ -28,7 +33,7 @@ std::unique_ptr<LaneletMap> load(const std::string& filename, const Origin& orig
 
 std::unique_ptr<LaneletMap> load(const std::string& filename, const Projector& projector, ErrorMessages* errors,
                                  const io::Configuration& params) {
-  if (!fs::exists(fs::path(filename))) {
+  if (!fileExists(filename)) {
     throw FileNotFoundError("Could not find lanelet map under " + filename);
   }
   ErrorMessages err;
@@ -45,7 +50,7 @@ std::unique_ptr<LaneletMap> load(const std::string& filename, const std::string&
 
 std::unique_ptr<LaneletMap> load(const std::string& filename, const std::string& parserName, const Projector& projector,
                                  ErrorMessages* errors, const io::Configuration& params) {
-  if (!fs::exists(fs::path(filename))) {
+  if (!fileExists(filename)) {
     throw FileNotFoundError("Could not find lanelet map under " + filename);
   }
   ErrorMessages err;
-- 
2.43.0


From 03fca3d893e46eb9834325d25c2652c4ea80508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 06/39] fix: leave lanelets with an empty bound out of the
 routing graph instead of crashing

Building a routing graph (or validating a map file) read the front and back
of the bounds of every passable lanelet. A lanelet whose linestring could not
be loaded has empty bounds.
---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8d2c606..ba27d4a 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -107,8 +107,10 @@ ConstLanelets RoutingGraphBuilder::getPassableLanelets(const LaneletLayer& lanel
                                                        const traffic_rules::TrafficRules& trafficRules) {
   ConstLanelets llts;
   llts.reserve(lanelets.size());
-  std::copy_if(lanelets.begin(), lanelets.end(), std::back_inserter(llts),
-               [&trafficRules](const ConstLanelet& llt) { return trafficRules.canPass(llt); });
+  // a lanelet with an empty bound (e.g. its linestring was lost on loading) has neither begin nor end
+  std::copy_if(lanelets.begin(), lanelets.end(), std::back_inserter(llts), [&trafficRules](const ConstLanelet& llt) {
+    return !llt.leftBound().empty() && !llt.rightBound().empty() && trafficRules.canPass(llt);
+  });
   return llts;
 }
 
-- 
2.43.0


From 9037943620c24828cbe07b6b94b9e16bde8bdca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 07/39] fix: register the ids of all elements a map or layer is
 constructed from

Only areas were registered, so ids drawn after createMap, or after loading a
binary map written by a process that never registered its ids, could collide
with elements of the map.
---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ad53b2f..291ed80 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -330,6 +330,7 @@ PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
@@ -338,6 +339,7 @@ PrimitiveLayer<Lanelet>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
-- 
2.43.0


From 4737e92d2aae74bd6dbb440178032d94fb88c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 08/39] fix: let the attribute cache survive concurrent reads
 and never change answers

The as.. functions returned a value through a raw pointer into the cache after
having dropped their reference to it, so another thread that replaced the cache
freed it under them. Replacing the cache also made answers depend on what had
been asked before (Attribute(1e-9).asDouble() after asVelocity()).
---
 .../include/lanelet2_core/Attribute.h         |  4 +-
 lanelet2_core/src/Attribute.cpp               | 46 ++++++++++---------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index 6319eda..f32e36b 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -26,7 +26,7 @@ struct ValueOf<Optional<ValueT>> {
     *
     * They are internally represented as strings but can be interpreted as numbers.
     *
-    * The result of the last as... is cached, therefore repeated calls to the same
+    * The result of the first as... is cached, therefore repeated calls to the same
     * as.. function are very cheap.
     */
 class Attribute {
@@ -103,7 +103,7 @@ class Attribute {
 
  private:
   std::string value_;                     //!< internal value of this parameter
-  mutable std::shared_ptr<Cache> cache_;  //!< cache for the last queried value
+  mutable std::shared_ptr<Cache> cache_;  //!< cache for the first queried value
 };
 
 template <>
diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index bac48c3..e4a5c77 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -29,20 +29,24 @@ Optional<Velocity> getUnit(const std::string& value, size_t pos) {
   return {};
 }
 
+//! Caches a value unless there already is one. A cached value is never replaced, otherwise the result of the as.. functions
+//! would depend on what has been asked for before.
 template <typename T>
 T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
-  auto newCache = std::make_shared<Attribute::Cache>(value);
-  std::atomic_store_explicit(&cache, newCache, std::memory_order_release);
+  std::shared_ptr<Attribute::Cache> empty;
+  std::atomic_compare_exchange_strong(&cache, &empty, std::make_shared<Attribute::Cache>(value));
   return value;
 }
 
+//! Returns a copy, because other threads might release the cache at any time
 template <typename T>
-T* load(const std::shared_ptr<Attribute::Cache>& cache) {
+Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
   auto c = std::atomic_load_explicit(&cache, std::memory_order_acquire);
-  if (!c) {
-    return nullptr;
+  auto* value = !c ? nullptr : boost::get<T>(&*c);
+  if (value == nullptr) {
+    return {};
   }
-  return boost::get<T>(&*cache);
+  return *value;
 }
 }  // namespace
 
@@ -60,9 +64,9 @@ Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQu
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-  auto* val = load<bool>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<bool>(cache_);
+  if (val) {
+    return val;
   }
   // need to compute value
   try {
@@ -80,9 +84,9 @@ Optional<bool> Attribute::asBool() const {
 
 Optional<double> Attribute::asDouble() const {
   // try load from cache
-  auto* val = load<double>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<double>(cache_);
+  if (val) {
+    return val;
   }
   // need to compute value
   try {
@@ -94,9 +98,9 @@ Optional<double> Attribute::asDouble() const {
 
 Optional<Id> Attribute::asId() const {
   // try load from cache
-  auto* val = load<Id>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<Id>(cache_);
+  if (val) {
+    return val;
   }
   // need to compute value
   try {
@@ -108,9 +112,9 @@ Optional<Id> Attribute::asId() const {
 
 Optional<int> Attribute::asInt() const {
   // try load from cache
-  auto* val = load<int>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<int>(cache_);
+  if (val) {
+    return val;
   }
   // need to compute value
   try {
@@ -122,9 +126,9 @@ Optional<int> Attribute::asInt() const {
 
 Optional<Velocity> Attribute::asVelocity() const {
   // try load from cache
-  auto* val = load<Velocity>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<Velocity>(cache_);
+  if (val) {
+    return val;
   }
   // need to compute value
   auto asD = asDouble();
-- 
2.43.0


From c61172475595695415c1b3b8feb1656b8e1240d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 09/39] fix: do not race with other readers when copying an
 attribute

Copying read the cache without synchronisation while the as.. functions of another
reader of the same const attribute might just be filling it.
---
 lanelet2_core/include/lanelet2_core/Attribute.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index f32e36b..34de58f 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -37,6 +37,15 @@ class Attribute {
   using Cache = boost::variant<bool, double, Id, int, Velocity>;
 
   Attribute() = default;
+  Attribute(const Attribute& rhs) : value_{rhs.value_}, cache_{std::atomic_load(&rhs.cache_)} {}
+  Attribute(Attribute&& rhs) = default;
+  Attribute& operator=(const Attribute& rhs) {
+    value_ = rhs.value_;
+    cache_ = std::atomic_load(&rhs.cache_);
+    return *this;
+  }
+  Attribute& operator=(Attribute&& rhs) = default;
+  ~Attribute() = default;
   Attribute(const std::string& value) : value_{value} {}        // NOLINT
   Attribute(std::string&& value) : value_{std::move(value)} {}  // NOLINT
   Attribute(const char* value) : value_(value) {}               // NOLINT
-- 
2.43.0


From b058d9fa4c65ad557bd3f092cbc08ba35f28124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 10/39] fix: update the 2d point of a changed point only once
 and synchronised

The 2d point is updated by the first const access after a coordinate was changed.
Two readers doing this at the same time raced with each other.
---
 .../include/lanelet2_core/primitives/Point.h  | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/Point.h b/lanelet2_core/include/lanelet2_core/primitives/Point.h
index f519920..b2378c2 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Point.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Point.h
@@ -6,6 +6,8 @@
 #endif
 #include <Eigen/Core>
 #pragma GCC diagnostic pop
+#include <cstring>
+#include <mutex>
 #include <utility>
 
 #include "lanelet2_core/Forward.h"
@@ -112,8 +114,8 @@ class PointData : public PrimitiveData {  // NOLINT
   PointData& operator=(PointData&&) = default;
   ~PointData() = default;
   const BasicPoint2d& point2d() const {
-    if (BOOST_UNLIKELY(point.head<2>() != point2d_)) {
-      point2d_ = point.head<2>();
+    if (BOOST_UNLIKELY(outdated(0) || outdated(1))) {
+      update2d();
     }
     return point2d_;
   }
@@ -121,6 +123,24 @@ class PointData : public PrimitiveData {  // NOLINT
   BasicPoint3d point;  // NOLINT(cppcoreguidelines-non-private-member-variables-in-classes)
 
  private:
+  // After a coordinate was changed, the 2d point is updated by whoever asks for it first. Multiple readers might do this at
+  // the same time, therefore each coordinate is written only once and only by one of them.
+  bool outdated(int idx) const {
+    double value{};
+    __atomic_load(point2d_.data() + idx, &value, __ATOMIC_ACQUIRE);
+    return std::memcmp(&value, point.data() + idx, sizeof(double)) != 0;
+  }
+  void update2d() const {
+    static std::mutex mutex;
+    std::lock_guard<std::mutex> lock(mutex);
+    for (auto idx : {0, 1}) {
+      if (outdated(idx)) {
+        double value = point[idx];
+        __atomic_store(point2d_.data() + idx, &value, __ATOMIC_RELEASE);
+      }
+    }
+  }
+
   mutable BasicPoint2d point2d_;
 };
 
-- 
2.43.0


From 0d93f13de0c127dfd3d1e24c5ccae0b90b0470d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 11/39] fix: findNearest for zero elements returns nothing
 instead of crashing

---
 lanelet2_core/src/LaneletMap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 291ed80..ec4b841 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -965,7 +965,10 @@ class NSmallestElements {
 };
 
 template <typename RetT, typename LayerT>
-auto findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
+std::vector<std::pair<double, RetT>> findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
+  if (count == 0) {
+    return {};
+  }
   // Idea: nearestUntil passes us elements with increasing bounding box
   // distance.
   // If this distance is greater than the actual distance (between primitives)
-- 
2.43.0


From 93eb44c372b352482ca06f2718de81193f5e6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 12/39] fix: report each lanelet and area only once in
 findUsagesInLanelets/Areas

---
 lanelet2_core/src/LaneletMap.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ec4b841..4b07b56 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -194,6 +194,12 @@ Optional<RetT> nearestUntilImpl(TreeT&& tree, const BasicPoint2d& point, const F
   return {};
 }
 
+template <typename T>
+void removeDuplicates(std::vector<T>& primitives) {
+  std::sort(primitives.begin(), primitives.end(), [](const T& lhs, const T& rhs) { return lhs.id() < rhs.id(); });
+  primitives.erase(std::unique(primitives.begin(), primitives.end()), primitives.end());
+}
+
 template <typename T>
 void checkId(T& t) {
   if (t.id() == InvalId) {
@@ -797,8 +803,7 @@ ConstLanelets findUsagesInLanelets(const LaneletMapLayers& map, const ConstPoint
   auto llts = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls); });
   auto lltsInv = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls.invert()); });
   llts.insert(llts.end(), lltsInv.begin(), lltsInv.end());
-  auto remove = std::unique(llts.begin(), llts.end());
-  llts.erase(remove, llts.end());
+  removeDuplicates(llts);
   return llts;
 }
 
@@ -807,8 +812,7 @@ ConstAreas findUsagesInAreas(const LaneletMapLayers& map, const ConstPoint3d& p)
   auto areas = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls); });
   auto areasInv = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls.invert()); });
   areas.insert(areas.end(), areasInv.begin(), areasInv.end());
-  auto remove = std::unique(areas.begin(), areas.end());
-  areas.erase(remove, areas.end());
+  removeDuplicates(areas);
   return areas;
 }
 
-- 
2.43.0


From 565f7e9dc4e0a1ff8f1098fecc1af903e68993b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 13/39] fix: RoutingGraph::routingRelation reports conflicts
 although they are excluded

---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0


From c21aa68ca6276a9eebac68a01735b74afb4d0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 14/39] fix: debug map of a route with a single lanelet lacks
 its point

---
 lanelet2_routing/src/Route.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..dadc7b1 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -213,7 +213,12 @@ LaneletMapPtr Route::getDebugLaneletMap() const {
   }
   // Mark shortest path
   for (const auto& el : shortestPath_) {
-    vertexMap[el.id()].setAttribute("shortest_path", true);
+    auto point = vertexMap.find(el.id());
+    if (point == vertexMap.end()) {
+      // the route consists of this lanelet only
+      point = createAndAddPoint(vertexMap, g[*graph_->getVertex(el)]);
+    }
+    point->second.setAttribute("shortest_path", true);
   }
   auto map = utils::createMap(utils::transform(edgeMap, [](auto& e) { return e.second; }));
   for (const auto& it : vertexMap) {
-- 
2.43.0


From 970543004e8023675d2d49e3f035823f255a9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 15/39] fix: Route::leftRelations/rightRelations crash for
 lanelets outside of the route

---
 lanelet2_routing/src/Route.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index dadc7b1..240b42c 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -272,6 +272,9 @@ Optional<LaneletRelation> Route::leftRelation(const ConstLanelet& lanelet) const
 LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
@@ -293,6 +296,9 @@ Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) cons
 LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-- 
2.43.0


From efb7d48b85ac2c2a42184aa09fd6d0c8592856f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 16/39] fix: lane change costs depend on the order of lanelets
 in the map

At merging and diverging lanelets, the lanelets passed to the routing costs of
a lane change depended on which lane change was visited first. If two lanelets
shared the same bound, only one of them could be reached by a lane change.
---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 92 +++++++++-----------
 1 file changed, 39 insertions(+), 53 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index ba27d4a..742c95d 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -4,6 +4,7 @@
 #include <lanelet2_core/geometry/Area.h>
 #include <lanelet2_core/geometry/Lanelet.h>
 
+#include <algorithm>
 #include <unordered_map>
 
 #include "lanelet2_routing/Exceptions.h"
@@ -19,65 +20,56 @@ inline IdPair orderedIdPair(const Id id1, const Id id2) { return (id1 < id2) ? I
 
 //! This class collects lane changable lanelets and combines them to a sequence of adjacent lanechangable lanelets
 class LaneChangeLaneletsCollector {
-  struct LaneChangeInfo {
-    ConstLanelet target;
-    bool visited;
-  };
-  using LaneChangeMap = std::unordered_map<ConstLanelet, LaneChangeInfo>;
+  using LaneChangeMap = std::unordered_multimap<ConstLanelet, ConstLanelet>;
 
  public:
   using LaneChangeLanelets = std::pair<ConstLanelets, ConstLanelets>;
 
   LaneChangeLaneletsCollector() = default;
   void add(ConstLanelet from, ConstLanelet to) {
-    laneChanges_.emplace(std::move(from), LaneChangeInfo{std::move(to), false});
+    laneChanges_.emplace(std::move(from), std::move(to));
     currPos_ = laneChanges_.begin();
   }
 
-  template <typename Func1, typename Func2>
-  Optional<LaneChangeLanelets> getNextChangeLanelets(Func1&& prev, Func2&& next) {
-    for (; currPos_ != laneChanges_.end() && currPos_->second.visited; ++currPos_) {
-    }
+  //! Returns the next lane change, followed by the lane changes that are possible if it is done later
+  template <typename Func>
+  Optional<LaneChangeLanelets> getNextChangeLanelets(Func&& next) {
     if (currPos_ == laneChanges_.end()) {
       return {};
     }
-    return getLaneChangeLanelets(currPos_, std::forward<Func1>(prev), std::forward<Func2>(next));
-  }
-
- private:
-  template <typename Func1, typename Func2>
-  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& prev, Func2&& next) {
-    iter->second.visited = true;
-    auto followers = getAdjacentLaneChangeLanelets(iter, std::forward<Func2>(next));
-    auto predecessors = getAdjacentLaneChangeLanelets(iter, std::forward<Func1>(prev));
-    std::reverse(predecessors.first.begin(), predecessors.first.end());
-    std::reverse(predecessors.second.begin(), predecessors.second.end());
-    std::pair<ConstLanelets, ConstLanelets> result;
-    result.first = utils::concatenate({predecessors.first, ConstLanelets{iter->first}, followers.first});
-    result.second = utils::concatenate({predecessors.second, ConstLanelets{iter->second.target}, followers.second});
-    return result;
-  }
-
-  template <typename Func1>
-  LaneChangeLanelets getAdjacentLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& adjacent) {
-    std::pair<ConstLanelets, ConstLanelets> successors;
+    LaneChangeLanelets result{{currPos_->first}, {currPos_->second}};
+    ++currPos_;
     while (true) {
-      auto nextSourceLlts = adjacent(iter->first);
-      auto nextTargetLlts = adjacent(iter->second.target);
+      auto nextSourceLlts = next(result.first.back());
+      auto nextTargetLlts = next(result.second.back());
       if (nextSourceLlts.size() != 1 || nextTargetLlts.size() != 1) {
         break;
       }
       ConstLanelet& nextSourceLlt = nextSourceLlts.front();
       ConstLanelet& nextTargetLlt = nextTargetLlts.front();
-      iter = laneChanges_.find(nextSourceLlt);
-      if (iter == laneChanges_.end() || iter->second.visited || iter->second.target != nextTargetLlt) {
+      // stop when the lane changes are in a circle
+      if (!isLaneChange(nextSourceLlt, nextTargetLlt) || contains(result, nextSourceLlt, nextTargetLlt)) {
         break;
       }
-      iter->second.visited = true;
-      successors.first.push_back(nextSourceLlt);
-      successors.second.push_back(nextTargetLlt);
+      result.first.push_back(nextSourceLlt);
+      result.second.push_back(nextTargetLlt);
     }
-    return successors;
+    return result;
+  }
+
+ private:
+  bool isLaneChange(const ConstLanelet& from, const ConstLanelet& to) const {
+    auto range = laneChanges_.equal_range(from);
+    return std::any_of(range.first, range.second, [&to](const auto& change) { return change.second == to; });
+  }
+
+  static bool contains(const LaneChangeLanelets& lanelets, const ConstLanelet& from, const ConstLanelet& to) {
+    for (size_t i = 0; i < lanelets.first.size(); ++i) {
+      if (lanelets.first[i] == from && lanelets.second[i] == to) {
+        return true;
+      }
+    }
+    return false;
   }
 
   LaneChangeMap laneChanges_;
@@ -257,12 +249,8 @@ void RoutingGraphBuilder::addLaneChangeEdges(LaneChangeLaneletsCollector& laneCh
     auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
     return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::target(edge, g); });
   };
-  auto prev = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::in_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::source(edge, g); });
-  };
   Optional<LaneChangeLaneletsCollector::LaneChangeLanelets> laneChangeLanelets;
-  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(prev, next))) {
+  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(next))) {
     assignLaneChangeCosts(std::move(laneChangeLanelets->first), std::move(laneChangeLanelets->second), relation);
   }
 }
@@ -343,17 +331,15 @@ bool RoutingGraphBuilder::hasEdge(const ConstLanelet& from, const ConstLanelet&
 void RoutingGraphBuilder::assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation) {
   assert(relation == RelationType::Left || relation == RelationType::Right);
   assert(froms.size() == tos.size());
-  for (; !froms.empty(); froms.erase(froms.begin()), tos.erase(tos.begin())) {
-    for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
-      auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
-      if (!std::isfinite(cost)) {
-        // if the costs are infinite, we add an adjacent edge instead
-        auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
-        graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
-        continue;
-      }
-      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
+  for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
+    auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
+    if (!std::isfinite(cost)) {
+      // if the costs are infinite, we add an adjacent edge instead
+      auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
+      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
+      continue;
     }
+    graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
   }
 }
 
-- 
2.43.0


From 69f1b96ce48121c7ef9d2e956ea4ca6c287b5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 17/39] fix: adding an element to a submap again must not
 duplicate it in the lookups

---
 lanelet2_core/src/LaneletMap.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 4b07b56..287f5d6 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -389,6 +389,9 @@ typename PrimitiveLayer<T>::ConstPrimitiveT PrimitiveLayer<T>::get(Id id) const
 
 template <typename T>
 void PrimitiveLayer<T>::add(const PrimitiveLayer<T>::PrimitiveT& element) {
+  if (exists(element.id())) {
+    return;  // each element is contained only once
+  }
   for (const auto& elem : element) {
     tree_->usage.ownedLookup.insert(std::make_pair(elem, element));
   }
@@ -398,6 +401,9 @@ void PrimitiveLayer<T>::add(const PrimitiveLayer<T>::PrimitiveT& element) {
 
 template <>
 void PrimitiveLayer<Area>::add(const Area& area) {
+  if (exists(area.id())) {
+    return;  // each element is contained only once
+  }
   tree_->usage.add(area);
   elements_.insert({area.id(), area});
   tree_->insert(area);
@@ -405,6 +411,9 @@ void PrimitiveLayer<Area>::add(const Area& area) {
 
 template <>
 void PrimitiveLayer<Lanelet>::add(const Lanelet& ll) {
+  if (exists(ll.id())) {
+    return;  // each element is contained only once
+  }
   tree_->usage.add(ll);
   elements_.insert({ll.id(), ll});
   tree_->insert(ll);
@@ -412,6 +421,9 @@ void PrimitiveLayer<Lanelet>::add(const Lanelet& ll) {
 
 template <>
 void PrimitiveLayer<Point3d>::add(const Point3d& p) {
+  if (exists(p.id())) {
+    return;  // each element is contained only once
+  }
   tree_->usage.add(p);
   elements_.insert({p.id(), p});
   tree_->insert(p);
@@ -419,6 +431,9 @@ void PrimitiveLayer<Point3d>::add(const Point3d& p) {
 
 template <>
 void PrimitiveLayer<RegulatoryElementPtr>::add(const PrimitiveLayer<RegulatoryElementPtr>::PrimitiveT& element) {
+  if (exists(element->id())) {
+    return;  // each element is contained only once
+  }
   tree_->usage.add(element);
   elements_.insert({element->id(), element});
   tree_->insert(element);
-- 
2.43.0


From 32bb1bdf28518f72a2b5a279257df11eb1c37d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 18/39] fix: LaneletSubmap refuses empty regulatory elements
 instead of crashing

---
 lanelet2_core/src/LaneletMap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 287f5d6..d589892 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -718,6 +718,9 @@ void LaneletSubmap::add(Area area) {
 }
 
 void LaneletSubmap::add(const RegulatoryElementPtr& regElem) {
+  if (!regElem) {
+    throw NullptrError("Empty regulatory element passed to add()!");
+  }
   checkId(*regElem);
   trackParameters(*regElem);
   regulatoryElementLayer.add(regElem);
-- 
2.43.0


From eb34c2d95b972eb9a19ae97ba192228482516870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 19/39] fix: an addition to a map that failed must not corrupt
 it and can be repeated

---
 lanelet2_core/src/LaneletMap.cpp | 94 ++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 22 deletions(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index d589892..695d05a 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -311,6 +311,7 @@ struct PrimitiveLayer<T>::Tree {
   }
   RTree rTree;
   UsageLookup<T> usage;
+  bool complete{true};  // false if an update failed and the lookups must be created anew
 };
 
 template <>
@@ -329,8 +330,49 @@ struct PrimitiveLayer<Point3d>::Tree {
   void erase(const Point3d& elem) { rTree.remove(treeNode(elem)); }
   RTree rTree;
   UsageLookup<Point3d> usage;
+  bool complete{true};
 };
 
+namespace {
+//! Creates the lookups of a layer anew from its elements
+template <typename TreeT, typename MapT>
+void renewLookups(std::unique_ptr<TreeT>& tree, const MapT& elements) {
+  auto newTree = std::make_unique<TreeT>(elements);
+  for (const auto& elem : elements) {
+    newTree->usage.add(elem.second);
+  }
+  tree = std::move(newTree);
+}
+
+//! Removes an element whose addition failed. After a failed update, neither the search tree nor the usages can be
+//! trusted, therefore they are created anew, now or (if this fails as well) on the next addition.
+template <typename TreeT, typename MapT>
+void takeBack(std::unique_ptr<TreeT>& tree, MapT& elements, Id id) noexcept {
+  elements.erase(id);
+  tree->complete = false;
+  try {
+    renewLookups(tree, elements);
+  } catch (...) {  // NOLINT
+  }
+}
+
+//! Adds to the elements and the lookups of a layer. If this fails, the layer is as before.
+template <typename TreeT, typename MapT, typename T>
+void addToLayer(std::unique_ptr<TreeT>& tree, MapT& elements, const T& element) {
+  if (!tree->complete) {
+    renewLookups(tree, elements);
+  }
+  elements.insert({getId(element), element});
+  try {
+    tree->usage.add(element);
+    tree->insert(element);
+  } catch (...) {
+    takeBack(tree, elements, getId(element));
+    throw;
+  }
+}
+}  // namespace
+
 template <typename T>
 PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
@@ -392,11 +434,7 @@ void PrimitiveLayer<T>::add(const PrimitiveLayer<T>::PrimitiveT& element) {
   if (exists(element.id())) {
     return;  // each element is contained only once
   }
-  for (const auto& elem : element) {
-    tree_->usage.ownedLookup.insert(std::make_pair(elem, element));
-  }
-  elements_.insert({element.id(), element});
-  tree_->insert(element);
+  addToLayer(tree_, elements_, element);
 }
 
 template <>
@@ -404,9 +442,7 @@ void PrimitiveLayer<Area>::add(const Area& area) {
   if (exists(area.id())) {
     return;  // each element is contained only once
   }
-  tree_->usage.add(area);
-  elements_.insert({area.id(), area});
-  tree_->insert(area);
+  addToLayer(tree_, elements_, area);
 }
 
 template <>
@@ -414,9 +450,7 @@ void PrimitiveLayer<Lanelet>::add(const Lanelet& ll) {
   if (exists(ll.id())) {
     return;  // each element is contained only once
   }
-  tree_->usage.add(ll);
-  elements_.insert({ll.id(), ll});
-  tree_->insert(ll);
+  addToLayer(tree_, elements_, ll);
 }
 
 template <>
@@ -424,9 +458,7 @@ void PrimitiveLayer<Point3d>::add(const Point3d& p) {
   if (exists(p.id())) {
     return;  // each element is contained only once
   }
-  tree_->usage.add(p);
-  elements_.insert({p.id(), p});
-  tree_->insert(p);
+  addToLayer(tree_, elements_, p);
 }
 
 template <>
@@ -434,9 +466,12 @@ void PrimitiveLayer<RegulatoryElementPtr>::add(const PrimitiveLayer<RegulatoryEl
   if (exists(element->id())) {
     return;  // each element is contained only once
   }
-  tree_->usage.add(element);
-  elements_.insert({element->id(), element});
-  tree_->insert(element);
+  addToLayer(tree_, elements_, element);
+}
+
+template <typename T>
+void PrimitiveLayer<T>::remove(Id element) {
+  takeBack(tree_, elements_, element);
 }
 
 template <typename T>
@@ -609,8 +644,13 @@ void LaneletMap::add(Lanelet lanelet) {
   }
   // add lanelet before adding regelem to avoid cycles.
   laneletLayer.add(lanelet);
-  for (const auto& regElem : lanelet.regulatoryElements()) {
-    add(regElem);
+  try {
+    for (const auto& regElem : lanelet.regulatoryElements()) {
+      add(regElem);
+    }
+  } catch (...) {
+    laneletLayer.remove(lanelet.id());  // so that adding it again completes it
+    throw;
   }
 }
 
@@ -638,8 +678,13 @@ void LaneletMap::add(Area area) {
   }
   // add area before adding regelem to avoid cycles.
   areaLayer.add(area);
-  for (const auto& regElem : area.regulatoryElements()) {
-    add(regElem);
+  try {
+    for (const auto& regElem : area.regulatoryElements()) {
+      add(regElem);
+    }
+  } catch (...) {
+    areaLayer.remove(area.id());  // so that adding it again completes it
+    throw;
   }
 }
 
@@ -663,7 +708,12 @@ void LaneletMap::add(const RegulatoryElementPtr& regElem) {
   regulatoryElementLayer.add(regElem);
 
   AddVisitor visitor(this);
-  regElem->applyVisitor(visitor);
+  try {
+    regElem->applyVisitor(visitor);
+  } catch (...) {
+    regulatoryElementLayer.remove(regElem->id());  // so that adding it again completes it
+    throw;
+  }
 }
 
 void LaneletMap::add(Polygon3d polygon) {
-- 
2.43.0


From 7e75f2f6df37ae32ae5e07c451c001d248898890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 20/39] fix: assigning a point vector to an inverted line
 string did not invert the points

---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..b82fda4 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      std::reverse(rhs.begin(), rhs.end());
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From ac0c8444d27e7569ec0ab2c53c9232b5de40408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 21/39] fix: a failing resize of an inverted line string left
 its points reversed

---
 .../include/lanelet2_core/primitives/LineString.h  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index b82fda4..88f167b 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -456,13 +456,15 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Changes the number of points contained either by deleting them or by
   //! inserting new (invalId points).
   void resize(size_t num) {
-    if (inverted()) {
-      std::reverse(begin(), end());
-    }
-    points().resize(num);
-    if (inverted()) {
-      std::reverse(begin(), end());
+    if (!inverted()) {
+      points().resize(num);
+      return;
     }
+    // work on a copy, so that nothing is changed if the points can not be created
+    Points3d resized(points().rbegin(), points().rend());
+    resized.resize(num);
+    std::reverse(resized.begin(), resized.end());
+    points() = std::move(resized);
   }
 
   //! Remove all points, making the linestring invalid until new points are
-- 
2.43.0


From 0d77610382650e11779053a587fe2d00a7cff786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 22/39] fix: a failing change of the bounds of an area left new
 bounds with old polygons

---
 .../include/lanelet2_core/primitives/Area.h         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/Area.h b/lanelet2_core/include/lanelet2_core/primitives/Area.h
index ab42458..9ec4ecc 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Area.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Area.h
@@ -83,13 +83,18 @@ class AreaData : public PrimitiveData {
 
   //! sets a new outer bound.
   void setOuterBound(const LineStrings3d& bound) {
-    outerBound_ = bound;
-    resetCache();
+    // do everything that can fail before the first change, so that bound and polygon always fit together
+    auto outerBound = bound;
+    auto outerBoundPolygon = CompoundPolygon3d(outerBound);
+    outerBound_ = std::move(outerBound);
+    outerBoundPolygon_ = std::move(outerBoundPolygon);
   }
 
   void setInnerBounds(const std::vector<LineStrings3d>& bounds) {
-    innerBounds_ = bounds;
-    resetCache();
+    auto innerBounds = bounds;
+    auto innerBoundPolygons = utils::transform(innerBounds, [](const auto& elem) { return CompoundPolygon3d(elem); });
+    innerBounds_ = std::move(innerBounds);
+    innerBoundPolygons_ = std::move(innerBoundPolygons);
   }
 
   void resetCache() {
-- 
2.43.0


From 163fd0c1e2a805c1adaeb18b44e5daef57ab211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 23/39] fix: a failing setAttribute left an empty attribute
 behind

---
 .../include/lanelet2_core/primitives/Primitive.h       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/Primitive.h b/lanelet2_core/include/lanelet2_core/primitives/Primitive.h
index 1dd5383..b8d77b9 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Primitive.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Primitive.h
@@ -270,10 +270,16 @@ class Primitive : public DerivedConstPrimitive {
   void setId(Id id) noexcept { data()->id = id; }
 
   //! @brief set or overwrite an attribute
-  void setAttribute(const std::string& name, const Attribute& attribute) { attributes()[name] = attribute; }
+  void setAttribute(const std::string& name, const Attribute& attribute) {
+    Attribute value{attribute};  // copy first: if this fails, there must not be an empty attribute
+    attributes()[name] = std::move(value);
+  }
 
   //! set or overwrite an attribute (enum version)
-  void setAttribute(AttributeName name, const Attribute& attribute) { attributes()[name] = attribute; }
+  void setAttribute(AttributeName name, const Attribute& attribute) {
+    Attribute value{attribute};
+    attributes()[name] = std::move(value);
+  }
 
   // need this for copy construction to work
   template <typename>
-- 
2.43.0


From dccb0b70293d80c26d62d5561a8c22fc49ecb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 24/39] fix: a failing insertion or assignment left a HybridMap
 whose enum lookup did not match

---
 .../include/lanelet2_core/utility/HybridMap.h  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/utility/HybridMap.h b/lanelet2_core/include/lanelet2_core/utility/HybridMap.h
index 9ba57a4..d4d3e04 100644
--- a/lanelet2_core/include/lanelet2_core/utility/HybridMap.h
+++ b/lanelet2_core/include/lanelet2_core/utility/HybridMap.h
@@ -93,9 +93,7 @@ class HybridMap {
   }
   HybridMap(const HybridMap& rhs) : m_{rhs.m_}, v_{detail::copyIterators(rhs.v_, rhs.m_, m_)} {}
   HybridMap& operator=(const HybridMap& rhs) {
-    m_ = rhs.m_;
-    v_ = detail::copyIterators(rhs.v_, rhs.m_, m_);
-    return *this;
+    return *this = HybridMap(rhs);  // copy first: if this fails, v_ must not refer to elements that are gone
   }
   HybridMap(const std::initializer_list<std::pair<const std::string, ValueT>>& list) {
     for (const auto& item : list) {
@@ -128,6 +126,7 @@ class HybridMap {
   const_iterator end() const { return m_.end(); }
 
   std::pair<iterator, bool> insert(const value_type& v) {
+    growV(v.first);
     auto it = m_.insert(v);
     if (it.second) {
       updateV(it.first);
@@ -136,6 +135,7 @@ class HybridMap {
   }
 
   iterator insert(const_iterator hint, const value_type& v) {
+    growV(v.first);
     auto it = m_.insert(hint, v);
     updateV(it);
     return it;
@@ -217,14 +217,20 @@ class HybridMap {
   bool operator!=(const HybridMap& other) const { return !(*this == other); }
 
  private:
-  void updateV(iterator it) {
-    auto attr = Array::findKey(it->first.c_str());
+  // makes room for a key in v_. Can fail, so this has to be done before the key is added to m_.
+  void growV(const key_type& k) {
+    auto attr = Array::findKey(k.c_str());
     if (attr != std::end(PairArray)) {  // NOLINT
       const auto pos = static_cast<size_t>(attr->second);
       if (v_.size() < pos + 1) {
         v_.resize(pos + 1, m_.end());
       }
-      v_[pos] = it;
+    }
+  }
+  void updateV(iterator it) {
+    auto attr = Array::findKey(it->first.c_str());
+    if (attr != std::end(PairArray)) {  // NOLINT
+      v_[static_cast<size_t>(attr->second)] = it;
     }
   }
   Map m_;
-- 
2.43.0


From 6b07971e91ba4d70b0f9284672e20012fbc74b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 25/39] fix: a failing AllWayStop::addLanelet added a lanelet
 without its stop line

---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index d27909e..81f6362 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -422,6 +422,10 @@ void AllWayStop::addLanelet(const LaneletWithStopLine& lltWithStop) {
   if (!sl.empty() && !lltWithStop.stopLine) {
     throw InvalidInputError("A lanelet without stopline was added, but existing lanelets have a stop line!");
   }
+  if (!!lltWithStop.stopLine) {
+    auto& stopLines = parameters()[RoleName::RefLine];
+    stopLines.reserve(stopLines.size() + 1);  // a lanelet must not be added if its stop line can not be added
+  }
   parameters()[RoleName::Yield].emplace_back(lltWithStop.lanelet);
   if (!!lltWithStop.stopLine) {
     parameters()[RoleName::RefLine].emplace_back(*lltWithStop.stopLine);
-- 
2.43.0


From 937a8ab0bc0e8381fd717d48e622751d04fa6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 26/39] fix: centerline of a lanelet with a one-point left
 bound that starts the right bound read past the bound

---
 lanelet2_core/src/Lanelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index 58753ae..e28b888 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -194,7 +194,7 @@ std::shared_ptr<ConstLineString3d> calculateCenterline(const ConstLineString2d&
   auto leftCurrent = leftBound.begin();
   auto rightCurrent = rightBound.begin();
   // special handling is required if the first two points are identical (i.e. the lanelet is closed at the beginning)
-  if (*leftCurrent == *rightCurrent) {
+  if (*leftCurrent == *rightCurrent && leftBound.size() > 1) {
     ++leftCurrent;
   }
   while (leftCurrent != leftBound.end() || rightCurrent != rightBound.end()) {
-- 
2.43.0


From 40ea9ac445e1b4a56b72b1d22526778927023191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 27/39] fix: lock weak lanelets and areas in one step

Code that asked a weak lanelet or area whether it expired and locked it
afterwards threw a NullptrError if another thread dropped the last owner in
between (regulatory element getters, find, bounding boxes, adding to maps and
submaps, writing). tryLock() does both in one step.
---
 .../include/lanelet2_core/primitives/Area.h   | 17 ++++++++-
 .../lanelet2_core/primitives/Lanelet.h        | 17 ++++++++-
 .../primitives/RegulatoryElement.h            | 14 +++++--
 .../include/lanelet2_core/utility/Utilities.h |  4 +-
 lanelet2_core/src/LaneletMap.cpp              | 38 +++++++++++--------
 lanelet2_core/src/RegulatoryElement.cpp       | 20 +++++-----
 .../src/RegulatoryElementGeometry.cpp         | 30 +++++++++------
 .../lanelet2_io/io_handlers/Serialize.h       | 12 +++---
 lanelet2_io/src/OsmHandlerWrite.cpp           | 10 +++--
 9 files changed, 106 insertions(+), 56 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/Area.h b/lanelet2_core/include/lanelet2_core/primitives/Area.h
index 9ec4ecc..6db4e0e 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Area.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Area.h
@@ -289,6 +289,13 @@ class ConstWeakArea {
    */
   ConstArea lock() const { return ConstArea(areaData_.lock()); }
 
+  //! Like lock(), but returns nothing if the managed area expired. Use this instead of checking for expired() before
+  //! calling lock() because other owners of the area can go away in between.
+  Optional<ConstArea> tryLock() const {
+    auto data = areaData_.lock();
+    return !!data ? Optional<ConstArea>(ConstArea(data)) : Optional<ConstArea>();
+  }
+
   //! tests whether the WeakArea is still valid
   bool expired() const noexcept { return areaData_.expired(); }
 
@@ -312,6 +319,12 @@ class WeakArea final : public ConstWeakArea {
    * @throws NullptrError if the managed lanelet expired.
    */
   Area lock() const { return Area(std::const_pointer_cast<AreaData>(areaData_.lock())); }
+
+  //! Like lock(), but returns nothing if the managed area expired.
+  Optional<Area> tryLock() const {
+    auto data = std::const_pointer_cast<AreaData>(areaData_.lock());
+    return !!data ? Optional<Area>(Area(data)) : Optional<Area>();
+  }
 };
 
 namespace utils {
@@ -332,7 +345,9 @@ inline bool has(const ConstArea& ll, Id id) { return has(ll.outerBoundPolygon(),
 inline bool operator==(const ConstArea& lhs, const ConstArea& rhs) { return lhs.constData() == rhs.constData(); }
 inline bool operator!=(const ConstArea& lhs, const ConstArea& rhs) { return !(lhs == rhs); }
 inline bool operator==(const ConstWeakArea& lhs, const ConstWeakArea& rhs) {
-  return !lhs.expired() && !rhs.expired() && lhs.lock() == rhs.lock();
+  auto lhsArea = lhs.tryLock();
+  auto rhsArea = rhs.tryLock();
+  return !!lhsArea && !!rhsArea && *lhsArea == *rhsArea;
 }
 inline bool operator!=(const ConstWeakArea& lhs, const ConstWeakArea& rhs) { return !(lhs == rhs); }
 inline std::ostream& operator<<(std::ostream& stream, const ConstArea& obj) {
diff --git a/lanelet2_core/include/lanelet2_core/primitives/Lanelet.h b/lanelet2_core/include/lanelet2_core/primitives/Lanelet.h
index 98d7f24..6ae6561 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Lanelet.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Lanelet.h
@@ -329,6 +329,13 @@ class ConstWeakLanelet {
    */
   ConstLanelet lock() const { return ConstLanelet(laneletData_.lock(), inverted_); }
 
+  //! Like lock(), but returns nothing if the managed lanelet expired. Use this instead of checking for expired() before
+  //! calling lock() because other owners of the lanelet can go away in between.
+  Optional<ConstLanelet> tryLock() const {
+    auto data = laneletData_.lock();
+    return !!data ? Optional<ConstLanelet>(ConstLanelet(data, inverted_)) : Optional<ConstLanelet>();
+  }
+
   //! tests whether the WeakLanelet is still valid
   bool expired() const noexcept { return laneletData_.expired(); }
 
@@ -349,6 +356,12 @@ class WeakLanelet final : public ConstWeakLanelet {
    * @throws NullptrError if the managed lanelet expired.
    */
   Lanelet lock() const { return Lanelet(std::const_pointer_cast<LaneletData>(laneletData_.lock()), inverted_); }
+
+  //! Like lock(), but returns nothing if the managed lanelet expired.
+  Optional<Lanelet> tryLock() const {
+    auto data = std::const_pointer_cast<LaneletData>(laneletData_.lock());
+    return !!data ? Optional<Lanelet>(Lanelet(data, inverted_)) : Optional<Lanelet>();
+  }
 };
 
 namespace utils {
@@ -371,7 +384,9 @@ inline bool operator==(const ConstLanelet& lhs, const ConstLanelet& rhs) {
 }
 inline bool operator!=(const ConstLanelet& lhs, const ConstLanelet& rhs) { return !(lhs == rhs); }
 inline bool operator==(const ConstWeakLanelet& lhs, const ConstWeakLanelet& rhs) {
-  return !lhs.expired() && !rhs.expired() && lhs.lock() == rhs.lock();
+  auto lhsLanelet = lhs.tryLock();
+  auto rhsLanelet = rhs.tryLock();
+  return !!lhsLanelet && !!rhsLanelet && *lhsLanelet == *rhsLanelet;
 }
 inline bool operator!=(const ConstWeakLanelet& lhs, const ConstWeakLanelet& rhs) { return !(lhs == rhs); }
 std::ostream& operator<<(std::ostream& stream, const ConstLanelet& obj);
diff --git a/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h b/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h
index 375e020..c69b1ee 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h
@@ -435,8 +435,11 @@ inline boost::optional<ConstLanelet> RegulatoryElement::find<ConstLanelet>(Id id
   for (const auto& params : parameters()) {
     for (const auto& elem : params.second) {
       const auto* telem = boost::get<WeakLanelet>(&elem);
-      if (telem != nullptr && !telem->expired() && telem->lock().id() == id) {
-        return telem->lock();
+      if (telem != nullptr) {
+        auto lanelet = telem->tryLock();
+        if (!!lanelet && lanelet->id() == id) {
+          return ConstLanelet(*lanelet);
+        }
       }
     }
   }
@@ -448,8 +451,11 @@ inline boost::optional<ConstArea> RegulatoryElement::find<ConstArea>(Id id) cons
   for (const auto& params : parameters()) {
     for (const auto& elem : params.second) {
       const auto* telem = boost::get<WeakArea>(&elem);
-      if (telem != nullptr && !telem->expired() && telem->lock().id() == id) {
-        return telem->lock();
+      if (telem != nullptr) {
+        auto area = telem->tryLock();
+        if (!!area && area->id() == id) {
+          return ConstArea(*area);
+        }
       }
     }
   }
diff --git a/lanelet2_core/include/lanelet2_core/utility/Utilities.h b/lanelet2_core/include/lanelet2_core/utility/Utilities.h
index 2d4f933..d2e85a6 100644
--- a/lanelet2_core/include/lanelet2_core/utility/Utilities.h
+++ b/lanelet2_core/include/lanelet2_core/utility/Utilities.h
@@ -348,8 +348,8 @@ auto strong(std::vector<WeakT> v) {
   std::vector<decltype(v.front().lock())> s;
   s.reserve(v.size());
   for (const auto& e : v) {
-    if (!e.expired()) {
-      s.push_back(e.lock());
+    if (auto locked = e.tryLock()) {
+      s.push_back(std::move(*locked));
     }
   }
   return s;
diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 695d05a..5badeee 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -49,16 +49,18 @@ struct IdVisitor : public RuleParameterVisitor {
   void operator()(const ConstLineString3d& ls) override { id = ls.id(); }
   void operator()(const ConstPolygon3d& p) override { id = p.id(); }
   void operator()(const ConstWeakLanelet& ll) override {
-    if (ll.expired()) {
+    auto llet = ll.tryLock();
+    if (!llet) {
       return;
     }
-    id = ll.lock().id();
+    id = llet->id();
   }
   void operator()(const ConstWeakArea& ar) override {
-    if (ar.expired()) {
+    auto area = ar.tryLock();
+    if (!area) {
       return;
     }
-    id = ar.lock().id();
+    id = area->id();
   }
   Id id{InvalId};
 };
@@ -123,16 +125,18 @@ struct AssignIdVisitor : public boost::static_visitor<void> {
   void operator()(LineString3d l) { assignIdIfInvalid(l, map_->lineStringLayer); }
   void operator()(Polygon3d p) { assignIdIfInvalid(p, map_->polygonLayer); }
   void operator()(const WeakLanelet& ll) {
-    if (ll.expired()) {  // NOLINT
+    auto llet = ll.tryLock();
+    if (!llet) {
       return;
     }
-    assignIdIfInvalid(ll.lock(), map_->laneletLayer);
+    assignIdIfInvalid(*llet, map_->laneletLayer);
   }
   void operator()(const WeakArea& ar) {
-    if (ar.expired()) {
+    auto area = ar.tryLock();
+    if (!area) {
       return;
     }
-    assignIdIfInvalid(ar.lock(), map_->areaLayer);
+    assignIdIfInvalid(*area, map_->areaLayer);
   }
 
  private:
@@ -146,16 +150,18 @@ struct AddVisitor : public lanelet::internal::MutableParameterVisitor {
   void operator()(const LineString3d& l) override { map_->add(l); }
   void operator()(const Polygon3d& p) override { map_->add(p); }
   void operator()(const WeakLanelet& ll) override {
-    if (ll.expired()) {  // NOLINT
+    auto llet = ll.tryLock();
+    if (!llet) {
       return;
     }
-    map_->add(ll.lock());
+    map_->add(*llet);
   }
   void operator()(const WeakArea& ar) override {
-    if (ar.expired()) {  // NOLINT
+    auto area = ar.tryLock();
+    if (!area) {
       return;
     }
-    map_->add(ar.lock());
+    map_->add(*area);
   }
 
  private:
@@ -826,13 +832,13 @@ void LaneletSubmap::trackParameters(const RegulatoryElement& regelem) {
    public:
     explicit AddToLLorAreaVisitor(LLorAreas& llOrAreas) : llOrAreas_{&llOrAreas} {}
     void operator()(const ConstWeakLanelet& wll) override {
-      if (!wll.expired()) {
-        llOrAreas_->emplace_back(wll.lock());
+      if (auto llet = wll.tryLock()) {
+        llOrAreas_->emplace_back(*llet);
       }
     }
     void operator()(const ConstWeakArea& wa) override {
-      if (!wa.expired()) {
-        llOrAreas_->emplace_back(wa.lock());
+      if (auto area = wa.tryLock()) {
+        llOrAreas_->emplace_back(*area);
       }
     }
 
diff --git a/lanelet2_core/src/RegulatoryElement.cpp b/lanelet2_core/src/RegulatoryElement.cpp
index 3767965..7582c6a 100644
--- a/lanelet2_core/src/RegulatoryElement.cpp
+++ b/lanelet2_core/src/RegulatoryElement.cpp
@@ -15,18 +15,18 @@ class HasIdVisitor : public RuleParameterVisitor {
   void operator()(const ConstLineString3d& l) override { found_ |= l.id() == id_ || utils::has(l, id_); }
   void operator()(const ConstPolygon3d& p) override { found_ |= p.id() == id_ || utils::has(p, id_); }
   void operator()(const ConstWeakLanelet& ll) override {
-    if (ll.expired()) {
+    auto llet = ll.tryLock();
+    if (!llet) {
       return;
     }
-    ConstLanelet llet(ll.lock());
-    found_ |= llet.id() == id_ || utils::has(llet, id_);
+    found_ |= llet->id() == id_ || utils::has(*llet, id_);
   }
   void operator()(const ConstWeakArea& ar) override {
-    if (ar.expired()) {
+    auto area = ar.tryLock();
+    if (!area) {
       return;
     }
-    ConstArea area(ar.lock());
-    found_ |= area.id() == id_ || utils::has(area, id_);
+    found_ |= area->id() == id_ || utils::has(*area, id_);
   }
   bool operator!() const { return !found_; }
 
@@ -51,13 +51,13 @@ class GetIdVisitor : public RuleParameterVisitor {
   void operator()(const ConstLineString3d& l) override { appendID(l); }
   void operator()(const ConstPolygon3d& p) override { appendID(p); }
   void operator()(const ConstWeakLanelet& ll) override {
-    if (!ll.expired()) {
-      appendID(ll.lock());
+    if (auto llet = ll.tryLock()) {
+      appendID(*llet);
     }
   }
   void operator()(const ConstWeakArea& ar) override {
-    if (!ar.expired()) {
-      appendID(ar.lock());
+    if (auto area = ar.tryLock()) {
+      appendID(*area);
     }
   }
 
diff --git a/lanelet2_core/src/RegulatoryElementGeometry.cpp b/lanelet2_core/src/RegulatoryElementGeometry.cpp
index 8ce4e47..4787670 100644
--- a/lanelet2_core/src/RegulatoryElementGeometry.cpp
+++ b/lanelet2_core/src/RegulatoryElementGeometry.cpp
@@ -16,16 +16,18 @@ struct Bbox2dVisitor : public RuleParameterVisitor {  // NOLINT
   void operator()(const ConstLineString3d& l) override { bbox.extend(boundingBox2d(to2D(l))); }
   void operator()(const ConstPolygon3d& p) override { bbox.extend(boundingBox2d(to2D(p))); }
   void operator()(const ConstWeakLanelet& ll) override {
-    if (ll.expired()) {
+    auto llet = ll.tryLock();
+    if (!llet) {
       return;
     }
-    bbox.extend(boundingBox2d(ll.lock()));
+    bbox.extend(boundingBox2d(*llet));
   }
   void operator()(const ConstWeakArea& ar) override {
-    if (ar.expired()) {
+    auto area = ar.tryLock();
+    if (!area) {
       return;
     }
-    bbox.extend(boundingBox2d(ar.lock()));
+    bbox.extend(boundingBox2d(*area));
   }
   BoundingBox2d bbox{};
 };
@@ -34,16 +36,18 @@ struct Bbox3dVisitor : public RuleParameterVisitor {  // NOLINT
   void operator()(const ConstLineString3d& l) override { bbox.extend(boundingBox3d(l)); }
   void operator()(const ConstPolygon3d& p) override { bbox.extend(boundingBox3d(p)); }
   void operator()(const ConstWeakLanelet& ll) override {
-    if (ll.expired()) {
+    auto llet = ll.tryLock();
+    if (!llet) {
       return;
     }
-    bbox.extend(boundingBox3d(ll.lock()));
+    bbox.extend(boundingBox3d(*llet));
   }
   void operator()(const ConstWeakArea& ar) override {
-    if (ar.expired()) {
+    auto area = ar.tryLock();
+    if (!area) {
       return;
     }
-    bbox.extend(boundingBox3d(ar.lock()));
+    bbox.extend(boundingBox3d(*area));
   }
   BoundingBox3d bbox;
 };
@@ -54,16 +58,18 @@ struct DistanceVisitor : public RuleParameterVisitor {  // NOLINT
   void operator()(const ConstLineString3d& l) override { d = std::min(d, distance2d(l, pdist)); }
   void operator()(const ConstPolygon3d& p) override { d = std::min(d, distance2d(p, pdist)); }
   void operator()(const ConstWeakLanelet& ll) override {
-    if (ll.expired()) {
+    auto llet = ll.tryLock();
+    if (!llet) {
       return;
     }
-    d = std::min(d, distance2d(ll.lock(), pdist));
+    d = std::min(d, distance2d(*llet, pdist));
   }
   void operator()(const ConstWeakArea& ar) override {
-    if (ar.expired()) {
+    auto area = ar.tryLock();
+    if (!area) {
       return;
     }
-    d = std::min(d, distance2d(ar.lock(), pdist));
+    d = std::min(d, distance2d(*area, pdist));
   }
   BasicPoint2d pdist;
   double d{std::numeric_limits<double>::infinity()};
diff --git a/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h b/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h
index cb5c16d..4c9b432 100644
--- a/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h
+++ b/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h
@@ -140,11 +140,11 @@ void load(Archive& ar, lanelet::ConstLanelet& l, unsigned int /*version*/) {
 
 template <typename Archive>
 void save(Archive& ar, const lanelet::WeakLanelet& l, unsigned int /*version*/) {
-  if (l.expired()) {
+  auto sp = l.tryLock();
+  if (!sp) {
     throw lanelet::LaneletError("Can not serialize expired weak pointer!");
   }
-  auto sp = l.lock();
-  ar& sp;
+  ar& *sp;
 }
 template <typename Archive>
 void load(Archive& ar, lanelet::WeakLanelet& l, unsigned int /*version*/) {
@@ -318,11 +318,11 @@ void load(Archive& ar, lanelet::ConstArea& a, unsigned int /*version*/) {
 }
 template <typename Archive>
 void save(Archive& ar, const lanelet::WeakArea& a, unsigned int /*version*/) {
-  if (a.expired()) {
+  auto sp = a.tryLock();
+  if (!sp) {
     throw lanelet::LaneletError("Can not serialize expired weak pointer!");
   }
-  auto sp = a.lock();
-  ar& sp;
+  ar& *sp;
 }
 template <typename Archive>
 void load(Archive& ar, lanelet::WeakArea& a, unsigned int /*version*/) {
diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index ffacd43..9929e40 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -220,25 +220,27 @@ class ToFileWriter {
     }
     void operator()(const ConstWeakLanelet& wll) override {
       // try to lock
-      if (wll.expired()) {
+      auto lanelet = wll.tryLock();
+      if (!lanelet) {
         writer.writeError(id, "Found an expired lanelet parameter with role " + role);
         return;
       }
       // lanelets are not yet in the osm file
       currRelation->members.emplace_back(role, nullptr);
       unparsedLaneletAndAreaParameters.emplace_back(
-          UnresolvedRole{currRelation->id, wll.lock().id(), &currRelation->members.back().second});
+          UnresolvedRole{currRelation->id, lanelet->id(), &currRelation->members.back().second});
     }
     void operator()(const ConstWeakArea& war) override {
       // try to lock
-      if (war.expired()) {
+      auto area = war.tryLock();
+      if (!area) {
         writer.writeError(id, "Found an expired lanelet parameter with role " + role);
         return;
       }
       // areas are not yet in the osm file
       currRelation->members.emplace_back(role, nullptr);
       unparsedLaneletAndAreaParameters.emplace_back(
-          UnresolvedRole{currRelation->id, war.lock().id(), &currRelation->members.back().second});
+          UnresolvedRole{currRelation->id, area->id(), &currRelation->members.back().second});
     }
     Id id{0};
     osm::Relation* currRelation{nullptr};
-- 
2.43.0


From 0271f2c8829140f5a3ead4eab812d0ccada6e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 28/39] fix: find the stop line of an all way stop's lanelet
 after another one expired

getStopLine counted the position of a lanelet among those that are still alive
and used it as index into all stop lines, so that it returned the stop line of
another lanelet once an earlier lanelet was gone.
---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index 81f6362..f69d91f 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -15,6 +15,11 @@ bool operator==(const lanelet::LaneletDataConstWptr& lhs, const lanelet::Lanelet
 }  // namespace std
 namespace lanelet {
 namespace {
+std::vector<WeakLanelet> weakParameters(const RuleParameterMap& parameters, RoleName role) {
+  auto it = parameters.find(role);
+  return it == parameters.end() ? std::vector<WeakLanelet>() : utils::getVariant<WeakLanelet>(it->second);
+}
+
 template <typename T>
 bool findAndErase(const T& primitive, RuleParameterMap& parameters, RoleName role) {
   auto parameterIt = parameters.find(role);
@@ -379,8 +384,9 @@ Optional<ConstLineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) con
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
+  // positions only match those of the stop lines if expired lanelets are counted
+  auto llts = weakParameters(parameters(), RoleName::Yield);
+  auto it = std::find(llts.begin(), llts.end(), ConstWeakLanelet(llt));
   if (it == llts.end()) {
     return {};
   }
@@ -392,8 +398,9 @@ Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
+  // positions only match those of the stop lines if expired lanelets are counted
+  auto llts = weakParameters(parameters(), RoleName::Yield);
+  auto it = std::find(llts.begin(), llts.end(), ConstWeakLanelet(llt));
   if (it == llts.end()) {
     return {};
   }
-- 
2.43.0


From 6eb4636dd71595c2ba3c1ec665ad5a5ff76f02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 29/39] fix: assigning a map to a submap releases what the old
 content tracked

The lanelets and areas referenced by regulatory elements of the previous
content were kept alive although they are not part of the submap any more.
---
 lanelet2_core/include/lanelet2_core/LaneletMap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lanelet2_core/include/lanelet2_core/LaneletMap.h b/lanelet2_core/include/lanelet2_core/LaneletMap.h
index 95fbbcb..b83aa04 100644
--- a/lanelet2_core/include/lanelet2_core/LaneletMap.h
+++ b/lanelet2_core/include/lanelet2_core/LaneletMap.h
@@ -457,6 +457,7 @@ class LaneletSubmap : public LaneletMapLayers {
   explicit LaneletSubmap(LaneletMap&& rhs) noexcept : LaneletMapLayers{std::move(rhs)} {}
   LaneletSubmap& operator=(LaneletMap&& rhs) {
     static_cast<LaneletMapLayers&>(*this) = std::move(rhs);
+    regelemObjects_.clear();
     return *this;
   }
 
-- 
2.43.0


From 82eb61d7722a11a130502ddcb7faffb840889966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 30/39] fix: report running out of memory while writing osm
 files

---
 lanelet2_io/src/OsmFile.cpp | 88 +++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 55df1bf..2328ffc 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -2,8 +2,10 @@
 
 #include <lanelet2_core/utility/Utilities.h>
 
-#include <boost/format.hpp>
+#include <iomanip>
 #include <iostream>
+#include <new>
+#include <sstream>
 
 namespace lanelet {
 namespace osm {
@@ -57,7 +59,10 @@ bool isDeleted(const pugi::xml_node& node) {
 }
 
 std::string toJosmStyle(const double d, const bool josm_format_elevation = false) {
-  std::string str = boost::str(boost::format{josm_format_elevation ? "%.2f" : "%.11f"} % d);
+  std::ostringstream stream;
+  stream.exceptions(std::ios::badbit);  // running out of memory must not shorten the number
+  stream << std::fixed << std::setprecision(josm_format_elevation ? 2 : 11) << d;
+  std::string str = stream.str();
   str.erase(str.find_last_not_of('0') + 1, std::string::npos);
   str.erase(str.find_last_not_of('.') + 1, std::string::npos);
   return str;
@@ -93,22 +98,39 @@ void removeAndFixPlaceholders(Primitive** toRemove, Roles& fromRoles, std::vecto
   }
 }
 
+// pugixml does not throw when it runs out of memory. Without these checks, the written file would be incomplete.
+pugi::xml_node appendChild(pugi::xml_node& parent, const char* name) {
+  auto child = parent.append_child(name);
+  if (*child.name() == '\0') {
+    throw std::bad_alloc();
+  }
+  return child;
+}
+
+template <typename T>
+void appendAttribute(pugi::xml_node& node, const char* name, const T& value) {
+  auto attribute = node.append_attribute(name);
+  if (*attribute.name() == '\0' || !attribute.set_value(value)) {
+    throw std::bad_alloc();
+  }
+}
+
 class OsmFileWriter {
  public:
   static std::unique_ptr<pugi::xml_document> write(const File& osmFile, const io::Configuration& params) {
     auto xml = std::make_unique<pugi::xml_document>();
-    auto osmNode = xml->append_child(keyword::Osm);
-    osmNode.append_attribute("version") = "0.6";
+    auto osmNode = appendChild(*xml, keyword::Osm);
+    appendAttribute(osmNode, "version", "0.6");
     // whether to upload the model in JOSM, false by default
     {
       const auto iter = params.find("josm_upload");
       if (iter != params.end() && iter->second.asBool().value_or(false)) {
-        osmNode.append_attribute("upload") = "true";
+        appendAttribute(osmNode, "upload", "true");
       } else {
-        osmNode.append_attribute("upload") = "false";
+        appendAttribute(osmNode, "upload", "false");
       }
     }
-    osmNode.append_attribute("generator") = "lanelet2";
+    appendAttribute(osmNode, "generator", "lanelet2");
 
     // whether to format elevation for JOSM (2 decimal places), false by default
     const auto iter = params.find("josm_format_elevation");
@@ -122,27 +144,27 @@ class OsmFileWriter {
  private:
   static void writeAttributes(pugi::xml_node& elemNode, const Attributes& attributes) {
     for (const auto& attribute : attributes) {
-      auto tagNode = elemNode.append_child(keyword::Tag);
-      tagNode.append_attribute(keyword::Key) = attribute.first.c_str();
-      tagNode.append_attribute(keyword::Value) = attribute.second.c_str();
+      auto tagNode = appendChild(elemNode, keyword::Tag);
+      appendAttribute(tagNode, keyword::Key, attribute.first.c_str());
+      appendAttribute(tagNode, keyword::Value, attribute.second.c_str());
     }
   }
 
   static void writeNodes(pugi::xml_node& osmNode, const Nodes& nodes, const bool josm_format_elevation = false) {
     for (const auto& node : nodes) {
-      auto xmlNode = osmNode.append_child(keyword::Node);
-      xmlNode.append_attribute(keyword::Id) = LongLong(node.second.id);
+      auto xmlNode = appendChild(osmNode, keyword::Node);
+      appendAttribute(xmlNode, keyword::Id, LongLong(node.second.id));
       if (node.second.id > 0) {
-        xmlNode.append_attribute(keyword::Visible) = "true";
-        xmlNode.append_attribute(keyword::Version) = 1;
+        appendAttribute(xmlNode, keyword::Visible, "true");
+        appendAttribute(xmlNode, keyword::Version, 1);
       }
-      xmlNode.append_attribute(keyword::Lat) = toJosmStyle(node.second.point.lat).c_str();
-      xmlNode.append_attribute(keyword::Lon) = toJosmStyle(node.second.point.lon).c_str();
+      appendAttribute(xmlNode, keyword::Lat, toJosmStyle(node.second.point.lat).c_str());
+      appendAttribute(xmlNode, keyword::Lon, toJosmStyle(node.second.point.lon).c_str());
 
       if (node.second.point.ele != 0.) {
-        auto tagNode = xmlNode.append_child(keyword::Tag);
-        tagNode.append_attribute(keyword::Key) = keyword::Elevation;
-        tagNode.append_attribute(keyword::Value) = toJosmStyle(node.second.point.ele, josm_format_elevation).c_str();
+        auto tagNode = appendChild(xmlNode, keyword::Tag);
+        appendAttribute(tagNode, keyword::Key, keyword::Elevation);
+        appendAttribute(tagNode, keyword::Value, toJosmStyle(node.second.point.ele, josm_format_elevation).c_str());
       }
       writeAttributes(xmlNode, node.second.attributes);
     }
@@ -151,15 +173,15 @@ class OsmFileWriter {
   static void writeWays(pugi::xml_node& osmNode, const Ways& ways) {
     for (const auto& wayElem : ways) {
       const auto& way = wayElem.second;
-      auto xmlNode = osmNode.append_child(keyword::Way);
-      xmlNode.append_attribute(keyword::Id) = LongLong(way.id);
+      auto xmlNode = appendChild(osmNode, keyword::Way);
+      appendAttribute(xmlNode, keyword::Id, LongLong(way.id));
       if (way.id > 0) {
-        xmlNode.append_attribute(keyword::Visible) = "true";
-        xmlNode.append_attribute(keyword::Version) = 1;
+        appendAttribute(xmlNode, keyword::Visible, "true");
+        appendAttribute(xmlNode, keyword::Version, 1);
       }
       for (const auto& node : way.nodes) {
-        auto nd = xmlNode.append_child(keyword::Nd);
-        nd.append_attribute(keyword::Ref) = LongLong(node->id);
+        auto nd = appendChild(xmlNode, keyword::Nd);
+        appendAttribute(nd, keyword::Ref, LongLong(node->id));
       }
       writeAttributes(xmlNode, way.attributes);
     }
@@ -168,18 +190,18 @@ class OsmFileWriter {
   static void writeRelations(pugi::xml_node& osmNode, const Relations& relations) {
     for (const auto& relationElem : relations) {
       const auto& relation = relationElem.second;
-      auto xmlNode = osmNode.append_child(keyword::Relation);
-      xmlNode.append_attribute(keyword::Id) = LongLong(relation.id);
+      auto xmlNode = appendChild(osmNode, keyword::Relation);
+      appendAttribute(xmlNode, keyword::Id, LongLong(relation.id));
       if (relation.id > 0) {
-        xmlNode.append_attribute(keyword::Visible) = "true";
-        xmlNode.append_attribute(keyword::Version) = 1;
+        appendAttribute(xmlNode, keyword::Visible, "true");
+        appendAttribute(xmlNode, keyword::Version, 1);
       }
       for (const auto& role : relation.members) {
-        auto xmlMember = xmlNode.append_child(keyword::Member);
+        auto xmlMember = appendChild(xmlNode, keyword::Member);
         auto type = role.second->type();
-        xmlMember.append_attribute(keyword::Type) = type.c_str();
-        xmlMember.append_attribute(keyword::Ref) = LongLong(role.second->id);
-        xmlMember.append_attribute(keyword::Role) = role.first.c_str();
+        appendAttribute(xmlMember, keyword::Type, type.c_str());
+        appendAttribute(xmlMember, keyword::Ref, LongLong(role.second->id));
+        appendAttribute(xmlMember, keyword::Role, role.first.c_str());
       }
       writeAttributes(xmlNode, relation.attributes);
     }
-- 
2.43.0


From 12572954a72f07379e156157313f4ed9446c559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 31/39] fix: report running out of memory while reading filters
 and building reports

---
 lanelet2_validation/include/lanelet2_validation/Issue.h | 1 +
 lanelet2_validation/src/Validation.cpp                  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/lanelet2_validation/include/lanelet2_validation/Issue.h b/lanelet2_validation/include/lanelet2_validation/Issue.h
index bfca6bd..bf31287 100644
--- a/lanelet2_validation/include/lanelet2_validation/Issue.h
+++ b/lanelet2_validation/include/lanelet2_validation/Issue.h
@@ -48,6 +48,7 @@ struct Issue {
       : severity{severity}, primitive{primitive}, id{id}, message{std::move(message)} {}
   std::string buildReport() const {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);  // do not swallow running out of memory
     ss << toString(severity) << ": ";
     if (id != InvalId) {
       ss << toString(primitive) << " " << std::to_string(id) << " ";
diff --git a/lanelet2_validation/src/Validation.cpp b/lanelet2_validation/src/Validation.cpp
index 10fc358..ee05917 100644
--- a/lanelet2_validation/src/Validation.cpp
+++ b/lanelet2_validation/src/Validation.cpp
@@ -14,6 +14,7 @@ namespace {
 Regexes parseFilterString(const std::string& str) {
   Regexes regexes;
   std::stringstream ss(str);
+  ss.exceptions(std::ios::badbit);  // running out of memory must not end the list early
 
   while (ss.good()) {
     std::string substr;
@@ -67,6 +68,7 @@ void runRoutingGraphValidators(std::vector<DetectedIssues>& issues, const Regexe
       routingGraph = routing::RoutingGraph::build(map, *rule);
     } catch (LaneletError& err) {
       std::stringstream msg;
+      msg.exceptions(std::ios::badbit);
       msg << "Failed to create routing graph for " << *rule << ": " << err.what();
       issues.emplace_back("general", Issues{Issue(Severity::Error, msg.str())});
       continue;
-- 
2.43.0


From a580f47f4e24f4ac56ad8f4827e08e3db7449c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 32/39] fix: do not take running out of memory for an invalid
 velocity

---
 lanelet2_core/src/Attribute.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index e4a5c77..4c2ca40 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -2,6 +2,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/variant/get.hpp>
+#include <new>
 #include <regex>
 
 #include "lanelet2_core/Exceptions.h"
@@ -144,6 +145,8 @@ Optional<Velocity> Attribute::asVelocity() const {
     if (unit) {
       return store(cache_, velocity * *unit);
     }
+  } catch (std::bad_alloc&) {
+    throw;  // this says nothing about the value
   } catch (std::exception&) {
   }
   // ok, give up
-- 
2.43.0


From 8659aa3c3a635f62af1b9beb7d1a373e0f628249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 33/39] fix: do not cut labels in graphml files when out of
 memory

---
 .../internal/RoutingGraphVisualization.h      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
index 0d3e2dd..dea9808 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h
@@ -2,7 +2,9 @@
 
 #include <boost/graph/graphml.hpp>
 #include <boost/graph/graphviz.hpp>
+#include <boost/property_map/transform_value_property_map.hpp>
 #include <iostream>
+#include <new>
 
 #include "lanelet2_routing/Exceptions.h"
 #include "lanelet2_routing/Forward.h"
@@ -19,6 +21,19 @@ inline std::istream& operator>>(std::istream& is, const RelationType& /*r*/) { r
 
 namespace internal {
 
+/** @brief Label of a vertex in a graphML file. Boost prints it to a stream of its own and would take what fits into memory
+ * for the whole label. */
+struct VertexLabelGraphML {
+  ConstLaneletOrArea laneletOrArea;
+};
+inline std::ostream& operator<<(std::ostream& os, const VertexLabelGraphML& r) {
+  os << r.laneletOrArea;
+  if (os.bad()) {
+    throw std::bad_alloc();
+  }
+  return os;
+}
+
 /** @brief Internal vertex writer for graphViz file export. */
 template <class Graph>
 class VertexWriterGraphViz {
@@ -108,7 +123,9 @@ inline void exportGraphMLImpl(const std::string& filename, const G& g, E eFilter
 
   boost::filtered_graph<G, EdgeCostFilter<G>> filteredGraph(g, eFilter, vFilter);
 
-  auto pmId = boost::get(&VertexInfo::laneletOrArea, filteredGraph);  // NOLINT
+  auto pmId = boost::make_transform_value_property_map(
+      [](const ConstLaneletOrArea& la) { return VertexLabelGraphML{la}; },
+      boost::get(&VertexInfo::laneletOrArea, filteredGraph));  // NOLINT
   auto pmRelation = boost::get(&EdgeInfo::relation, filteredGraph);
   auto pmRoutingCosts = boost::get(&EdgeInfo::routingCost, filteredGraph);
 
-- 
2.43.0


From 5a193796a90c3280dece10d62ce6cc0e383b7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 34/39] fix: do not leak what has been loaded when loading a
 bin file fails

---
 .../lanelet2_io/io_handlers/Serialize.h       | 89 +++++++++++++------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h b/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h
index 4c9b432..b69487d 100644
--- a/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h
+++ b/lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h
@@ -8,6 +8,8 @@
 #include <boost/serialization/variant.hpp>
 #include <boost/serialization/vector.hpp>
 #include <map>
+#include <memory>
+#include <new>
 #include <set>
 
 namespace lanelet {
@@ -33,6 +35,29 @@ void loadRegelems(Archive& ar, RegelemsT& regelems) {
     ar >> regelems[i];
   }
 }
+
+// boost never releases an object whose loading fails. Therefore this releases the memory if there is no object yet and
+// otherwise passes the object to the archive, which shares it with everything that is loaded from it.
+template <typename Archive, typename T, typename ConstructT>
+void constructLoaded(Archive& ar, T* object, const ConstructT& construct) {
+  using SharedPtrHelper = boost::serialization::shared_ptr_helper<std::shared_ptr>;
+  struct NeverReleased {
+    static void operator delete(void* /*object*/) noexcept {}
+  };
+  static NeverReleased neverReleased;
+  SharedPtrHelper* helper{};
+  try {
+    helper = &ar.template get_helper<SharedPtrHelper>(boost::serialization::shared_ptr_helper_id);
+    std::shared_ptr<NeverReleased> sharedBefore;
+    helper->reset(sharedBefore, &neverReleased);  // from now on, reset either takes or releases the object if it fails
+    construct();
+  } catch (...) {
+    ::operator delete(object);
+    throw;
+  }
+  std::shared_ptr<T> shared;
+  helper->reset(shared, object);
+}
 }  // namespace impl
 }  // namespace lanelet
 
@@ -94,12 +119,14 @@ template <class Archive>
 inline void load_construct_data(Archive& ar, lanelet::LaneletData* llt, unsigned int /*version*/
 ) {
   using namespace lanelet;
-  Id id = 0;
-  AttributeMap attrs;
-  LineString3d left;
-  LineString3d right;
-  ar >> id >> attrs >> left >> right;
-  new (llt) LaneletData(id, left, right, attrs);
+  lanelet::impl::constructLoaded(ar, llt, [&] {
+    Id id = 0;
+    AttributeMap attrs;
+    LineString3d left;
+    LineString3d right;
+    ar >> id >> attrs >> left >> right;
+    new (llt) LaneletData(id, left, right, attrs);
+  });
   lanelet::impl::loadRegelems(ar, llt->regulatoryElements());  // must happen directly to the correct memory location
   bool hasCenterline = false;
   ar >> hasCenterline;
@@ -167,11 +194,13 @@ template <class Archive>
 // NOLINTNEXTLINE
 inline void load_construct_data(Archive& ar, lanelet::LineStringData* l, unsigned int /*version*/) {
   using namespace lanelet;
-  Id id = 0;
-  AttributeMap attr;
-  Points3d points;
-  ar >> id >> attr >> points;
-  new (l) LineStringData(id, points, attr);
+  lanelet::impl::constructLoaded(ar, l, [&] {
+    Id id = 0;
+    AttributeMap attr;
+    Points3d points;
+    ar >> id >> attr >> points;
+    new (l) LineStringData(id, points, attr);
+  });
 }
 
 template <typename Archive>
@@ -238,11 +267,13 @@ template <class Archive>
 // NOLINTNEXTLINE
 inline void load_construct_data(Archive& ar, lanelet::PointData* p, unsigned int /*version*/) {
   using namespace lanelet;
-  Id id = 0;
-  AttributeMap attrs;
-  BasicPoint3d pt;
-  ar >> id >> attrs >> pt.x() >> pt.y() >> pt.z();
-  new (p) PointData(id, pt, attrs);
+  lanelet::impl::constructLoaded(ar, p, [&] {
+    Id id = 0;
+    AttributeMap attrs;
+    BasicPoint3d pt;
+    ar >> id >> attrs >> pt.x() >> pt.y() >> pt.z();
+    new (p) PointData(id, pt, attrs);
+  });
 }
 
 template <typename Archive>
@@ -285,12 +316,14 @@ template <class Archive>
 // NOLINTNEXTLINE
 inline void load_construct_data(Archive& ar, lanelet::AreaData* a, unsigned int /*version*/) {
   using namespace lanelet;
-  Id id = 0;
-  AttributeMap attrs;
-  InnerBounds inner;
-  LineStrings3d outer;
-  ar >> id >> attrs >> inner >> outer;
-  new (a) AreaData(id, outer, inner, attrs);
+  lanelet::impl::constructLoaded(ar, a, [&] {
+    Id id = 0;
+    AttributeMap attrs;
+    InnerBounds inner;
+    LineStrings3d outer;
+    ar >> id >> attrs >> inner >> outer;
+    new (a) AreaData(id, outer, inner, attrs);
+  });
   lanelet::impl::loadRegelems(ar, a->regulatoryElements());
 }
 
@@ -392,11 +425,13 @@ template <class Archive>
 // NOLINTNEXTLINE
 inline void load_construct_data(Archive& ar, lanelet::RegulatoryElementData* r, unsigned int /*version*/) {
   using namespace lanelet;
-  Id id = 0;
-  AttributeMap attr;
-  RuleParameterMap params;
-  ar >> id >> attr >> params;
-  new (r) RegulatoryElementData(id, params, attr);
+  lanelet::impl::constructLoaded(ar, r, [&] {
+    Id id = 0;
+    AttributeMap attr;
+    RuleParameterMap params;
+    ar >> id >> attr >> params;
+    new (r) RegulatoryElementData(id, params, attr);
+  });
 }
 
 template <typename Archive>
-- 
2.43.0


From 5e1ac581be36917f1e9e22c7c2ae0e28036dfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 35/39] fix: do not terminate when running out of memory in
 functions that allocate

---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 lanelet2_core/include/lanelet2_core/primitives/Primitive.h  | 2 +-
 lanelet2_routing/include/lanelet2_routing/RoutingCost.h     | 4 ++--
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h  | 6 +++---
 lanelet2_routing/src/RoutingCost.cpp                        | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 88f167b..d718f50 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -342,7 +342,7 @@ class ConstLineStringImpl : public ConstPrimitive<LineStringData> {
    * BasicLineString is registered with boost::geometry, therefore you can use
    * it for geometry calculations.
    */
-  BasicLineString basicLineString() const noexcept { return {basicBegin(), basicEnd()}; }
+  BasicLineString basicLineString() const { return {basicBegin(), basicEnd()}; }
 
   template <typename LineStringT>
   class CompoundLineString;
diff --git a/lanelet2_core/include/lanelet2_core/primitives/Primitive.h b/lanelet2_core/include/lanelet2_core/primitives/Primitive.h
index b8d77b9..827f76f 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Primitive.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Primitive.h
@@ -140,7 +140,7 @@ class ConstPrimitive {
    * did not exist or could not be converted.
    */
   template <typename T>
-  T attributeOr(const std::string& name, T defaultVal) const noexcept {
+  T attributeOr(const std::string& name, T defaultVal) const {
     auto elem = attributes().find(name);
     if (elem == attributes().end()) {
       return defaultVal;
diff --git a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
index 789d123..bfb6f5c 100644
--- a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
+++ b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
@@ -72,7 +72,7 @@ class RoutingCostDistance : public RoutingCost {
 
  private:
   static double length(const ConstLanelet& ll) noexcept;
-  static double length(const ConstArea& ar) noexcept;
+  static double length(const ConstArea& ar);
   const double laneChangeCost_, minChangeLength_;  // NOLINT
 };
 
@@ -94,7 +94,7 @@ class RoutingCostTravelTime : public RoutingCost {
   }
 
   inline double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                                  const ConstLanelets& /*to*/) const noexcept override {
+                                  const ConstLanelets& /*to*/) const override {
     if (minChangeTime_ <= 0.) {
       return laneChangeCost_;
     }
diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 6520ff2..e579609 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -223,11 +223,11 @@ class Graph {
   //! Helper function to determine the graph vertex of a given lanelet
   Optional<typename boost::graph_traits<BaseGraphT>::vertex_descriptor> getVertex(
       const ConstLaneletOrArea& lanelet) const noexcept {
-    try {
-      return laneletOrAreaToVertex_.at(lanelet);
-    } catch (std::out_of_range&) {
+    auto vertex = laneletOrAreaToVertex_.find(lanelet);
+    if (vertex == laneletOrAreaToVertex_.end()) {
       return {};
     }
+    return vertex->second;
   }
 
  private:
diff --git a/lanelet2_routing/src/RoutingCost.cpp b/lanelet2_routing/src/RoutingCost.cpp
index 047bab6..e938a25 100644
--- a/lanelet2_routing/src/RoutingCost.cpp
+++ b/lanelet2_routing/src/RoutingCost.cpp
@@ -34,7 +34,7 @@ double RoutingCostTravelTime::travelTime(const traffic_rules::TrafficRules& traf
 
 double RoutingCostDistance::length(const ConstLanelet& ll) noexcept { return geometry::approximatedLength2d(ll); }
 
-double RoutingCostDistance::length(const ConstArea& ar) noexcept {
+double RoutingCostDistance::length(const ConstArea& ar) {
   return double(boost::geometry::perimeter(utils::to2D(ar.outerBoundPolygon())));
 }
 }  // namespace routing
-- 
2.43.0


From 22c55e34bc7d233c2e7c942e90a7feaee05109aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 36/39] fix: report osm elements whose id appears more than
 once

The later element silently replaced the first one, or its members were added to those of the first one.
---
 lanelet2_io/src/OsmFile.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 2328ffc..3da8446 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -214,7 +214,7 @@ class OsmFileParser {
     OsmFileParser osmParser;
     File file;
     auto osmNode = fileNode.child(keyword::Osm);
-    file.nodes = lanelet::osm::OsmFileParser::readNodes(osmNode);
+    file.nodes = osmParser.readNodes(osmNode);
     file.ways = osmParser.readWays(osmNode, file.nodes);
     file.relations = osmParser.readRelations(osmNode, file.nodes, file.ways);
     if (errors != nullptr) {
@@ -224,7 +224,7 @@ class OsmFileParser {
   }
 
  private:
-  static Nodes readNodes(const pugi::xml_node& osmNode) {
+  Nodes readNodes(const pugi::xml_node& osmNode) {
     Nodes nodes;
     for (auto node = osmNode.child(keyword::Node); node;  // NOLINT
          node = node.next_sibling(keyword::Node)) {
@@ -238,7 +238,9 @@ class OsmFileParser {
       const auto ele = node.find_child_by_attribute(keyword::Tag, keyword::Key, keyword::Elevation)
                            .attribute(keyword::Value)
                            .as_double(0.);
-      nodes[id] = Node{id, attributes, {lat, lon, ele}};
+      if (!nodes.emplace(id, Node{id, attributes, {lat, lon, ele}}).second) {
+        reportParseError(id, "There is more than one node with this id");
+      }
     }
     return nodes;
   }
@@ -266,7 +268,9 @@ class OsmFileParser {
       } catch (std::out_of_range&) {
         reportParseError(id, "Way references nonexisting points");
       }
-      ways[id] = Way{id, attributes, wayNodes};
+      if (!ways.emplace(id, Way{id, attributes, wayNodes}).second) {
+        reportParseError(id, "There is more than one way with this id");
+      }
     }
     return ways;
   }
@@ -283,7 +287,12 @@ class OsmFileParser {
       }
       const auto id = node.attribute(keyword::Id).as_llong(InvalId);
       const auto attributes = tags(node);
-      auto& relation = relations.emplace(id, Relation{id, attributes, {}}).first->second;
+      const auto inserted = relations.emplace(id, Relation{id, attributes, {}});
+      if (!inserted.second) {
+        reportParseError(id, "There is more than one relation with this id");
+        continue;
+      }
+      auto& relation = inserted.first->second;
 
       // resolve members
       auto& roles = relation.members;
-- 
2.43.0


From bbdc6ac7815c84632aa5fe7a956346ef33916a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 37/39] fix: do not lose track of members of a relation when
 one of them can not be written

After removing the placeholder of a lanelet or area that is not in the map, the placeholders behind it were looked for one
position too far back.
---
 lanelet2_io/src/OsmHandlerWrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index 9929e40..8fd5164 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -29,7 +29,8 @@ void removeAndFixPlaceholders(osm::Primitive** toRemove, osm::Roles& fromRoles,
   std::vector<std::pair<size_t, osm::Primitive**>> placeholderLocations;
   for (auto it = fromRoles.begin(); it != fromRoles.end(); ++it) {
     if (it->second == nullptr && remIt != it) {
-      placeholderLocations.emplace_back(std::distance(fromRoles.begin(), it), &it->second);
+      auto idx = std::distance(fromRoles.begin(), it);
+      placeholderLocations.emplace_back(it > remIt ? idx - 1 : idx, &it->second);
     }
   }
   fromRoles.erase(remIt);
-- 
2.43.0


From c461860a3d7ceb94b17bc36e73ff9b7d44d163e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 38/39] fix: report the boundary of an area that is still open
 when there are no more linestrings

The linestrings were dropped without any message.
---
 lanelet2_io/src/OsmHandlerLoad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index f501d50..1ce0677 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -372,6 +372,9 @@ class FromFileLoader {  // NOLINT
         rings.emplace_back(LineStrings3d());
       }
     }
+    if (!rings.back().empty()) {
+      parserError(id, "Could not complete boundary around linestring " + std::to_string(rings.back().back().id()));
+    }
     rings.pop_back();  // last ring will be empty or invalid
     return rings;
   }
-- 
2.43.0


From a179afb8843f76481617237bad460f3ae0d5678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:37 +0000
Subject: [PATCH 39/39] fix: leave lanelets out of a route that only lead in
 circles

---
 lanelet2_routing/src/RouteBuilder.cpp | 31 +++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 2634693..3680d1a 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -73,6 +73,36 @@ class VisitedLaneletGraph {
     }
   }
 
+  //! Prunes all lanelets from which the lanelet llt can not be reached. Those are not necessarily leafs, they can also be
+  //! part of a circle.
+  void pruneAllNotLeadingTo(LaneletVertexId llt, const NextToRouteGraph& g) {
+    std::unordered_set<LaneletVertexId> leading{llt};
+    LaneletVertexIds queue{llt};
+    while (!queue.empty()) {
+      auto dest = queue.back();
+      queue.pop_back();
+      auto onRoute = routeLanelets_->find(dest) != routeLanelets_->end();
+      auto inEdges = boost::in_edges(dest, g);
+      std::for_each(inEdges.first, inEdges.second, [&](NextToRouteGraph::edge_descriptor e) {
+        // lane changes only count if they end on the route, see add()
+        auto relation = g[e].relation;
+        auto isLaneChange = relation == RelationType::Left || relation == RelationType::Right;
+        if (relation != RelationType::Successor && !(isLaneChange && onRoute)) {
+          return;
+        }
+        auto vertex = visited_.find(boost::source(e, g));
+        if (vertex != visited_.end() && !!vertex->second && leading.insert(vertex->first).second) {
+          queue.push_back(vertex->first);
+        }
+      });
+    }
+    for (auto& vertex : visited_) {
+      if (!!vertex.second && leading.find(vertex.first) == leading.end()) {
+        remove(vertex, g);
+      }
+    }
+  }
+
   //! Clears the graph
   void clear() {
     for (auto& vertex : visited_) {
@@ -397,6 +427,7 @@ class RouteUnderConstruction {
 
     // remove lanelets that do not lead to end_ from the graph
     laneletVisitor_.pruneLeafsExcluding(end_, nextToRouteGraph_);
+    laneletVisitor_.pruneAllNotLeadingTo(end_, nextToRouteGraph_);
 
     // remove lanelets that (temporarily) leave the route from the graph
     pathOutOfRouteFinder_.forEachVertexOutOfRoute(
-- 
2.43.0

