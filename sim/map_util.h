// Queries on maps and submaps and what each must answer according to a plain scan over the pure-data model.
#pragma once
#include "h.h"

namespace h {
enum MapKind { mP = 0, mL, mG, mT, mA, mR };
struct MapModel {  // which elements of the spec are in the map
  const Spec* s = nullptr;
  std::set<int> in[6];
  bool full = true;  // a LaneletMap (closed under references), not a submap
  size_t count(int k) const;
  Id id(int k, int i) const;
  static MapModel all(const Spec& s);
};
struct MapQuery {
  int kind = 0, layer = 0;
  i64 var = 0;
  u64 seed = 0;
};
struct MapAnswer {
  std::string text;  // outcome as text (ids sorted where order is free)
  std::vector<Id> ids;  // in the order given
  std::vector<double> d;
  bool hit = false;
};
constexpr int kNumMapQueries = 14;
// library mode inside; mutable overloads if var is odd
MapAnswer askMap(lanelet::LaneletMapLayers& m, const Built& b, const Spec& s, const MapQuery& q);
// harness mode; "" if right
std::string judgeMap(const MapModel& m, const MapQuery& q, const MapAnswer& a);
std::string describeMap(const MapQuery& q);
// all layers scanned through iteration, size, exists, get and find plus a few location and usage queries
std::string checkWholeMap(lanelet::LaneletMapLayers& map, const Built& b, const MapModel& m, u64 seed, int extra = 12);
}  // namespace h
