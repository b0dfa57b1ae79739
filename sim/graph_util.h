// Independent reference of a routing graph: built from the pure-data model with plain loops, asked and judged with
// textbook searches. Only the traffic rules and custom routing costs are asked through the library's objects.
#pragma once
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_routing/RoutingGraphContainer.h>

#include "map_util.h"
#include "route_util.h"

namespace h {
namespace lr = lanelet::routing;
enum Rel { kSucc = 1, kLeft = 2, kRight = 4, kAdjL = 8, kAdjR = 16, kConf = 32, kArea = 64 };

// ---------------------------------------------------------------- user plug-ins (pure functions of ids)
struct TableRules : lanelet::traffic_rules::TrafficRules {
  u64 seed;
  explicit TableRules(u64 s);
  bool bit(u64 tag, Id a, bool ai, Id b, bool bi, u64 num, u64 den) const {
    return mix(mix(mix(seed, tag), u64(a) * 2 + ai), u64(b) * 2 + bi) % den < num;
  }
  bool canPass(const lanelet::ConstLanelet& l) const override;
  bool canPass(const lanelet::ConstArea& a) const override;
  bool canPass(const lanelet::ConstLanelet& a, const lanelet::ConstLanelet& b) const override;
  bool canPass(const lanelet::ConstLanelet& a, const lanelet::ConstArea& b) const override;
  bool canPass(const lanelet::ConstArea& a, const lanelet::ConstLanelet& b) const override;
  bool canPass(const lanelet::ConstArea& a, const lanelet::ConstArea& b) const override;
  bool canChangeLane(const lanelet::ConstLanelet& a, const lanelet::ConstLanelet& b) const override;
  lanelet::traffic_rules::SpeedLimitInformation speedLimit(const lanelet::ConstLanelet& l) const override;
  lanelet::traffic_rules::SpeedLimitInformation speedLimit(const lanelet::ConstArea& a) const override;
  bool isOneWay(const lanelet::ConstLanelet& l) const override;
  bool hasDynamicRules(const lanelet::ConstLanelet&) const override { return false; }
};
struct TableCost : lr::RoutingCost {
  u64 seed;
  int mode;  // 0 fine (ties practically impossible), 1 coarse (many ties, zeros)
  explicit TableCost(u64 s, int m) : seed(s), mode(m) {}
  double value(u64 hsh) const;
  double getCostSucceeding(const lanelet::traffic_rules::TrafficRules&, const lanelet::ConstLaneletOrArea& from,
                           const lanelet::ConstLaneletOrArea& to) const override;
  double getCostLaneChange(const lanelet::traffic_rules::TrafficRules&, const lanelet::ConstLanelets& from,
                           const lanelet::ConstLanelets& to) const override;
};
struct CostS {  // description of one routing cost
  int kind = 0;  // 0 distance, 1 travel time, 2 table fine, 3 table coarse
  double change = 10, minLen = 0;
  u64 seed = 0;
};
struct GraphCfg {
  int rules = 0;  // 0..7 German participant, 8 table
  u64 ruleSeed = 0;
  std::vector<CostS> costs;
  int height = 0;  // 0 none, 1 huge, 2 small
};
GraphCfg graphCfg(const Plan& p, const std::string& pre = "");
void graphCfgGen(Plan& p, Rng& r, const std::string& pre = "");
lanelet::traffic_rules::TrafficRulesPtr rulesOf(const GraphCfg& g);  // library mode
lr::RoutingCostPtrs costsOf(const GraphCfg& g);                      // library mode
lr::RoutingGraph::Configuration configOf(const GraphCfg& g);         // library mode

// ---------------------------------------------------------------- reference
struct GNode {
  bool area = false;
  int i = -1;
  bool inv = false;
};
struct GEdge {
  int from, to, rel;
  double cost;
  int sure = 1;  // 0: shapes touch so closely that either answer is right
};
struct RefGraph {
  const Spec* s = nullptr;
  std::vector<GNode> n;
  std::map<std::string, int> idx;
  std::vector<std::vector<GEdge>> e;                 // per cost id
  std::vector<std::vector<std::vector<int>>> out, in;  // per cost id, per node: edge numbers
  std::vector<CostS> costs;
  bool exact(int cost) const { return costs[size_t(cost)].kind >= 2; }
  bool negative = false;
  bool vague = false;               // a decision of the construction is too close to call
  double tol = 1e-9, eps = 1e-6, polyTol = 1e-9;  // relative tolerance of costs, absolute one of limits
  std::string key(int node) const;
  int find(const std::string& k) const {
    auto it = idx.find(k);
    return it == idx.end() ? -1 : it->second;
  }
  int numIds() const { return int(e.size()); }
};
struct Handles {
  std::vector<lanelet::ConstLanelet> t;
  std::vector<lanelet::ConstArea> a;
  lanelet::ConstLanelet ll(const GNode& n) const { return n.inv ? t[size_t(n.i)].invert() : t[size_t(n.i)]; }
  lanelet::ConstLaneletOrArea la(const GNode& n) const {
    if (n.area) return a[size_t(n.i)];
    return ll(n);
  }
};
Handles handlesOf(const Built& b);                                                  // harness mode
Handles handlesOf(const Spec& s, const lanelet::LaneletMapLayers& m, int* missing);  // by id; harness mode
RefGraph refGraph(const Spec& s, const Handles& hd, const GraphCfg& cfg, const lanelet::traffic_rules::TrafficRules& rules,
                  const lr::RoutingCostPtrs& costs, const std::set<int>* lanelets = nullptr, const std::set<int>* areas = nullptr,
                  double tol = 1e-9);
// 1 yes, 0 no, -1 too close to call
int lltOverlap(const Spec& s, GNode a, GNode b, double tol);

// ---------------------------------------------------------------- queries
struct GraphQuery {
  int kind = 0;
  int a = 0, b = 0, c = 0;  // node selectors (index over all lanelets/areas in both directions)
  int cost = 0;
  u64 seed = 0;
};
struct Visit {
  std::string node, pred;
  double cost;
  size_t len, lc;
};
struct GraphAnswer {
  Res res;
  bool has = false;                            // optional answers
  std::vector<std::string> nodes;              // sets and lists
  std::vector<std::pair<std::string, int>> rels;
  std::vector<std::vector<std::string>> paths;
  std::vector<Visit> visits;
  std::map<std::string, std::vector<std::string>> m;
  double d = 0;
  i64 num = 0;
};
constexpr int kNumGraphQueries = 26;
GraphAnswer askGraph(const lr::RoutingGraph& g, const RefGraph& ref, const Handles& hd, const GraphQuery& q);
std::string judgeGraph(const RefGraph& ref, const GraphQuery& q, const GraphAnswer& a);
std::string describe(const RefGraph& ref, const GraphQuery& q);
// all relations of all nodes, for all cost ids
std::string checkWholeGraph(const lr::RoutingGraph& g, const RefGraph& ref, const Handles& hd, u64 seed, int extra = 6);
std::string nodeText(const lanelet::ConstLaneletOrArea& la);
std::vector<double> distances(const RefGraph& g, int cost, int mask, int start, bool backward,
                              const std::function<bool(int, double)>& expand = {});
}  // namespace h
