// Questions to traffic rules, matching, projections, regulatory elements and the factories over a shared world of objects.
#pragma once
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include "graph_util.h"
#include "io_util.h"

namespace h {
constexpr int kNumMiscKinds = 30;
constexpr int kNumRuleKinds = 11;  // the first ones are questions to traffic rules
struct World {
  Spec s;
  Built b;
  lanelet::traffic_rules::TrafficRulesPtr rules[2];
  std::unique_ptr<lanelet::Projector> proj[8];
  std::vector<std::pair<int, int>> related;  // lanelets next to or after each other
  std::vector<std::pair<int, int>> relLa, relAa;
  std::vector<lanelet::BasicPoint2d> spots;
};
void makeWorld(World& w, const Plan& p);  // cfg: rules0, rules1, _order
void fillWorld(World& w, const Plan& p);  // the same around a spec and objects that are there already
void dropWorld(World& w);
std::string askMisc(const World& w, const Op& op);  // op: kind rules a b seed
std::string describeMisc(const Op& op);
}  // namespace h
