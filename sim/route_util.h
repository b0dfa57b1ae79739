#pragma once
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include "h.h"

namespace h {
inline const char* participantOf(int i) {
  static const char* const k[] = {"vehicle", "bicycle", "pedestrian", "vehicle:car", "vehicle:bus", "vehicle:emergency", "vehicle:taxi", "vehicle:truck"};
  return k[i % 8];
}
inline lanelet::traffic_rules::TrafficRulesPtr makeRules(int participant) {  // library mode
  return lanelet::traffic_rules::TrafficRulesFactory::create(lanelet::Locations::Germany, participantOf(participant));
}
}  // namespace h
