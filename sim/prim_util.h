// Reading primitives through const access in many ways, and what each read must give according to the pure-data model.
#pragma once
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LaneletSequence.h>

#include "h.h"

namespace h {
struct Fix {  // real objects shared by the readers
  Built b;
  std::unique_ptr<lanelet::LaneletSequence> seq;
  std::unique_ptr<lanelet::CompoundLineString3d> comp;
  std::unique_ptr<lanelet::CompoundPolygon3d> cpoly;
  std::vector<lanelet::ConstWeakLanelet> weak;
  lanelet::LineString3d attrs;
};
struct FixSpec {  // what they are made of
  Spec s;
  std::vector<int> seq;
  std::vector<Ref> comp;
};
constexpr int kNumPrimKinds = 17;
FixSpec makeFixSpec(Spec s, u64 seed);
Fix makeFix(const FixSpec& f, u64 orderSeed);
void dropFix(Fix& f);
// lib mode; the text of one reading operation
std::string readPrim(const Fix& f, i64 kind, i64 idx, i64 var);
// harness mode; the text it must have, "" if only comparable with another execution
std::string wantPrim(const FixSpec& f, i64 kind, i64 idx, i64 var);
// structural check of a computed centerline: "" if fine
std::string checkCenterline(const Spec& s, int t, const lanelet::ConstLineString3d& c);
std::string describePrim(i64 kind, i64 idx, i64 var);
}  // namespace h
