// Harness shared by all scenarios: pure-data map model, builders, canonical dumps, clients, exception categories.
// Harness code runs with the simulator's bookkeeping switched off ("harness mode"); library calls are wrapped in Lib.
#pragma once
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "plan.h"

namespace h {
using namespace sim;
using lanelet::Id;
using Attrs = std::map<std::string, std::string>;

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string num(double d);       // %.17g
std::string coarse(double d);    // snapped to the millimetre grid if within text precision of it

// ---------------------------------------------------------------- pure data model of a map
struct PtS { Id id; double x, y, z; Attrs a; };
struct LsS { Id id; std::vector<int> pts; Attrs a; };
struct Ref { int i = -1; bool inv = false; };
struct LlS { Id id; Ref left, right, center; Attrs a; std::vector<int> regs; };
struct ArS { Id id; std::vector<Ref> outer; std::vector<std::vector<Ref>> inner; Attrs a; std::vector<int> regs; };
enum ParamKind { kP = 0, kL, kG, kT, kA };
struct Param { int kind; int i; bool inv; };
struct ReS { Id id; std::string rule; Attrs a; std::map<std::string, std::vector<Param>> params; };
struct Spec {
  std::vector<PtS> p;
  std::vector<LsS> l;
  std::vector<LsS> g;
  std::vector<LlS> t;
  std::vector<ArS> a;
  std::vector<ReS> r;
  bool empty() const { return p.empty() && l.empty() && g.empty() && t.empty() && a.empty() && r.empty(); }
  size_t total() const { return p.size() + l.size() + g.size() + t.size() + a.size() + r.size(); }
};
// reads cfg keys with the given prefix: ms(seed, "_ms"), lanes, segs, npts, div, xw, areas, regs, loose, odd, cl, opp, miss, ids
Spec genNet(const Plan& p, const std::string& prefix = "");
// default random cfg for genNet
void genNetCfg(Plan& p, Rng& r, int size /*0 tiny 1 small 2 medium*/, const std::string& prefix = "");
void shiftIds(Spec& s, Id by);

// ---------------------------------------------------------------- building
struct Built {
  std::vector<lanelet::Point3d> p;
  std::vector<lanelet::LineString3d> l;
  std::vector<lanelet::Polygon3d> g;
  std::vector<lanelet::Lanelet> t;
  std::vector<lanelet::Area> a;
  std::vector<lanelet::RegulatoryElementPtr> r;
  lanelet::LaneletMapPtr map;
};
// how: 0 constructor from layer maps, 1 incremental adds in random order, 2 createMap(lanelets, areas) + rest
Built buildObjects(const Spec& s, u64 orderSeed);                  // primitives only
void buildMap(const Spec& s, Built& b, int how, u64 orderSeed);    // fills b.map
Built build(const Spec& s, int how, u64 orderSeed);
lanelet::RegulatoryElementPtr makeReg(const ReS& r, const Built& b);
lanelet::AttributeMap toAttr(const Attrs& a);

// ---------------------------------------------------------------- canonical text
enum DumpOpt { kExact = 0, kOsm = 1 };
using Dump = std::map<std::string, std::string>;  // key ("P 12") -> description
Dump dumpSpec(const Spec& s, int opt = kExact);
Dump dumpMap(const lanelet::LaneletMapLayers& m, int opt = kExact);
Dump dumpBuilt(const Built& b, int opt = kExact);  // the objects themselves, not via the map
std::string dumpText(const Dump& d);
std::string diff(const Dump& want, const Dump& got, size_t maxLines = 6);  // empty if equal
std::string attrText(const lanelet::AttributeMap& a);
std::string attrText(const Attrs& a);
std::string closure(const lanelet::LaneletMap& m);  // identity of referenced objects with the layers; empty if fine
std::string refText(const lanelet::ConstLineString3d& l);
std::string laneletText(const lanelet::ConstLanelet& l, int opt = kExact);

// ---------------------------------------------------------------- calls and outcomes
enum class Ex { None, Lanelet, Io, BadAlloc, Plugin, Std, Unknown };
const char* exName(Ex e);
struct PluginError {  // deliberately not a std::exception
  int n;
};
struct Res {
  Ex ex = Ex::None;
  std::string type, what;
  bool ok() const { return ex == Ex::None; }
  std::string text() const { return ok() ? "ok" : std::string(exName(ex)) + " " + type + ": " + what; }
};
Res classifyCurrent();
template <typename F>
Res attempt(F&& f) {  // runs f in library mode, classifies what it throws
  Res r;
  sim::Lib lib;
  try {
    f();
  } catch (...) {
    sim::Harness hm;
    r = classifyCurrent();
  }
  return r;
}
template <typename F>
auto lib(F&& f) {  // runs f in library mode; result must outlive (allocated on the library heap)
  sim::Lib l;
  return f();
}

// ---------------------------------------------------------------- clients
void runClients(int n, const std::function<void(int)>& fn);  // fn runs in harness mode on simulated threads 1..n
int clientOf();                                              // 0-based client index of the calling simulated thread
void schedFrom(Plan& p, Rng& r, u64 lengthHint = 20000);     // random scheduling strategy

// ---------------------------------------------------------------- faults
void armIo(const Ctx& c, int life);  // install io faults of this life from the plan
const Fault* findFault(const Ctx& c, const char* name, int life);
[[noreturn]] void fail(const char* cat, const std::string& msg);
void expectEq(const char* cat, const std::string& what, const Dump& want, const Dump& got);
void sample(const std::string& s);
struct LeakScope {  // live library blocks must be the same at check()
  u64 blocks, seq;
  LeakScope() : blocks(liveBlocks()), seq(allocSeq()) {}
  void check(const char* what, const char* cat = "leak") const;
};
std::vector<int> permutation(Rng& r, int n);
std::string diskContent(const std::string& name);
template <typename T>
const T& pickOf(Rng& r, const std::vector<T>& v) {
  return v[r.below(v.size())];
}
}  // namespace h
