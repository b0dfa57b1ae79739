// C15: user plug-ins of every kind throw (or answer nonsense) at any of their invocations; the surrounding call, the objects it
// was given and later calls are judged against the same call on an identical second set of objects whose plug-ins never fail.
#include <lanelet2_io/io_handlers/Factory.h>
#include <lanelet2_io/io_handlers/Parser.h>
#include <lanelet2_io/io_handlers/Writer.h>
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_validation/BasicValidator.h>
#include <lanelet2_validation/Validation.h>
#include <lanelet2_validation/ValidatorFactory.h>

#include <lanelet2_core/primitives/LineStringOrPolygon.h>

#include <deque>
#include <limits>

#include "graph_util.h"
#include "io_util.h"
#include "map_util.h"

using namespace lanelet;
namespace h {
namespace {
enum Kind {
  kLoadProj, kWriteProj, kRules, kCost, kBadCost, kBadLimit, kFactory, kFactoryFile, kParam, kVariant, kTraverse, kRoute, kSearch, kParser, kWriter, kValidator, kValRules, kMatch, kKinds
};
const char* const kName[] = {"load-projector", "write-projector", "graph-rules", "graph-cost", "graph-negative-cost", "graph-infinite-limit", "factory", "factory-in-file", "parameter-visitor", "variant-visitor", "graph-visitor", "route-visitor", "layer-callback", "parser", "writer", "validator", "validated-rules", "matching-rules"};
// ---------------------------------------------------------------- when and how plug-ins fail
enum Chan { cNone, cProj, cRules, cCost, cBadCost, cBadLimit, cFactory, cVisit, cParser, cWriter, cValidator };
struct Trap {
  int chan = cNone, how = 0;
  i64 payload = 0;
  u64 nth = ~0ull, len = 0, n = 0, fired = 0;
};
Trap g_trap[32];
constexpr int kHows = 14;
[[noreturn]] void raise(int how, i64 v) {
  std::string m;
  {
    Harness hm;
    m = std::string(fmt("sim plug-in failed %lld", (long long)v).c_str());
  }
  const std::string t = std::string("sim plug-in failed ") + std::to_string(v);
  switch (how % kHows) {
    case 0: throw std::runtime_error(t);
    case 1: throw LaneletError(t);
    case 2: throw std::out_of_range(t);
    case 3: throw std::bad_alloc();
    case 4: throw PluginError{int(v)};
    case 5: throw NoSuchPrimitiveError(t);
    case 6: throw InvalidInputError(t);
    case 7: throw ForwardProjectionError(t);
    case 8: throw ReverseProjectionError(t);
    case 9: throw RoutingGraphError(t);
    case 10: throw int(v);
    case 11: throw std::logic_error(t);
    case 12: throw GeometryError(t);
    default: throw InvalidObjectStateError(t);
  }
}
bool isStd(int how) { return how % kHows != 4 && how % kHows != 10; }
bool isLanelet(int how) {
  how %= kHows;
  return how == 1 || (how >= 5 && how <= 9) || how >= 12;
}
bool due(int chan) {  // one invocation of a plug-in; true if it is to fail
  Harness hm;
  Trap& t = g_trap[size_t(sim::self()) % 32];
  if (t.chan != chan) return false;
  u64 i = t.n++;
  if (i < t.nth || i - t.nth >= t.len) return false;
  t.fired++;
  return true;
}
void step(int chan) {
  if (!due(chan)) return;
  Trap& t = g_trap[size_t(sim::self()) % 32];
  raise(t.how, t.payload);
}
// ---------------------------------------------------------------- the plug-ins
struct TrapProjector : Projector {
  const Projector& real;
  explicit TrapProjector(const Projector& r) : Projector(r.origin()), real(r) {}
  BasicPoint3d forward(const GPSPoint& p) const override {
    step(cProj);
    return real.forward(p);
  }
  GPSPoint reverse(const BasicPoint3d& p) const override {
    step(cProj);
    return real.reverse(p);
  }
};
namespace tr = traffic_rules;
struct TrapRules : tr::TrafficRules {
  const tr::TrafficRules* real;
  tr::TrafficRulesUPtr own;
  explicit TrapRules(const tr::TrafficRules& r) : tr::TrafficRules(r.configuration()), real(&r) {}
  explicit TrapRules(const Configuration& c) : tr::TrafficRules(c), own(tr::TrafficRulesFactory::create(Locations::Germany, Participants::Vehicle)) {
    real = own.get();
    step(cRules);
  }
  bool canPass(const ConstLanelet& a) const override { return step(cRules), real->canPass(a); }
  bool canPass(const ConstArea& a) const override { return step(cRules), real->canPass(a); }
  bool canPass(const ConstLanelet& a, const ConstLanelet& b) const override { return step(cRules), real->canPass(a, b); }
  bool canPass(const ConstLanelet& a, const ConstArea& b) const override { return step(cRules), real->canPass(a, b); }
  bool canPass(const ConstArea& a, const ConstLanelet& b) const override { return step(cRules), real->canPass(a, b); }
  bool canPass(const ConstArea& a, const ConstArea& b) const override { return step(cRules), real->canPass(a, b); }
  bool canChangeLane(const ConstLanelet& a, const ConstLanelet& b) const override { return step(cRules), real->canChangeLane(a, b); }
  tr::SpeedLimitInformation speedLimit(const ConstLanelet& a) const override { return limit(real->speedLimit(a)); }
  tr::SpeedLimitInformation speedLimit(const ConstArea& a) const override { return limit(real->speedLimit(a)); }
  bool isOneWay(const ConstLanelet& a) const override { return step(cRules), real->isOneWay(a); }
  bool hasDynamicRules(const ConstLanelet& a) const override { return step(cRules), real->hasDynamicRules(a); }
  static tr::SpeedLimitInformation limit(tr::SpeedLimitInformation s) {
    step(cRules);
    if (due(cBadLimit)) s.speedLimit = Velocity(std::numeric_limits<double>::infinity() * units::MPS());
    return s;
  }
};
tr::RegisterTrafficRules<TrapRules> regRules("simland", Participants::Vehicle);
struct TrapCost : lr::RoutingCost {
  lr::RoutingCostPtr real;
  explicit TrapCost(lr::RoutingCostPtr r) : real(std::move(r)) {}
  double bad(double v) const { return due(cBadCost) ? -1. - v : v; }
  double getCostSucceeding(const tr::TrafficRules& r, const ConstLaneletOrArea& a, const ConstLaneletOrArea& b) const override {
    step(cCost);
    double v = real->getCostSucceeding(r, a, b);
    return std::isfinite(v) ? bad(v) : v;
  }
  double getCostLaneChange(const tr::TrafficRules& r, const ConstLanelets& a, const ConstLanelets& b) const override {
    step(cCost);
    double v = real->getCostLaneChange(r, a, b);
    return std::isfinite(v) ? bad(v) : v;
  }
};
class TrapReg : public RegulatoryElement {
 public:
  static constexpr char RuleName[] = "sim_trap";
  explicit TrapReg(const RegulatoryElementDataPtr& d) : RegulatoryElement(d) { step(cFactory); }
};
RegisterRegulatoryElement<TrapReg> regTrap;
class TrapParser : public io_handlers::Parser {
 public:
  TrapParser(const Projector& p, const io::Configuration& c) : Parser(p, c) { step(cParser); }
  std::unique_ptr<LaneletMap> parse(const std::string& file, ErrorMessages& errors) const override {
    step(cParser);
    auto real = io_handlers::ParserFactory::create("osm_handler", projector());
    errors.push_back("sim parser was here");
    step(cParser);
    auto map = real->parse("/simdisk/src.osm", errors);
    step(cParser);
    errors.clear();
    return map;
  }
  static constexpr const char* extension() { return ".simin"; }
  static constexpr const char* name() { return "sim_parser"; }
};
io_handlers::RegisterParser<TrapParser> regParser;
class TrapWriter : public io_handlers::Writer {
 public:
  TrapWriter(const Projector& p, const io::Configuration& c) : Writer(p, c) { step(cWriter); }
  void write(const std::string& file, const LaneletMap& map, ErrorMessages& errors, const io::Configuration& params) const override {
    step(cWriter);
    auto real = io_handlers::WriterFactory::create("osm_handler", projector());
    errors.push_back("sim writer was here");
    step(cWriter);
    real->write(file, map, errors, params);
    step(cWriter);
    errors.clear();
  }
  static constexpr const char* extension() { return ".simout"; }
  static constexpr const char* name() { return "sim_writer"; }
};
io_handlers::RegisterWriter<TrapWriter> regWriter;
namespace va = validation;
struct TrapMapValidator : va::MapValidator {
  constexpr static const char* name() { return "sim.map"; }
  TrapMapValidator() { step(cValidator); }
  va::Issues operator()(const LaneletMap& m) override {
    va::Issues o;
    for (auto& l : m.laneletLayer) {
      step(cValidator);
      o.emplace_back(va::Severity::Warning, va::Primitive::Lanelet, l.id(), "seen");
    }
    return o;
  }
};
va::RegisterMapValidator<TrapMapValidator> regV1;
struct TrapRuleValidator : va::TrafficRuleValidator {
  constexpr static const char* name() { return "sim.rules"; }
  TrapRuleValidator() { step(cValidator); }
  va::Issues operator()(const LaneletMap& m, const std::vector<tr::TrafficRulesUPtr>& rules) override {
    va::Issues o;
    for (auto& r : rules)
      for (auto& l : m.laneletLayer) {
        step(cValidator);
        o.emplace_back(r->canPass(l) ? va::Severity::Warning : va::Severity::Error, va::Primitive::Lanelet, l.id(), "asked");
      }
    return o;
  }
};
va::RegisterTrafficRuleValidator<TrapRuleValidator> regV2;
struct TrapGraphValidator : va::RoutingGraphValidator {
  constexpr static const char* name() { return "sim.graph"; }
  TrapGraphValidator() { step(cValidator); }
  va::Issues operator()(const lr::RoutingGraph& g, const tr::TrafficRules&) override {
    va::Issues o;
    for (auto& l : g.passableSubmap()->laneletLayer) {
      step(cValidator);
      o.emplace_back(va::Severity::Info, va::Primitive::Lanelet, l.id(), std::to_string(g.following(l).size()) + " following");
    }
    return o;
  }
};
va::RegisterRoutingGraphValidator<TrapGraphValidator> regV3;

// ops: call kind a b c d pos len sweep how nest
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(8)) / 4);
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_how"] = i64(r.below(3));
  p.cfg["_fragile"] = i64(r.below(1000));
  p.cfg["proj"] = i64(r.below(3));
  graphCfgGen(p, r);
  int n = r.chance(1, 3) ? int(r.range(2, 3)) : 1;
  p.cfg["clients"] = n;
  if (n > 1) schedFrom(p, r, 20000);
  int hot = int(r.below(kKinds));
  i64 hotA = i64(r.below(100000)), hotB = i64(r.below(100000));
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(2, n > 1 ? 4 : 8)); k > 0; k--) {
      i64 kind = r.chance(1, 3) ? hot : i64(r.below(kKinds));
      i64 len = r.chance(2, 3) ? 1 : r.chance(1, 2) ? i64(1) << 40 : i64(r.range(2, 10));
      p.op(c, "call", {kind, i64(r.below(100000)), r.chance(1, 2) ? hotA : i64(r.below(100000)), r.chance(1, 2) ? hotB : i64(r.below(100000)), i64(r.below(100000)), i64(r.below(1000)), len,
                       r.chance(1, 2) ? i64(r.range(2, 40)) : 0, i64(r.below(kHows)), i64(r.below(4))});
    }
}
struct Side {
  Built b;
  tr::TrafficRulesPtr rules;
  lr::RoutingCostPtrs costs;
  tr::TrafficRulesPtr trapRules;
  lr::RoutingCostPtrs trapCosts;
  lr::RoutingGraphUPtr graph;
  Handles hd;
  std::unique_ptr<Projector> real, proj;
  std::deque<lr::Route> routes;
};
struct Shared {
  Spec s;
  Dump want[2];
  GraphCfg cfg;
  RefGraph ref;
};
struct Out {
  Res r;
  std::string text;
  bool reported = false;
  u64 count = 0, fired = 0;
};
struct Arm {
  u64 nth = ~0ull, len = 0;
  int how = 0, nest = 0;
  i64 payload = 0;
};
Out call(Side& s, const Shared& sh, const Op& op, int me, const Arm& arm) {
  Out o;
  const int kind = int(op.arg(0) % kKinds);
  const u64 a = u64(op.arg(1)), b = u64(op.arg(2)), c = u64(op.arg(3)), d = u64(op.arg(4));
  Built& bt = s.b;
  static const int kChan[] = {cProj, cProj, cRules, cCost, cBadCost, cBadLimit, cFactory, cFactory, cVisit, cVisit, cVisit, cVisit, cVisit, cParser, cWriter, cValidator, cRules, cRules};
  Trap& t = g_trap[size_t(sim::self()) % 32];
  auto start = [&] {
    t = Trap();
    t.how = arm.how;
    t.payload = arm.payload;
    t.nth = arm.nth;
    t.len = arm.len;
    t.chan = kChan[kind];
  };
  auto stop = [&] {
    t.chan = cNone;
    o.count = t.n;
    o.fired = t.fired;
  };
  auto loaded = [&](LaneletMapPtr& m, const ErrorMessages& errs, int f) {
    o.reported = o.r.ok() && !errs.empty();
    if (o.r.ok() && errs.empty()) o.text = diff(sh.want[f], dumpMap(*m, f == 0 ? kOsm : kExact)) + closure(*m);
    dropMap(m);
  };
  auto nested = [&](const std::function<void()>& fn) {  // something else goes on inside of a callback, and may fail there
    try {
      fn();
    } catch (PluginError&) {
    }
  };
  switch (kind) {
    case kLoadProj: case kParser: {
      const int mode = int(b % 4);
      const std::string file = kind == kParser ? "/simdisk/x.simin" : "/simdisk/src.osm", handler = kind == kParser ? "sim_parser" : "osm_handler";
      auto* errs = lib([] { return new ErrorMessages(); });
      LaneletMapPtr m;
      start();
      o.r = attempt([&] {
        ErrorMessages* e = (mode & 1) ? errs : nullptr;
        if (mode & 2) m = load(file, handler, *s.proj, e);
        else m = load(file, *s.proj, e);
      });
      stop();
      loaded(m, *errs, 0);
      lib([&] { delete errs; return 0; });
      break;
    }
    case kWriteProj: case kWriter: {
      const int mode = int(b % 4);
      const std::string file = fmt("/simdisk/w%d%s", me, kind == kWriter ? ".simout" : ".osm"), handler = kind == kWriter ? "sim_writer" : "osm_handler";
      auto* errs = lib([] { return new ErrorMessages(); });
      io::Configuration cfg;
      start();
      o.r = attempt([&] {
        ErrorMessages* e = (mode & 1) ? errs : nullptr;
        if (mode & 2) write(file, *bt.map, handler, *s.proj, e, cfg);
        else write(file, *bt.map, *s.proj, e, cfg);
      });
      stop();
      o.reported = o.r.ok() && !errs->empty();
      if (o.r.ok() && errs->empty()) o.text = diskContent(file);
      lib([&] { delete errs; return 0; });
      break;
    }
    case kRules: case kCost: case kBadCost: case kBadLimit: {
      lr::RoutingGraphUPtr g;
      start();
      o.r = attempt([&] { g = lr::RoutingGraph::build(*bt.map, *s.trapRules, s.trapCosts, configOf(sh.cfg)); });
      stop();
      if (o.r.ok()) {
        Rng r(c);
        for (int k = 0; k < 4 && o.text.empty(); k++) {
          GraphQuery q{int(r.below(kNumGraphQueries)), int(r.below(1000)), int(r.below(1000)), int(r.below(1000)), int(r.below(3)), r.below(1000)};
          GraphAnswer x = askGraph(*g, sh.ref, s.hd, q);
          std::string e = judgeGraph(sh.ref, q, x);
          if (!e.empty()) o.text = describe(sh.ref, q) + ": " + e;
        }
      }
      lib([&] { g.reset(); return 0; });
      break;
    }
    case kFactory: {
      std::vector<size_t> v;
      for (size_t i = 0; i < sh.s.r.size(); i++)
        if (sh.s.r[i].rule == "sim_trap") v.push_back(i);
      if (v.empty()) break;
      start();
      o.r = attempt([&] {
        for (size_t k = 0; k < 3; k++) {
          auto r = makeReg(sh.s.r[v[(b + k) % v.size()]], bt);
          Harness hm;
          o.text += fmt("%lld %zu;", (long long)r->id(), r->size());
        }
      });
      stop();
      break;
    }
    case kFactoryFile: {
      const int f = int(a & 1), mode = int(b % 4);
      if (d % 3 == 0 && f == 0) {
        auto* cfg = lib([] { return new va::ValidationConfig(); });
        auto* is = lib([] { return new std::vector<va::DetectedIssues>(); });
        lib([&] {
          cfg->checksFilter = "sim.*";
          cfg->origin = {49.01, 8.42};
          return 0;
        });
        start();
        o.r = attempt([&] { *is = va::validateMap("/simdisk/src.osm", *cfg); });
        stop();
        for (auto& q : *is) {
          o.text += q.checkName + ";";
          for (auto& i : q.issues)
            if (i.message.find("sim_trap") != std::string::npos) o.reported = true;
        }
        lib([&] {
          delete is;
          delete cfg;
          return 0;
        });
        break;
      }
      auto* errs = lib([] { return new ErrorMessages(); });
      LaneletMapPtr m;
      start();
      o.r = attempt([&] {
        ErrorMessages* e = (mode & 1) ? errs : nullptr;
        if (mode & 2) m = load("/simdisk/src" + extOf(f), handlerOf(f), *s.real, e);
        else m = load("/simdisk/src" + extOf(f), *s.real, e);
      });
      stop();
      loaded(m, *errs, f);
      lib([&] { delete errs; return 0; });
      break;
    }
    case kParam: {
      if (bt.r.empty()) break;
      struct V : RuleParameterVisitor {
        std::string* out = nullptr;
        const RegulatoryElement* self = nullptr;
        int nest = 0, depth = 0, seen = 0;
        void on(char k, Id i) {
          if (depth == 0) {
            if (nest && ++seen == 2) {
              V in;
              in.self = self;
              in.depth = 1;
              in.nest = nest;
              try {
                self->applyVisitor(in);
              } catch (PluginError&) {
              }
            }
            step(cVisit);
            Harness hm;
            *out += fmt("%s %c%lld;", role.c_str(), k, (long long)i);
          } else if (++seen == 2 && nest == 2) {
            throw PluginError{1};
          }
        }
        void operator()(const ConstPoint3d& p) override { on('P', p.id()); }
        void operator()(const ConstLineString3d& p) override { on('L', p.id()); }
        void operator()(const ConstPolygon3d& p) override { on('G', p.id()); }
        void operator()(const ConstWeakLanelet& p) override { on('T', p.lock().id()); }
        void operator()(const ConstWeakArea& p) override { on('A', p.lock().id()); }
      };
      start();
      o.r = attempt([&] {
        for (size_t k = 0; k < 3; k++) {
          V v;
          v.out = &o.text;
          v.nest = arm.nest;
          v.self = bt.r[(b + k) % bt.r.size()].get();
          v.self->applyVisitor(v);
        }
      });
      stop();
      break;
    }
    case kVariant: {
      start();
      o.r = attempt([&] {
        for (size_t k = 0; k < 4; k++) {
          auto on = [&](const auto& e) {
            step(cVisit);
            Harness hm;
            o.text += fmt("%lld ", (long long)e.id());
            return 1;
          };
          if (!bt.a.empty() && (k & 1)) ConstLaneletOrArea(bt.a[(b + k) % bt.a.size()]).applyVisitor(on);
          else if (!bt.t.empty()) ConstLaneletOrArea(bt.t[(b + k) % bt.t.size()]).applyVisitor(on);
          if (!bt.g.empty() && (k & 1)) ConstLineStringOrPolygon3d(bt.g[(c + k) % bt.g.size()]).applyVisitor(on);
          else if (!bt.l.empty()) ConstLineStringOrPolygon3d(bt.l[(c + k) % bt.l.size()]).applyVisitor(on);
        }
      });
      stop();
      break;
    }
    case kTraverse: {
      if (sh.ref.n.empty()) break;
      const GNode& n = sh.ref.n[b % sh.ref.n.size()];
      const lr::RoutingCostId cost = lr::RoutingCostId(c % sh.cfg.costs.size());
      int seen = 0;
      auto on = [&](const auto& i, const auto& what) {
        if (arm.nest && ++seen == 2)
          nested([&] {
            if (arm.nest == 3) {
              s.graph->shortestPath(s.hd.t[c % s.hd.t.size()], s.hd.t[d % s.hd.t.size()], cost);
              return;
            }
            int in = 0;
            s.graph->forEachSuccessorIncludingAreas(s.hd.la(n), [&](const lr::LaneletOrAreaVisitInformation&) -> bool {
              if (++in == 2 && arm.nest == 2) throw PluginError{1};
              return true;
            });
          });
        step(cVisit);
        Harness hm;
        o.text += fmt("%s<%s %.17g %zu %zu;", nodeText(what).c_str(), nodeText(i.predecessor()).c_str(), i.cost, i.length, i.numLaneChanges);
        return mix(u64(what.id()), d) % 7 != 0;
      };
      (void)on;
      start();
      o.r = attempt([&] {
        auto visitL = [&](const lr::LaneletVisitInformation& i) -> bool {
          struct W {
            const lr::LaneletVisitInformation& i;
            ConstLaneletOrArea pred;
            ConstLaneletOrArea predecessor() const { return pred; }
            double cost;
            size_t length, numLaneChanges;
          } w{i, i.predecessor, i.cost, i.length, i.numLaneChanges};
          return on(w, ConstLaneletOrArea(i.lanelet));
        };
        auto visitA = [&](const lr::LaneletOrAreaVisitInformation& i) -> bool {
          struct W {
            ConstLaneletOrArea pred;
            ConstLaneletOrArea predecessor() const { return pred; }
            double cost;
            size_t length, numLaneChanges;
          } w{i.predecessor, i.cost, i.length, i.numLaneChanges};
          return on(w, i.laneletOrArea);
        };
        switch (a % 4) {
          case 0: if (!n.area) s.graph->forEachSuccessor(s.hd.ll(n), visitL, a & 4, cost); break;
          case 1: if (!n.area) s.graph->forEachPredecessor(s.hd.ll(n), visitL, a & 4, cost); break;
          case 2: s.graph->forEachSuccessorIncludingAreas(s.hd.la(n), visitA, a & 4, cost); break;
          default: s.graph->forEachPredecessorIncludingAreas(s.hd.la(n), visitA, a & 4, cost);
        }
      });
      stop();
      break;
    }
    case kRoute: {
      if (s.routes.empty()) break;
      const lr::Route& rt = s.routes[a % s.routes.size()];
      int seen = 0;
      start();
      o.r = attempt([&] {
        std::vector<ConstLanelet> ls(rt.shortestPath().begin(), rt.shortestPath().end());
        const ConstLanelet l = ls[b % ls.size()];
        auto on = [&](const lr::LaneletVisitInformation& i) -> bool {
          if (arm.nest && ++seen == 2)
            nested([&] {
              int in = 0;
              rt.forEachPredecessor(l, [&](const lr::LaneletVisitInformation&) -> bool {
                if (++in == 2 && arm.nest == 2) throw PluginError{1};
                return true;
              });
              rt.fullLane(l);
            });
          step(cVisit);
          Harness hm;
          o.text += fmt("%lld<%lld %.17g %zu %zu;", (long long)i.lanelet.id(), (long long)i.predecessor.id(), i.cost, i.length, i.numLaneChanges);
          return mix(u64(i.lanelet.id()), d) % 7 != 0;
        };
        if (c & 1) rt.forEachSuccessor(l, on);
        else rt.forEachPredecessor(l, on);
      });
      stop();
      break;
    }
    case kSearch: {
      start();
      o.r = attempt([&] {
        auto run = [&](auto& layer) {
          int seen = 0;
          auto on = [&](const auto&, Id id) -> bool {
            if (arm.nest && ++seen == 2)
              nested([&] {
                int in = 0;
                layer.nearestUntil(BasicPoint2d(double(c % 100), double(d % 100)), [&](const auto&, const auto&) -> bool {
                  if (++in == 2 && arm.nest == 2) throw PluginError{1};
                  return in > 5;
                });
              });
            step(cVisit);
            Harness hm;
            o.text += fmt("%lld ", (long long)id);
            return mix(u64(id), d) % 9 == 0;
          };
          auto idOf = [](const auto& e) { return utils::getId(e); };
          auto fn = [&](const auto& bb, const auto& e) -> bool { return on(bb, idOf(e)); };
          const BasicPoint2d pt(double(c % 100), double(d % 100));
          if (a & 1) {
            auto r = layer.nearestUntil(pt, fn);
            Harness hm;
            o.text += r ? fmt("= %lld", (long long)idOf(*r)) : "= none";
          } else {
            auto r = layer.searchUntil(BoundingBox2d(pt - BasicPoint2d(40, 40), pt + BasicPoint2d(40, 40)), fn);
            Harness hm;
            o.text += r ? fmt("= %lld", (long long)idOf(*r)) : "= none";
          }
        };
        auto both = [&](auto& layer) {
          if (a & 8) run(layer);
          else run(std::as_const(layer));
        };
        switch (b % 6) {
          case 0: both(bt.map->pointLayer); break;
          case 1: both(bt.map->lineStringLayer); break;
          case 2: both(bt.map->polygonLayer); break;
          case 3: both(bt.map->laneletLayer); break;
          case 4: both(bt.map->areaLayer); break;
          default: both(bt.map->regulatoryElementLayer);
        }
      });
      stop();
      break;
    }
    case kValidator: case kValRules: {
      static const char* const kFilters[] = {"sim.*", "sim.*,routing.*", "sim.graph", ""};
      auto* cfg = lib([] { return new va::ValidationConfig(); });
      auto* is = lib([] { return new std::vector<va::DetectedIssues>(); });
      lib([&] {
        cfg->checksFilter = kFilters[b % 4];
        cfg->origin = {49.01, 8.42};
        if (kind == kValRules) cfg->location = "simland";
        return 0;
      });
      start();
      o.r = attempt([&] { *is = va::validateMap(*bt.map, *cfg); });
      stop();
      std::multiset<std::string> l;
      for (auto& q : *is)
        for (auto& i : q.issues) l.insert(std::string(q.checkName.c_str()) + "|" + va::toString(i.severity) + "|" + i.buildReport());
      for (auto& q : l) {
        if (q.find("sim plug-in failed") != std::string::npos) o.reported = true;
        o.text += q + "\n";
      }
      lib([&] {
        delete is;
        delete cfg;
        return 0;
      });
      break;
    }
    default: {
      start();
      o.r = attempt([&] {
        matching::Object2d obj;
        obj.pose.translation() = BasicPoint2d(double(c % 100), double(d % 100));
        auto m = matching::getDeterministicMatches(*bt.map, obj, double(b % 40));
        auto k = matching::removeNonRuleCompliantMatches(m, s.trapRules);
        Harness hm;
        for (auto& x : k) o.text += fmt("%lld%s %.17g;", (long long)x.lanelet.id(), x.lanelet.inverted() ? "i" : "", x.distance);
      });
      stop();
    }
  }
  return o;
}
std::string describeCall(const Op& op) {
  return fmt("%s %lld %lld %lld %lld", kName[op.arg(0) % kKinds], (long long)op.arg(1), (long long)op.arg(2), (long long)op.arg(3), (long long)op.arg(4));
}
void makeSide(Side& s, Shared& sh, const Plan& p) {
  s.b = build(sh.s, int(p.c("_how")) % 3, u64(p.c("_order")));
  s.real = makeProjector(int(p.c("proj")));
  lib([&] {
    s.rules = rulesOf(sh.cfg);
    s.costs = costsOf(sh.cfg);
    s.trapRules = std::make_shared<TrapRules>(*s.rules);
    for (auto& c : s.costs) s.trapCosts.push_back(std::make_shared<TrapCost>(c));
    s.proj = std::make_unique<TrapProjector>(*s.real);
    return 0;
  });
  s.hd = handlesOf(s.b);
}
void finishSide(Side& s, const Shared& sh, const Plan& p) {
  lib([&] {
    s.graph = lr::RoutingGraph::build(*s.b.map, *s.rules, s.costs, configOf(sh.cfg));
    return 0;
  });
  Rng r(u64(p.c("_order")) + 5);
  for (int k = 0; k < 12 && s.routes.size() < 3 && !s.hd.t.empty(); k++) {
    auto &f = s.hd.t[r.below(s.hd.t.size())], &t = s.hd.t[r.below(s.hd.t.size())];
    lib([&] {
      auto x = s.graph->getRoute(f, t);
      if (x) s.routes.push_back(std::move(*x));
      return 0;
    });
  }
}
void dropSide(Side& s) {
  lib([&] {
    s.routes.clear();
    s.routes.shrink_to_fit();
    s.graph.reset();
    s.trapCosts = {};
    s.trapRules.reset();
    s.costs = {};
    s.rules.reset();
    s.hd = Handles();
    s.proj.reset();
    s.real.reset();
    s.b = Built();
    return 0;
  });
}
// is there a documented way of reporting this instead of passing the exception on?
bool mayReport(const Op& op, int how) {
  const u64 b = u64(op.arg(2));
  how %= kHows;
  switch (op.arg(0) % kKinds) {
    case kLoadProj: return how == 7;
    case kWriteProj: return how == 8;
    case kFactoryFile: return u64(op.arg(1)) % 2 == 0 && isStd(how);
    case kValRules: (void)b; return isLanelet(how);
    default: return false;
  }
}
void run(Ctx& c) {
  LeakScope scope;
  int calls = 0, hit = 0;
  {
    Shared sh;
    sh.s = genNet(c.plan);
    Rng fr(u64(c.plan.c("_fragile")) + 1);
    for (auto& r : sh.s.r)
      if (r.rule == "regulatory_element" || fr.chance(1, 3)) {
        r.rule = "sim_trap";
        r.a["subtype"] = "sim_trap";
      }
    for (int f = 0; f < 2; f++) {
      sh.want[f] = dumpSpec(sh.s, f == 0 ? kOsm : kExact);
      for (auto& e : sh.want[f])  // dumps name the classes of the library
        if (e.second.compare(0, 9, "sim_trap ") == 0) e.second = "other" + e.second.substr(8);
    }
    sh.cfg = graphCfg(c.plan);
    auto twin = std::make_unique<Side>(), real = std::make_unique<Side>();
    makeSide(*twin, sh, c.plan);
    makeSide(*real, sh, c.plan);
    sh.ref = refGraph(sh.s, twin->hd, sh.cfg, *twin->rules, twin->costs);
    for (int f = 0; f < 2; f++) {
      IoOut o = doWrite("/simdisk/src" + extOf(f), f, *twin->b.map, *twin->real, 0);
      if (!o.silentOk()) fail("refused", o.text());
    }
    diskPut("/simdisk/x.simin", "x", 1);
    const std::string src[2] = {diskContent("/simdisk/src.osm"), diskContent("/simdisk/src.bin")};
    finishSide(*twin, sh, c.plan);
    finishSide(*real, sh, c.plan);
    const int n = std::max(1, int(c.plan.c("clients", 1)));
    std::vector<Out> want;
    for (auto& op : c.plan.ops) want.push_back(call(*twin, sh, op, 7, Arm()));
    auto judge = [&](const Op& op, const Out& w, const Out& g, const Arm& arm, const std::string& when) {
      const int kind = int(op.arg(0) % kKinds);
      std::string what = describeCall(op) + ", " + when + ":\n  ";
      if (!g.fired) {
        if (g.r.text() != w.r.text() || g.text != w.text || g.reported != w.reported)
          fail("differs-afterwards", what + "no plug-in failed\n  want " + w.r.text() + " " + w.text + "\n  got  " + g.r.text() + " " + g.text);
        return;
      }
      count(fmt("fault.%s", kName[kind]).c_str());
      Res expect = attempt([&] {
        if (kind == kBadCost) throw RoutingGraphError("");
        if (kind == kBadLimit) throw InvalidInputError("");
        raise(arm.how, arm.payload);
      });
      if (kind == kBadCost || kind == kBadLimit) {
        if (g.r.ok()) fail("invalid-answer-accepted", what + "the plug-in gave an invalid value and the call went on");
        if (g.r.type != expect.type) fail("strange-exception", what + "want " + expect.type + ", got " + g.r.text());
        count("probe.refused");
        return;
      }
      if (!g.r.ok()) {
        if (g.r.text() == expect.text()) {
          count("probe.passed_on");
          return;
        }
        if (mayReport(op, arm.how) && g.r.ex == Ex::Io) {  // collected errors thrown at the end
          count("probe.reported");
          return;
        }
        fail("strange-exception", what + "the plug-in threw " + expect.text() + ", the call " + g.r.text());
      }
      if (!g.reported || !mayReport(op, arm.how)) fail("swallowed", what + "the plug-in threw " + expect.text() + " but the call ended " + g.r.text() + (g.reported ? " with errors" : "") + " " + g.text);
      count("probe.reported");
    };
    runClients(n, [&](int me) {
      for (size_t i = 0; i < c.plan.ops.size(); i++) {
        auto& op = c.plan.ops[i];
        if (op.client % n != me) continue;
        const Out& w = want[i];
        const int tries = int(std::max<i64>(1, op.arg(7)));
        const u64 stride = tries > 1 ? std::max<u64>(1, (w.count + u64(tries) - 1) / u64(tries)) : 0;
        Arm arm;
        arm.nth = tries > 1 ? u64(op.arg(5)) % stride : w.count * u64(op.arg(5)) / 1000;
        arm.len = u64(std::max<i64>(1, op.arg(6)));
        const i64 k = op.arg(0) % kKinds;
        const bool cheap = k == kFactory || k == kParam || k == kVariant || k == kTraverse || k == kRoute || k == kSearch || k == kMatch;
        const int most = std::min(tries, cheap ? 40 : 6);
        for (int t = 0; t < most && w.count; t++) {
          arm.how = int(op.arg(8)) + t;
          arm.nest = int(op.arg(9)) & 3;
          arm.payload = me * 1000 + i64(i) * 50 + t;
          Out g = call(*real, sh, op, me, arm);
          calls++;
          hit += g.fired > 0;
          judge(op, w, g, arm, fmt("invocation %llu of %llu and %llu more failing", (unsigned long long)arm.nth, (unsigned long long)w.count, (unsigned long long)(arm.len - 1)));
          if (!g.fired) break;
          arm.nth += cheap || tries <= 6 ? stride : stride * u64((tries + 5) / 6);
        }
        arm = Arm();
        judge(op, w, call(*real, sh, op, me, arm), arm, "repeated with healthy plug-ins");
        if (w.count > 1 && (op.arg(9) & 3)) {
          arm.nest = int(op.arg(9)) & 3;
          judge(op, w, call(*real, sh, op, me, arm), arm, "repeated with other calls inside of the callback");
          count("fault.nested_call");
        }
        if (n == 1) {
          std::string e = diff(sh.want[1], dumpBuilt(real->b)) + diff(sh.want[1], dumpMap(*real->b.map));
          if (!e.empty()) fail("objects-changed", "by " + describeCall(op) + "\n" + e);
        }
      }
    });
    std::string e = diff(sh.want[1], dumpBuilt(real->b)) + diff(sh.want[1], dumpMap(*real->b.map));
    if (!e.empty()) fail("objects-changed", e);
    e = checkWholeMap(*real->b.map, real->b, MapModel::all(sh.s), u64(c.plan.c("_order")));
    if (!e.empty()) fail("map-changed", e);
    e = checkWholeGraph(*real->graph, sh.ref, real->hd, u64(c.plan.c("_order")));
    if (!e.empty()) fail("graph-changed", e);
    if (diskContent("/simdisk/src.osm") != src[0] || diskContent("/simdisk/src.bin") != src[1]) fail("files-changed", "the files that were only read");
    for (size_t i = 0; i < c.plan.ops.size(); i++) judge(c.plan.ops[i], want[i], call(*real, sh, c.plan.ops[i], 6, Arm()), Arm(), "at the end");
    dropSide(*real);
    dropSide(*twin);
  }
  scope.check("after failing plug-ins");
  if (hit) markNontrivial();
  sample(fmt("calls=%d hit=%d", calls, hit));
}
RegisterScenario reg("C15", gen, run);
}  // namespace
}  // namespace h
