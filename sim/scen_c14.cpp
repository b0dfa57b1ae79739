// C14: every kind of library call meets failing allocations; outcome, leaks, the objects read and the repeated call are judged
// against the same call on an identical second set of objects that never sees a failure.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_validation/Validation.h>

#include <pugixml.hpp>

#include "graph_util.h"
#include "map_util.h"
#include "misc_util.h"
#include "prim_util.h"

using namespace lanelet;
namespace h {
namespace {
enum Kind { kPrim, kMap, kMisc, kGraph, kBuild, kWrite, kLoad, kValid, kExport, kNew, kSub, kGeom, kKinds };
const char* kName[] = {"read", "mapquery", "rules", "routing", "graphbuild", "write", "load", "validate", "export", "construct", "submap", "geometry"};
// ops: call kind a b c d pos len sweep
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(8)) / 4);
  p.cfg["_fix"] = i64(r.below(1000000));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_how"] = i64(r.below(3));
  p.cfg["rules0"] = i64(r.below(8));
  p.cfg["rules1"] = i64(r.below(8));
  p.cfg["proj"] = i64(r.below(3));
  graphCfgGen(p, r);
  int n = r.chance(1, 4) ? int(r.range(2, 3)) : 1;
  p.cfg["clients"] = n;
  if (n > 1) schedFrom(p, r, 20000);
  int hot = int(r.below(kKinds));
  i64 hotA = i64(r.below(100000)), hotB = i64(r.below(100000));
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(2, n > 1 ? 4 : 8)); k > 0; k--) {
      i64 kind = r.chance(1, 3) ? hot : i64(r.below(kKinds));
      i64 len = r.chance(1, 2) ? 1 : r.chance(1, 2) ? i64(1) << 40 : i64(r.range(2, 40));
      p.op(c, "call", {kind, i64(r.below(100000)), r.chance(1, 2) ? hotA : i64(r.below(100000)), r.chance(1, 2) ? hotB : i64(r.below(100000)), i64(r.below(100000)), i64(r.below(1000)), len,
                       r.chance(1, 2) ? i64(r.range(2, 60)) : 0});
    }
}
struct Side {
  Fix fx;
  World w;
  traffic_rules::TrafficRulesPtr rules;
  lr::RoutingCostPtrs costs;
  lr::RoutingGraphUPtr graph;
  Handles hd;
  std::unique_ptr<Projector> proj;
};
struct Shared {
  FixSpec fs;
  GraphCfg cfg;
  RefGraph ref;
  int projKind = 0;
  bool alone = false;
};
struct Out {
  Res r;
  std::string text;       // what the call gave, to be compared
  bool reported = false;  // errors were reported by the call itself
  u64 count = 0, fired = 0;
};
struct Arm {
  bool on;
  u64 nth, len;
};
Out call(Side& s, const Shared& sh, const Op& op, int me, Arm arm) {
  Out o;
  const i64 kind = op.arg(0) % kKinds;
  const u64 a = u64(op.arg(1)), b = u64(op.arg(2)), c = u64(op.arg(3)), d = u64(op.arg(4));
  Built& bt = s.fx.b;
  const Spec& sp = sh.fs.s;
  auto start = [&] {
    if (arm.on) armAllocFault(arm.nth, arm.len);
    else armAllocFault(~0ull, 0);
  };
  auto stop = [&] {
    disarmAllocFault();
    o.count = allocCount();
    o.fired = allocFired();
  };
  struct Off {
    ~Off() { disarmAllocFault(); }
  };
  switch (kind) {
    case kPrim: {
      start();
      o.r = attempt([&] {
        std::string x = readPrim(s.fx, i64(a % kNumPrimKinds), i64(b % 1000), i64(c % 1000));
        Harness hm;
        o.text = std::string(x.data(), x.size());
      });
      stop();
      break;
    }
    case kMap: {
      MapQuery q{int(a % kNumMapQueries), int(b % 6), i64(d % 32), c};
      start();
      MapAnswer m = askMap(*bt.map, bt, sp, q);
      stop();
      o.text = m.text + fmt(" %d", m.hit);
      for (auto i : m.ids) o.text += fmt(" %lld", (long long)i);
      for (auto x : m.d) o.text += " " + num(x);
      if (m.text.find("badalloc") != std::string::npos || m.text.find("bad_alloc") != std::string::npos) o.r.ex = Ex::BadAlloc;
      break;
    }
    case kMisc: {
      Op q = op;
      q.a = {i64(a % kNumMiscKinds), i64(b & 1), i64(c), i64(d), i64(b)};
      start();
      o.text = askMisc(s.w, q);
      stop();
      if (o.text.find("bad_alloc") != std::string::npos) o.r.ex = Ex::BadAlloc;
      break;
    }
    case kGraph: {
      GraphQuery q{int(a % kNumGraphQueries), int(b), int(c), int(d), int(a / 64 % 3), d};
      start();
      GraphAnswer x = askGraph(*s.graph, sh.ref, s.hd, q);
      stop();
      o.r = x.res;
      if (o.r.ex == Ex::BadAlloc) break;
      std::string e = judgeGraph(sh.ref, q, x);
      o.r = Res();
      o.text = e.empty() ? "as the reference" : describe(sh.ref, q) + ": " + e;
      break;
    }
    case kBuild: {
      lr::RoutingGraphUPtr g;
      start();
      o.r = attempt([&] {
        g = lr::RoutingGraph::build(*bt.map, *s.rules, s.costs, configOf(sh.cfg));
        disarmAllocFault();
      });
      stop();
      if (o.r.ok()) {
        Rng r(c);
        for (int k = 0; k < 4 && o.text.empty(); k++) {
          GraphQuery q{int(r.below(kNumGraphQueries)), int(r.below(1000)), int(r.below(1000)), int(r.below(1000)), int(r.below(3)), r.below(1000)};
          GraphAnswer x = askGraph(*g, sh.ref, s.hd, q);
          std::string e = judgeGraph(sh.ref, q, x);
          if (!e.empty()) o.text = describe(sh.ref, q) + ": " + e;
        }
      }
      lib([&] {
        g.reset();
        return 0;
      });
      break;
    }
    case kWrite: {
      const int f = int(a & 1), mode = int(b % 4);
      std::string file = fmt("/simdisk/w%d%s", me, extOf(f).c_str()), handler = handlerOf(f);
      auto* errs = lib([] { return new ErrorMessages(); });
      io::Configuration cfg;
      start();
      o.r = attempt([&] {
        ErrorMessages* e = (mode & 1) ? errs : nullptr;
        Off off;
        if (mode & 2) write(file, *bt.map, handler, *s.proj, e, cfg);
        else write(file, *bt.map, *s.proj, e, cfg);
      });
      stop();
      o.reported = o.r.ok() && !errs->empty();
      if (o.r.ok() && errs->empty()) {
        LoadOut l = doLoad(file, f, *s.proj, 0);
        o.text = l.text();
        if (l.silentOk()) o.text = diff(dumpSpec(sp, f == 0 ? kOsm : kExact), dumpMap(*l.map, f == 0 ? kOsm : kExact));
        dropMap(l.map);
      }
      lib([&] {
        delete errs;
        return 0;
      });
      break;
    }
    case kLoad: {
      // a failing load of a bin file may leak (known finding), which can only be told from other leaks if nobody else is there
      const int f = sh.alone ? int(a & 1) : 0, mode = int(b % 4);
      std::string file = "/simdisk/src" + extOf(f), handler = handlerOf(f);
      auto* errs = lib([] { return new ErrorMessages(); });
      LaneletMapPtr m;
      LeakScope own;
      start();
      o.r = attempt([&] {
        ErrorMessages* e = (mode & 1) ? errs : nullptr;
        Off off;
        if (mode & 2) m = load(file, handler, *s.proj, e);
        else m = load(file, *s.proj, e);
      });
      stop();
      o.reported = o.r.ok() && !errs->empty();
      if (o.r.ok() && errs->empty()) o.text = diff(dumpSpec(sp, f == 0 ? kOsm : kExact), dumpMap(*m, f == 0 ? kOsm : kExact)) + closure(*m);
      dropMap(m);
      if (sh.alone && !o.r.ok()) own.check(f ? "by a failed load of a bin file" : "by a failed load of an osm file");
      lib([&] {
        delete errs;
        return 0;
      });
      break;
    }
    case kValid: {
      static const char* const kFilters[] = {"", "mapping.*", "routing.*", "mapping.unknown.*"};
      auto* cfg = lib([] { return new validation::ValidationConfig(); });
      auto* is = lib([] { return new std::vector<validation::DetectedIssues>(); });
      auto* rep = lib([] { return new validation::IssueReport(); });
      lib([&] {
        cfg->checksFilter = kFilters[b % 4];
        cfg->origin = {49.01, 8.42};
        return 0;
      });
      const bool file = a & 1;
      start();
      o.r = attempt([&] {
        Off off;
        if (file) *is = validation::validateMap("/simdisk/src.osm", *cfg);
        else *is = validation::validateMap(*bt.map, *cfg);
        *rep = validation::buildReport(*is);
      });
      stop();
      std::multiset<std::string> l;
      for (auto& q : *is)
        for (auto& i : q.issues) l.insert(std::string(q.checkName.c_str()) + "|" + validation::toString(i.severity) + "|" + i.buildReport());
      for (auto& q : rep->warnings) l.insert("w " + q);
      for (auto& q : rep->errors) l.insert("e " + q);
      for (auto& q : l)
        if (q.find("bad_alloc") != std::string::npos || q.find("Could not allocate memory") != std::string::npos) o.reported = true;
      if (o.r.ok())
        for (auto& q : l) o.text += q + "\n";
      lib([&] {
        delete is;
        delete cfg;
        delete rep;
        return 0;
      });
      break;
    }
    case kExport: {
      const int format = int(a % 2);
      std::string file = fmt("/simdisk/g%d", me);
      start();
      o.r = attempt([&] {
        Off off;
        if (format) s.graph->exportGraphViz(file, lr::RelationType(b & 127), lr::RoutingCostId(c % sh.cfg.costs.size()));
        else s.graph->exportGraphML(file, lr::RelationType(b & 127), lr::RoutingCostId(c % sh.cfg.costs.size()));
      });
      stop();
      if (o.r.ok()) o.text = diskContent(file);
      break;
    }
    case kNew: {
      // everything made anew: points to regulatory elements, then the map, one of three ways
      auto* nb = new Built();
      start();
      o.r = attempt([&] {
        Off off;
        Harness hm;
        *nb = buildObjects(sp, c);
        buildMap(sp, *nb, int(a % 3), c);
      });
      stop();
      if (o.r.ok()) o.text = diff(dumpSpec(sp), dumpBuilt(*nb)) + diff(dumpSpec(sp), dumpMap(*nb->map));
      lib([&] {
        *nb = Built();
        return 0;
      });
      delete nb;
      break;
    }
    case kSub: {
      start();
      o.r = attempt([&] {
        Off off;
        Lanelets ll;
        Areas ar;
        for (size_t i = 0; i < bt.t.size(); i++)
          if ((b >> (i % 16)) & 1) ll.push_back(bt.t[i]);
        for (size_t i = 0; i < bt.a.size(); i++)
          if ((c >> (i % 16)) & 1) ar.push_back(bt.a[i]);
        auto text = [&](const LaneletMapLayers& m) {
          disarmAllocFault();
          Harness hm;
          o.text = dumpText(dumpMap(m));
        };
        switch (a % 4) {
          case 0: text(*utils::createSubmap(ll, ar)); break;
          case 1: text(*utils::createMap(ll, ar)); break;
          case 2: text(*utils::createSubmap(ll, ar)->laneletMap()); break;
          default: {
            LaneletSubmap m;
            for (auto& l : ll) m.add(l);
            for (auto& x : ar) m.add(x);
            for (size_t i = 0; i < bt.r.size(); i++)
              if ((d >> (i % 16)) & 1) m.add(bt.r[i]);
            LaneletSubmap k(std::move(m));
            text(k);
          }
        }
      });
      stop();
      break;
    }
    default: {
      if (bt.t.empty()) break;
      Lanelet l = bt.t[b % bt.t.size()], k = bt.t[c % bt.t.size()];
      if (d & 1) l = lib([&] { return l.invert(); });
      start();
      o.r = attempt([&] {
        Off off;
        auto put = [&](auto... v) {
          Harness hm;
          for (double x : {double(v)...}) o.text += num(x) + " ";
        };
        switch (a % 12) {
          case 0: put(geometry::approximatedLength2d(l), geometry::length2d(l), geometry::length3d(l)); break;
          case 1: put(geometry::distance2d(l, k), geometry::overlaps2d(l, k), geometry::intersects2d(l, k), geometry::leftOf(l, k), geometry::rightOf(l, k), geometry::follows(l, k)); break;
          case 2: {
            put(geometry::overlaps3d(l, k, 3), geometry::intersects3d(l, k, 3));
            for (auto& x : geometry::intersectCenterlines2d(l, k)) put(x.x(), x.y());
            break;
          }
          case 3: {
            auto v = geometry::findNearest(bt.map->laneletLayer, BasicPoint2d(double(c % 100), double(d % 100)), 4);
            for (auto& x : v) put(x.first, double(x.second.id()));
            break;
          }
          case 4: {
            auto v = geometry::findWithin2d(bt.map->laneletLayer, BasicPoint2d(double(c % 100), double(d % 100)), 8);
            for (auto& x : v) put(x.first, double(x.second.id()));
            break;
          }
          case 5: {
            auto pr = geometry::project(l.leftBound(), BasicPoint3d(double(c % 100), double(d % 100), 0));
            auto ar = geometry::toArcCoordinates(l.leftBound2d(), BasicPoint2d(double(c % 100), double(d % 100)));
            auto sd = geometry::signedDistance(l.rightBound2d(), BasicPoint2d(double(c % 100), double(d % 100)));
            put(pr.x(), pr.y(), pr.z(), ar.length, ar.distance, sd);
            break;
          }
          case 6: {
            auto off = geometry::offset(l.leftBound2d(), 0.1 + double(d % 10) * 0.2);
            for (auto& x : off) put(x.x(), x.y());
            break;
          }
          case 7: {
            auto off = geometry::offsetNoThrow(l.rightBound2d(), -0.1 - double(d % 10) * 0.2);
            for (auto& x : off) put(x.x(), x.y());
            break;
          }
          case 8: {
            auto p2 = l.polygon2d().basicPolygon();
            auto tri = geometry::triangulate(p2);
            for (auto& t : tri)
              for (auto x : t) put(double(x));
            auto conv = geometry::convexPartition(p2);
            for (auto& t : conv)
              for (auto& x : t) put(x.x(), x.y());
            break;
          }
          case 9: {
            auto al = geometry::align(l.leftBound(), k.rightBound());
            put(double(al.first.inverted()), double(al.second.inverted()), geometry::curvature2d(l.leftBound2d()[0], l.leftBound2d()[1 % l.leftBound2d().size()], k.leftBound2d()[0]));
            auto n = geometry::projectedPoint3d(l.leftBound(), k.rightBound());
            put(n.first.x(), n.second.y());
            break;
          }
          case 10: {
            if (bt.a.empty()) break;
            Area x = bt.a[c % bt.a.size()];
            put(geometry::distance2d(x, BasicPoint2d(double(c % 100), double(d % 100))), geometry::inside(x, BasicPoint2d(double(c % 100), double(d % 100))), geometry::overlaps2d(x, l),
                geometry::adjacent(x, bt.a[d % bt.a.size()]), geometry::rightOf(l, x), geometry::leftOf(l, x), geometry::leftOf(l, x));
            auto bb = geometry::boundingBox3d(x);
            put(bb.min().x(), bb.max().z());
            break;
          }
          default: {
            put(geometry::distance2d(l.leftBound2d(), k.rightBound2d()), geometry::distance3d(l.leftBound(), k.rightBound()));
            auto i = geometry::interpolatedPointAtDistance(l.leftBound(), double(d % 50));
            put(i.x(), i.y());
            break;
          }
        }
      });
      stop();
    }
  }
  return o;
}
void* pugiAlloc(size_t n) { return ::operator new(n, std::nothrow); }
void pugiFree(void* p) { ::operator delete(p); }
std::string describeCall(const Op& op) {
  return fmt("%s %lld %lld %lld %lld", kName[op.arg(0) % kKinds], (long long)op.arg(1), (long long)op.arg(2), (long long)op.arg(3), (long long)op.arg(4));
}
void makeSide(Side& s, Shared& sh, const Plan& p) {
  s.fx = makeFix(sh.fs, u64(p.c("_order")));
  buildMap(sh.fs.s, s.fx.b, int(p.c("_how")) % 3, u64(p.c("_order")));
  s.w.s = sh.fs.s;
  s.w.b = lib([&] { return s.fx.b; });
  fillWorld(s.w, p);
  lib([&] {
    s.rules = rulesOf(sh.cfg);
    s.costs = costsOf(sh.cfg);
    return 0;
  });
  s.hd = handlesOf(s.fx.b);
  s.proj = makeProjector(sh.projKind);
}
void dropSide(Side& s) {
  lib([&] {
    s.graph.reset();
    s.costs.clear();
    s.costs.shrink_to_fit();
    s.rules.reset();
    s.hd = Handles();
    s.proj.reset();
    return 0;
  });
  dropWorld(s.w);
  dropFix(s.fx);
}
void run(Ctx& c) {
  pugi::set_memory_management_functions(pugiAlloc, pugiFree);
  LeakScope scope;
  int calls = 0, hit = 0, survived = 0;
  {
    Shared sh;
    sh.fs = makeFixSpec(genNet(c.plan), u64(c.plan.c("_fix")));
    sh.cfg = graphCfg(c.plan);
    sh.projKind = int(c.plan.c("proj"));
    auto twin = std::make_unique<Side>(), real = std::make_unique<Side>();
    makeSide(*twin, sh, c.plan);
    makeSide(*real, sh, c.plan);
    sh.ref = refGraph(sh.fs.s, twin->hd, sh.cfg, *twin->rules, twin->costs);
    for (Side* s : {twin.get(), real.get()})
      lib([&] {
        s->graph = lr::RoutingGraph::build(*s->fx.b.map, *s->rules, s->costs, configOf(sh.cfg));
        return 0;
      });
    for (int f = 0; f < 2; f++) {
      IoOut o = doWrite("/simdisk/src" + extOf(f), f, *twin->fx.b.map, *twin->proj, 0);
      if (!o.silentOk()) fail("refused", o.text());
    }
    const Dump was = dumpSpec(sh.fs.s);
    const int n = std::max(1, int(c.plan.c("clients", 1)));
    sh.alone = n == 1;
    std::vector<Out> want;
    for (auto& op : c.plan.ops) want.push_back(call(*twin, sh, op, 7, {false, 0, 0}));
    std::vector<std::string> warm;  // lazily computed things are there now, the answer must not depend on it
    auto judge = [&](const Op& op, const Out& w, const Out& g, const std::string& when) {
      std::string what = describeCall(op) + ", " + when + ":\n  ";
      if (g.r.ex == Ex::Unknown || g.r.ex == Ex::Plugin) fail("strange-exception", what + g.r.text());
      if (!g.fired) {
        if (g.r.text() != w.r.text() || g.text != w.text || g.reported != w.reported)
          fail("differs-afterwards", what + "no allocation failed\n  want " + w.r.text() + " " + w.text + "\n  got  " + g.r.text() + " " + g.text);
        return;
      }
      count(fmt("probe.hit.%s", kName[op.arg(0) % kKinds]).c_str());
      if (!g.r.ok()) {
        count("probe.ended_with_exception");
        return;
      }
      if (g.reported) {
        count("probe.reported");
        return;
      }
      count("probe.completed_nevertheless");
      if (g.text != w.text || w.reported) fail("silently-wrong", what + "allocations failed, no exception and no report\n  want " + w.r.text() + " " + w.text + "\n  got  " + g.text);
    };
    runClients(n, [&](int me) {
      for (size_t i = 0; i < c.plan.ops.size(); i++) {
        auto& op = c.plan.ops[i];
        if (op.client % n != me) continue;
        const Out& w = want[i];
        const u64 len = u64(std::max<i64>(1, op.arg(6)));
        const int tries = int(std::max<i64>(1, op.arg(7)));
        const u64 stride = tries > 1 ? std::max<u64>(1, (w.count + u64(tries) - 1) / u64(tries)) : 0;
        u64 nth = tries > 1 ? u64(op.arg(5)) % stride : w.count * u64(op.arg(5)) / 1000;
        const bool dear = op.arg(0) % kKinds == kLoad || op.arg(0) % kKinds == kWrite || op.arg(0) % kKinds == kNew || op.arg(0) % kKinds == kBuild || op.arg(0) % kKinds == kValid;
        for (int t = 0; t < std::min(tries, dear ? 8 : 60); t++) {
          Out g = call(*real, sh, op, me, {true, nth, len});
          calls++;
          hit += g.fired > 0;
          survived += g.fired > 0 && g.r.ok();
          judge(op, w, g, fmt("allocation %llu of %llu and %llu more failing", (unsigned long long)nth, (unsigned long long)w.count, (unsigned long long)(len - 1)));
          if (!g.fired) break;
          nth += dear && tries > 8 ? stride * u64((tries + 7) / 8) : stride;
        }
        judge(op, w, call(*real, sh, op, me, {false, 0, 0}), "repeated undisturbed");
        if (n == 1) {
          std::string e = diff(was, dumpBuilt(real->fx.b)) + diff(was, dumpMap(*real->fx.b.map));
          if (!e.empty()) fail("objects-changed", "by " + describeCall(op) + "\n" + e);
        }
      }
    });
    std::string e = diff(was, dumpBuilt(real->fx.b)) + diff(was, dumpMap(*real->fx.b.map));
    if (!e.empty()) fail("objects-changed", e);
    e = checkWholeMap(*real->fx.b.map, real->fx.b, MapModel::all(sh.fs.s), u64(c.plan.c("_order")));
    if (!e.empty()) fail("map-changed", e);
    for (size_t i = 0; i < c.plan.ops.size(); i++) judge(c.plan.ops[i], want[i], call(*real, sh, c.plan.ops[i], 6, {false, 0, 0}), "at the end");
    dropSide(*real);
    dropSide(*twin);
  }
  scope.check("after failing allocations");
  if (hit) markNontrivial();
  count("probe.calls_hit", u64(hit));
  sample(fmt("calls=%d hit=%d completed nevertheless=%d", calls, hit, survived));
}
RegisterScenario reg("C14", gen, run);
}  // namespace
}  // namespace h
