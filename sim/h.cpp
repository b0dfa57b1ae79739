// Builders, dumps of real maps, clients, exception categories.
#include "h.h"

#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/GPSPoint.h>
#include <lanelet2_io/Exceptions.h>

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <typeinfo>

using namespace lanelet;

namespace sim {
void runLife(Ctx& ctx) {
  const Scenario* s = findScenario(ctx.plan.prop);
  if (!s) internalError("unknown property %s", ctx.plan.prop.c_str());
  try {
    s->run(ctx);
  } catch (h::PluginError& e) {
    internalError("plug-in error escaped from the scenario");
  } catch (std::exception& e) {
    violation("unexpected-exception", "exception escaped from a call expected to succeed: %s", e.what());
  }
}
}  // namespace sim

namespace h {
AttributeMap toAttr(const Attrs& a) {
  AttributeMap m;
  for (auto& x : a) m[x.first] = x.second;
  return m;
}
RegulatoryElementPtr makeReg(const ReS& r, const Built& b) {
  RuleParameterMap pm;
  for (auto& role : r.params)
    for (auto& q : role.second) {
      RuleParameters& v = pm[role.first];
      switch (q.kind) {
        case kP: v.emplace_back(b.p[size_t(q.i)]); break;
        case kL: v.emplace_back(q.inv ? b.l[size_t(q.i)].invert() : b.l[size_t(q.i)]); break;
        case kG: v.emplace_back(b.g[size_t(q.i)]); break;
        case kT: v.emplace_back(WeakLanelet(q.inv ? b.t[size_t(q.i)].invert() : b.t[size_t(q.i)])); break;
        default: v.emplace_back(WeakArea(b.a[size_t(q.i)])); break;
      }
    }
  return RegulatoryElementFactory::create(r.rule, std::make_shared<RegulatoryElementData>(r.id, pm, toAttr(r.a)));
}
Built buildObjects(const Spec& s, u64 orderSeed) {
  Rng r(orderSeed);
  Built b;
  auto order = [&](size_t n) { return orderSeed ? permutation(r, int(n)) : [&] { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(int(i)); return v; }(); };
  std::vector<int> op = order(s.p.size()), ol = order(s.l.size()), og = order(s.g.size()), ot = order(s.t.size()),
                   oa = order(s.a.size()), orr = order(s.r.size());
  sim::Lib lib;
  b.p.resize(s.p.size());
  b.l.resize(s.l.size());
  b.g.resize(s.g.size());
  b.t.resize(s.t.size());
  b.a.resize(s.a.size());
  b.r.resize(s.r.size());
  for (int i : op) {
    auto& e = s.p[size_t(i)];
    b.p[size_t(i)] = Point3d(e.id, e.x, e.y, e.z, toAttr(e.a));
  }
  auto pts = [&](const std::vector<int>& v) {
    Points3d o;
    for (int i : v) o.push_back(b.p[size_t(i)]);
    return o;
  };
  for (int i : ol) b.l[size_t(i)] = LineString3d(s.l[size_t(i)].id, pts(s.l[size_t(i)].pts), toAttr(s.l[size_t(i)].a));
  for (int i : og) b.g[size_t(i)] = Polygon3d(s.g[size_t(i)].id, pts(s.g[size_t(i)].pts), toAttr(s.g[size_t(i)].a));
  auto ref = [&](Ref x) { return x.inv ? b.l[size_t(x.i)].invert() : b.l[size_t(x.i)]; };
  for (int i : ot) {
    auto& e = s.t[size_t(i)];
    b.t[size_t(i)] = Lanelet(e.id, ref(e.left), ref(e.right), toAttr(e.a));
    if (e.center.i >= 0) b.t[size_t(i)].setCenterline(ref(e.center));
  }
  for (int i : oa) {
    auto& e = s.a[size_t(i)];
    LineStrings3d outer;
    for (auto& x : e.outer) outer.push_back(ref(x));
    InnerBounds inner;
    for (auto& in : e.inner) {
      inner.emplace_back();
      for (auto& x : in) inner.back().push_back(ref(x));
    }
    b.a[size_t(i)] = Area(e.id, outer, inner, toAttr(e.a));
  }
  for (int i : orr) b.r[size_t(i)] = makeReg(s.r[size_t(i)], b);
  for (int i : ot)
    for (int k : s.t[size_t(i)].regs) b.t[size_t(i)].addRegulatoryElement(b.r[size_t(k)]);
  for (int i : oa)
    for (int k : s.a[size_t(i)].regs) b.a[size_t(i)].addRegulatoryElement(b.r[size_t(k)]);
  return b;
}
void buildMap(const Spec& s, Built& b, int how, u64 orderSeed) {
  Rng r(mix(orderSeed, 77));
  auto order = [&](size_t n) { return permutation(r, int(n)); };
  std::vector<int> op = order(s.p.size()), ol = order(s.l.size()), og = order(s.g.size()), ot = order(s.t.size()),
                   oa = order(s.a.size()), orr = order(s.r.size()), kinds = order(6);
  sim::Lib lib;
  if (how == 0) {
    LaneletLayer::Map lm;
    AreaLayer::Map am;
    RegulatoryElementLayer::Map rm;
    PolygonLayer::Map gm;
    LineStringLayer::Map sm;
    PointLayer::Map pm;
    for (int i : op) pm.emplace(s.p[size_t(i)].id, b.p[size_t(i)]);
    for (int i : ol) sm.emplace(s.l[size_t(i)].id, b.l[size_t(i)]);
    for (int i : og) gm.emplace(s.g[size_t(i)].id, b.g[size_t(i)]);
    for (int i : ot) lm.emplace(s.t[size_t(i)].id, b.t[size_t(i)]);
    for (int i : oa) am.emplace(s.a[size_t(i)].id, b.a[size_t(i)]);
    for (int i : orr) rm.emplace(s.r[size_t(i)].id, b.r[size_t(i)]);
    b.map = std::make_shared<LaneletMap>(lm, am, rm, gm, sm, pm);
    return;
  }
  if (how == 2) {
    Lanelets ll;
    Areas ar;
    for (int i : ot) ll.push_back(b.t[size_t(i)]);
    for (int i : oa) ar.push_back(b.a[size_t(i)]);
    b.map = LaneletMapPtr(utils::createMap(ll, ar));
  } else {
    b.map = std::make_shared<LaneletMap>();
  }
  for (int k : kinds) switch (k) {
      case 0:
        for (int i : op) b.map->add(b.p[size_t(i)]);
        break;
      case 1:
        for (int i : ol) b.map->add(b.l[size_t(i)]);
        break;
      case 2:
        for (int i : og) b.map->add(b.g[size_t(i)]);
        break;
      case 3:
        for (int i : ot) b.map->add(b.t[size_t(i)]);
        break;
      case 4:
        for (int i : oa) b.map->add(b.a[size_t(i)]);
        break;
      default:
        for (int i : orr) b.map->add(b.r[size_t(i)]);
    }
}
Built build(const Spec& s, int how, u64 orderSeed) {
  Built b = buildObjects(s, orderSeed);
  buildMap(s, b, how, orderSeed);
  return b;
}

// ------------------------------------------------------------------ dumps of real objects
std::string attrText(const AttributeMap& a) {
  std::map<std::string, std::string> m;
  for (auto& x : a) m[x.first] = x.second.value();
  return attrText(m);
}
std::string refText(const ConstLineString3d& l) { return fmt("%lld%c", (long long)l.id(), l.inverted() ? '-' : '+'); }
std::string ringText(std::vector<std::string> v, bool canonical);
namespace {
std::string ptText(const ConstPoint3d& p, bool osm) {
  return (osm ? coarse(p.x()) + "," + coarse(p.y()) + "," + coarse(p.z()) : num(p.x()) + "," + num(p.y()) + "," + num(p.z())) + " " +
         attrText(p.attributes());
}
template <typename L>
std::string lsText(const L& l) {
  std::string o = "[";
  for (auto& p : l) o += fmt("%lld ", (long long)p.id());
  return o + "]";
}
template <typename R>
std::string regsText(const R& v) {
  std::string o = " regs=";
  for (auto& r : v) o += fmt("%lld ", (long long)r->id());
  return o;
}
struct ParamText : RuleParameterVisitor {
  std::string o;
  bool osm = false;
  void operator()(const ConstPoint3d& p) override { o += fmt(" P%lld", (long long)p.id()); }
  void operator()(const ConstLineString3d& l) override { o += fmt(" L%lld%c", (long long)l.id(), l.inverted() && !osm ? '-' : '+'); }
  void operator()(const ConstPolygon3d& p) override { o += fmt(" G%lld", (long long)p.id()); }
  void operator()(const ConstWeakLanelet& w) override {
    if (w.expired()) o += " Texpired";
    else o += fmt(" T%lld%s", (long long)w.lock().id(), w.lock().inverted() && !osm ? "-" : "");
  }
  void operator()(const ConstWeakArea& w) override {
    if (w.expired()) o += " Aexpired";
    else o += fmt(" A%lld", (long long)w.lock().id());
  }
};
const char* ruleClass(const RegulatoryElement& r) {
  if (dynamic_cast<const SpeedLimit*>(&r)) return "speed_limit";
  if (dynamic_cast<const TrafficSign*>(&r)) return "traffic_sign";
  if (dynamic_cast<const TrafficLight*>(&r)) return "traffic_light";
  if (dynamic_cast<const RightOfWay*>(&r)) return "right_of_way";
  if (dynamic_cast<const AllWayStop*>(&r)) return "all_way_stop";
  if (dynamic_cast<const GenericRegulatoryElement*>(&r)) return "regulatory_element";
  return "other";
}
}  // namespace
std::string laneletText(const ConstLanelet& t, int) {
  return "left=" + refText(t.leftBound()) + " right=" + refText(t.rightBound()) +
         " center=" + (t.hasCustomCenterline() ? refText(t.centerline()) : std::string("-")) + " " + attrText(t.attributes()) +
         regsText(t.regulatoryElements());
}
static std::string areaText(const ConstArea& a, bool osm) {
  auto ring = [&](const ConstLineStrings3d& r) {
    std::vector<std::string> v;
    for (auto& x : r) v.push_back(refText(x));
    return ringText(v, osm);
  };
  std::string o = "outer=" + ring(a.outerBound()) + " inner=";
  for (auto& i : a.innerBounds()) {
    ConstLineStrings3d c(i.begin(), i.end());
    o += ring(c);
  }
  return o + " " + attrText(a.attributes()) + regsText(a.regulatoryElements());
}
static std::string regText(const RegulatoryElement& r, bool osm) {
  std::map<std::string, std::string> roles;
  auto params = r.getParameters();
  for (auto& q : params) {
    if (q.second.empty()) continue;
    ParamText v;
    v.osm = osm;
    for (auto& e : q.second) boost::apply_visitor(v, e);
    roles[q.first] = v.o;
  }
  std::string o = std::string(ruleClass(r)) + " " + attrText(r.attributes());
  for (auto& q : roles) o += " " + q.first + ":" + q.second;
  return o;
}
Dump dumpMap(const LaneletMapLayers& m, int opt) {
  Dump d;
  const bool osm = opt == kOsm;
  auto key = [](char k, Id i) { return fmt("%c %lld", k, (long long)i); };
  auto put = [&](const std::string& k, std::string v) {
    if (d.count(k)) d[k + " (twice)"] = std::move(v);
    else d[k] = std::move(v);
  };
  for (auto& p : m.pointLayer) put(key('P', p.id()), ptText(p, osm));
  for (const auto& l : m.lineStringLayer) {
    ConstLineString3d c = l.inverted() ? ConstLineString3d(l).invert() : ConstLineString3d(l);
    put(key('L', c.id()), lsText(c) + " " + attrText(c.attributes()));
  }
  for (const auto& g : m.polygonLayer) put(key('G', g.id()), lsText(ConstPolygon3d(g)) + " " + attrText(g.attributes()));
  for (const auto& t : m.laneletLayer) put(key('T', t.id()), laneletText(t, opt));
  for (const auto& a : m.areaLayer) put(key('A', a.id()), areaText(a, osm));
  for (const auto& r : m.regulatoryElementLayer) put(key('R', r->id()), regText(*r, osm));
  return d;
}
Dump dumpBuilt(const Built& b, int opt) {
  Dump d;
  const bool osm = opt == kOsm;
  auto key = [](char k, Id i) { return fmt("%c %lld", k, (long long)i); };
  for (auto& p : b.p) d[key('P', p.id())] = ptText(p, osm);
  for (auto& l : b.l) d[key('L', l.id())] = lsText(ConstLineString3d(l)) + " " + attrText(l.attributes());
  for (auto& g : b.g) d[key('G', g.id())] = lsText(ConstPolygon3d(g)) + " " + attrText(g.attributes());
  for (auto& t : b.t) d[key('T', t.id())] = laneletText(t, opt);
  for (auto& a : b.a) d[key('A', a.id())] = areaText(a, osm);
  for (auto& r : b.r) d[key('R', r->id())] = regText(*r, false);
  return d;
}
std::string closure(const LaneletMap& m) {
  std::string o;
  auto bad = [&](const char* what, Id id, Id by) {
    if (o.size() < 600) o += fmt("%s %lld referenced by %lld is not the object in the map\n", what, (long long)id, (long long)by);
  };
  auto checkPt = [&](const ConstPoint3d& p, Id by) {
    auto it = m.pointLayer.find(p.id());
    if (it == m.pointLayer.end() || it->constData() != p.constData()) bad("point", p.id(), by);
  };
  auto checkLs = [&](const ConstLineString3d& l, Id by) {
    auto it = m.lineStringLayer.find(l.id());
    if (it == m.lineStringLayer.end() || it->constData() != l.constData()) bad("linestring", l.id(), by);
  };
  for (auto& l : m.lineStringLayer)
    for (auto& p : ConstLineString3d(l)) checkPt(p, l.id());
  for (auto& g : m.polygonLayer)
    for (auto& p : ConstPolygon3d(g)) checkPt(p, g.id());
  auto checkReg = [&](const RegulatoryElementConstPtr& r, Id by) {
    auto it = m.regulatoryElementLayer.find(r->id());
    if (it == m.regulatoryElementLayer.end() || (*it).get() != r.get()) bad("regulatory element", r->id(), by);
  };
  for (auto& t : m.laneletLayer) {
    checkLs(t.leftBound(), t.id());
    checkLs(t.rightBound(), t.id());
    if (t.hasCustomCenterline()) checkLs(t.centerline(), t.id());
    for (auto& r : t.regulatoryElements()) checkReg(r, t.id());
  }
  for (auto& a : m.areaLayer) {
    for (auto& l : a.outerBound()) checkLs(l, a.id());
    for (auto& in : a.innerBounds())
      for (auto& l : in) checkLs(l, a.id());
    for (auto& r : a.regulatoryElements()) checkReg(r, a.id());
  }
  struct V : RuleParameterVisitor {
    const LaneletMap& m;
    std::function<void(const ConstPoint3d&, Id)> cp;
    std::function<void(const ConstLineString3d&, Id)> cl;
    std::function<void(const char*, Id, Id)> bad;
    Id by = 0;
    explicit V(const LaneletMap& mm) : m(mm) {}
    void operator()(const ConstPoint3d& p) override { cp(p, by); }
    void operator()(const ConstLineString3d& l) override { cl(l, by); }
    void operator()(const ConstPolygon3d& p) override {
      auto it = m.polygonLayer.find(p.id());
      if (it == m.polygonLayer.end() || it->constData() != p.constData()) bad("polygon", p.id(), by);
    }
    void operator()(const ConstWeakLanelet& w) override {
      if (w.expired()) {
        bad("expired lanelet", 0, by);
        return;
      }
      auto l = w.lock();
      auto it = m.laneletLayer.find(l.id());
      if (it == m.laneletLayer.end() || it->constData() != l.constData()) bad("lanelet", l.id(), by);
    }
    void operator()(const ConstWeakArea& w) override {
      if (w.expired()) {
        bad("expired area", 0, by);
        return;
      }
      auto l = w.lock();
      auto it = m.areaLayer.find(l.id());
      if (it == m.areaLayer.end() || it->constData() != l.constData()) bad("area", l.id(), by);
    }
  } v(m);
  v.cp = checkPt;
  v.cl = checkLs;
  v.bad = bad;
  for (auto& r : m.regulatoryElementLayer) {
    v.by = r->id();
    r->applyVisitor(v);
  }
  return o;
}

// ------------------------------------------------------------------ outcomes
const char* exName(Ex e) {
  static const char* n[] = {"ok", "LaneletError", "IOError", "bad_alloc", "plug-in", "std::exception", "unknown"};
  return n[int(e)];
}
Res classifyCurrent() {
  Res r;
  if (std::type_info* ti = abi::__cxa_current_exception_type()) {
    int st = 0;
    char* n = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
    r.type = n ? n : ti->name();
    free(n);
  }
  try {
    throw;
  } catch (PluginError& e) {
    r.ex = Ex::Plugin;
    r.what = fmt("%d", e.n);
  } catch (std::bad_alloc& e) {
    r.ex = Ex::BadAlloc;
  } catch (IOError& e) {
    r.ex = Ex::Io;
    r.what = e.what();
  } catch (LaneletError& e) {
    r.ex = Ex::Lanelet;
    r.what = e.what();
  } catch (std::exception& e) {
    r.ex = Ex::Std;
    r.what = e.what();
  } catch (...) {
    r.ex = Ex::Unknown;
  }
  return r;
}

// ------------------------------------------------------------------ clients
namespace {
struct ClientArg {
  const std::function<void(int)>* fn;
  int c;
};
void clientMain(void* p) {
  sim::enterHarness();
  auto* a = static_cast<ClientArg*>(p);
  try {
    (*a->fn)(a->c);
  } catch (std::exception& e) {
    violation("unexpected-exception", "client %d: %s", a->c, e.what());
  } catch (...) {
    violation("unexpected-exception", "client %d: foreign exception", a->c);
  }
  sim::leaveHarness();
}
}  // namespace
void runClients(int n, const std::function<void(int)>& fn) {
  std::vector<ClientArg> args;
  args.reserve(size_t(n));
  for (int i = 0; i < n; i++) {
    args.push_back(ClientArg{&fn, i});
  }
  // the spawning thread keeps running until it joins: no client starts before all exist only if the scheduler says so
  {
    sim::Lib lib;
    for (int i = 0; i < n; i++) sim::spawn(clientMain, &args[size_t(i)]);
    sim::joinAll();
  }
}
int clientOf() { return sim::self() - 1; }
void schedFrom(Plan& p, Rng& r, u64 hint) {
  p.sched.seed = r.next();
  p.sched.maxSteps = 60000000;
  switch (r.below(10)) {
    case 0: case 1: case 2: {
      static const u64 g[] = {20, 100, 500, 3000};
      p.sched.strategy = kRandom;
      p.sched.gap = g[r.below(4)];
      break;
    }
    case 3: case 4: case 5: {
      p.sched.strategy = kPct;
      p.sched.gap = 1 + r.below(5);
      u64 l = 200;
      while (l < hint * 4 && r.chance(3, 4)) l *= 2;
      p.sched.length = l;
      break;
    }
    case 6: case 7: {
      static const u64 g[] = {2, 5, 20};
      p.sched.strategy = kConflict;
      p.sched.gap = g[r.below(3)];
      break;
    }
    default: {
      static const u64 g[] = {1, 2, 5};
      p.sched.strategy = kSync;
      p.sched.gap = g[r.below(3)];
    }
  }
}

// ------------------------------------------------------------------ faults and verdicts
void armIo(const Ctx& c, int life) {
  IoFault f[32];
  int n = 0;
  for (auto& x : c.plan.faults) {
    if (x.life != life || x.name != "io" || n >= 32) continue;
    f[n++] = IoFault{int(x.arg(0)), u64(x.arg(1)), int(x.arg(2)), u64(x.arg(3)), int(x.arg(4)), int(x.arg(5, -1))};
  }
  setIoFaults(f, n);
}
const Fault* findFault(const Ctx& c, const char* name, int life) {
  for (auto& x : c.plan.faults)
    if (x.life == life && x.name == name) return &x;
  return nullptr;
}
void fail(const char* cat, const std::string& msg) { violation(cat, "%s", msg.c_str()); }
void expectEq(const char* cat, const std::string& what, const Dump& w, const Dump& g) {
  std::string d = diff(w, g);
  hashBytes(what.data(), what.size());
  if (!d.empty()) fail(cat, what + ":\n" + d);
}
void sample(const std::string& s) {
  snprintf(shm()->sample, sizeof shm()->sample, "%s", s.c_str());
  hashBytes(s.data(), s.size());
}
void LeakScope::check(const char* what, const char* cat) const {
  if (liveBlocks() == blocks) return;
  char b[1500];
  printLive(seq, b, sizeof b);
  violation(cat, "%s: %lld library blocks more than before; live blocks allocated since: %s", what,
            (long long)(liveBlocks() - blocks), b);
}
std::string diskContent(const std::string& name) {
  int i = diskFind(name.c_str());
  if (i < 0) return "";
  u64 n = 0;
  const char* d = diskData(i, &n);
  return std::string(d, n);
}
}  // namespace h
