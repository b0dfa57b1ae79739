#include "prim_util.h"

#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/utility/Units.h>

#include <algorithm>
#include <cmath>
#include <sstream>

using namespace lanelet;
namespace h {
namespace {
// ------------------------------------------------------------------ attributes with known meaning
struct AttrCase {
  const char* text;  // nullptr: typed, see makeAttr
  const char *b, *d, *i, *id, *v;  // expected readings, "-" if none
};
const AttrCase kAttr[] = {
    {"1", "1", "1", "1", "1", "1"},
    {"0", "0", "0", "0", "0", "0"},
    {"yes", "1", "-", "-", "-", "-"},
    {"true", "1", "-", "-", "-", "-"},
    {"no", "0", "-", "-", "-", "-"},
    {"false", "0", "-", "-", "-", "-"},
    {"50", "-", "50", "50", "50", "50"},
    {"-7", "-", "-7", "-7", "-7", "-7"},
    {"30.5", "-", "30.5", "-", "-", "30.5"},
    {"50 km/h", "-", "-", "-", "-", "50"},
    {"13.5 mps", "-", "-", "-", "-", "48.6"},
    {"20kmh", "-", "-", "-", "-", "20"},
    {"10 mph", "-", "-", "-", "-", "16.09344"},
    {"abc", "-", "-", "-", "-", "-"},
    {"", "-", "-", "-", "-", "-"},
    {"4294967296", "-", "4294967296", "-", "4294967296", "4294967296"},
    {"1e3", "-", "1000", "-", "-", "1000"},
    {nullptr, "1", "1", "1", "1", "1"},                                              // bool true
    {nullptr, "-", "12345678901", "-", "12345678901", "12345678901"},                // Id
    {nullptr, "-", "42", "42", "42", "42"},                                          // int
    {nullptr, "-", "1e-09", "-", "-", "1e-09"},                                      // double below the text precision
    {nullptr, "-", "0.1", "-", "-", "0.1"},                                          // double
    {nullptr, "-", "48.6", "-", "-", "48.6"},                                        // velocity
};
const int kNumAttr = int(sizeof kAttr / sizeof *kAttr);
const char* kTypedText[] = {"1", "12345678901", "42", "0.000000", "0.100000", "48.600000"};
Attribute makeAttr(int i) {
  if (kAttr[i].text) return Attribute(kAttr[i].text);
  switch (i - 17) {
    case 0: return Attribute(true);
    case 1: return Attribute(Id(12345678901ll));
    case 2: return Attribute(42);
    case 3: return Attribute(1e-9);
    case 4: return Attribute(0.1);
    default: return Attribute(Velocity(13.5 * units::MPS()));
  }
}
std::string g12(double d) { return fmt("%.12g", d); }
template <typename T, typename F>
std::string opt(const T& o, F f) {
  return !!o ? f(*o) : std::string("-");
}
std::string readAttr(const Attribute& a, i64 how) {
  switch (how) {
    case 0: return opt(a.asBool(), [](bool v) { return fmt("%d", int(v)); });
    case 1: return opt(a.asDouble(), [](double v) { return g12(v); });
    case 2: return opt(a.asInt(), [](int v) { return fmt("%d", v); });
    case 3: return opt(a.asId(), [](Id v) { return fmt("%lld", (long long)v); });
    case 4: return opt(a.asVelocity(), [](Velocity v) { return g12(units::KmHQuantity(v).value()); });
    default: return a.value();
  }
}
std::string wantAttr(int i, i64 how) {
  auto& c = kAttr[i];
  switch (how) {
    case 0: return c.b;
    case 1: return c.d;
    case 2: return c.i;
    case 3: return c.id;
    case 4: return c.v;
    default: return c.text ? c.text : kTypedText[i - 17];
  }
}
// ------------------------------------------------------------------ texts of real objects
long long L(Id i) { return static_cast<long long>(i); }
std::string pt(const ConstPoint3d& p) { return fmt("%lld(%s,%s,%s) ", L(p.id()), num(p.x()).c_str(), num(p.y()).c_str(), num(p.z()).c_str()); }
std::string pt(const ConstPoint2d& p) { return fmt("%lld(%s,%s) ", L(p.id()), num(p.x()).c_str(), num(p.y()).c_str()); }
std::string pt(const BasicPoint3d& p) { return fmt("(%s,%s,%s) ", num(p.x()).c_str(), num(p.y()).c_str(), num(p.z()).c_str()); }
std::string pt(const BasicPoint2d& p) { return fmt("(%s,%s) ", num(p.x()).c_str(), num(p.y()).c_str()); }
std::string pt(const Eigen::Vector2d& p) { return fmt("(%s,%s) ", num(p.x()).c_str(), num(p.y()).c_str()); }
template <typename R>
std::string pts(const R& r) {
  std::string o;
  for (auto it = r.begin(); it != r.end(); ++it) o += pt(*it);
  return o;
}
template <typename LS>
std::string line(const LS& l) {
  return fmt("L%lld%c ", L(l.id()), l.inverted() ? '-' : '+') + pts(l);
}
template <typename LS>
std::string segs(const LS& l) {
  std::string o = fmt("%zu: ", size_t(l.numSegments()));
  for (size_t i = 0; i < l.numSegments(); i++) {
    auto s = l.segment(i);
    o += pt(s.first) + "- " + pt(s.second);
  }
  return o;
}
template <typename V>
std::string idsOf(const V& v) {
  std::string o;
  for (auto& e : v) o += fmt("%lld ", L(e.id()));
  return o;
}
template <typename V>
std::string idsOfPtr(const V& v) {
  std::string o;
  for (auto& e : v) o += fmt("%lld ", L(e->id()));
  return o;
}
template <typename T>
std::string box2(const T& b) {
  return pt(BasicPoint2d(b.min())) + pt(BasicPoint2d(b.max()));
}
template <typename T>
std::string box3(const T& b) {
  return pt(BasicPoint3d(b.min())) + pt(BasicPoint3d(b.max()));
}
struct RoleText : RuleParameterVisitor {
  std::map<std::string, std::string> o;
  void add(char c, Id id) { o[role] += fmt("%c%lld ", c, L(id)); }
  void operator()(const ConstPoint3d& p) override { add('P', p.id()); }
  void operator()(const ConstLineString3d& l) override { add(l.inverted() ? 'I' : 'L', l.id()); }
  void operator()(const ConstPolygon3d& p) override { add('G', p.id()); }
  void operator()(const ConstWeakLanelet& w) override {
    if (w.expired()) o[role] += "T? ";
    else add('T', w.lock().id());
  }
  void operator()(const ConstWeakArea& w) override {
    if (w.expired()) o[role] += "A? ";
    else add('A', w.lock().id());
  }
};
std::string mapText(const std::map<std::string, std::string>& m) {
  std::string o;
  for (auto& e : m) o += e.first + ": " + e.second + "; ";
  return o;
}
const char* kRoles[] = {"refers", "ref_line", "yield", "right_of_way", "cancels", "foo", "my role"};

// ------------------------------------------------------------------ model helpers
struct Model {
  const Spec& s;
  const PtS& p(int i) const { return s.p[size_t(i)]; }
  std::vector<int> pointsOf(Ref r) const {
    std::vector<int> v = s.l[size_t(r.i)].pts;
    if (r.inv) std::reverse(v.begin(), v.end());
    return v;
  }
  static Ref flip(Ref r) { return Ref{r.i, !r.inv}; }
  std::vector<int> join(const std::vector<std::vector<int>>& v) const {  // neighbours that are the same point count once
    std::vector<int> o;
    for (auto& l : v)
      for (int i : l)
        if (o.empty() || o.back() != i) o.push_back(i);
    return o;
  }
  std::string pt(int i, bool two, bool id = true) const {
    auto& q = p(i);
    std::string o = id ? fmt("%lld", L(q.id)) : std::string();
    return o + (two ? fmt("(%s,%s) ", num(q.x).c_str(), num(q.y).c_str()) : fmt("(%s,%s,%s) ", num(q.x).c_str(), num(q.y).c_str(), num(q.z).c_str()));
  }
  std::string pts(const std::vector<int>& v, bool two, bool id = true) const {
    std::string o;
    for (int i : v) o += pt(i, two, id);
    return o;
  }
  std::string line(Ref r, bool two) const { return fmt("L%lld%c ", L(s.l[size_t(r.i)].id), r.inv ? '-' : '+') + pts(pointsOf(r), two); }
  std::string segs(const std::vector<int>& v, bool two) const {
    std::string o = fmt("%zu: ", v.empty() ? 0 : v.size() - 1);
    for (size_t i = 0; i + 1 < v.size(); i++) o += pt(v[i], two) + "- " + pt(v[i + 1], two);
    return o;
  }
  std::string psegs(const std::vector<int>& v, bool two) const {
    if (v.size() < 2) return "0: ";
    std::string o = fmt("%zu: ", v.size());
    for (size_t i = 0; i < v.size(); i++) o += pt(v[i], two) + "- " + pt(v[(i + 1) % v.size()], two);
    return o;
  }
  Ref left(int t, bool inv) const { return inv ? flip(s.t[size_t(t)].right) : s.t[size_t(t)].left; }
  Ref right(int t, bool inv) const { return inv ? flip(s.t[size_t(t)].left) : s.t[size_t(t)].right; }
  std::vector<int> outline(int t) const { return join({pointsOf(left(t, false)), pointsOf(flip(right(t, false)))}); }
  Id paramId(const Param& q) const {
    switch (q.kind) {
      case kP: return s.p[size_t(q.i)].id;
      case kL: return s.l[size_t(q.i)].id;
      case kG: return s.g[size_t(q.i)].id;
      case kT: return s.t[size_t(q.i)].id;
      default: return s.a[size_t(q.i)].id;
    }
  }
  std::string params(const ReS& r, const std::string& role, const char* kinds) const {
    std::string o;
    auto it = r.params.find(role);
    if (it == r.params.end()) return o;
    static const char letter[] = "PLGTA";
    for (auto& q : it->second)
      if (strchr(kinds, letter[q.kind])) o += fmt("%lld ", L(paramId(q)));
    return o;
  }
  std::string first(const ReS& r, const std::string& role) const {
    std::string v = params(r, role, "L");
    return v.empty() ? "-" : v.substr(0, v.find(' '));
  }
  std::string regs(const std::vector<int>& v, const char* only) const {
    std::string o;
    for (int i : v) {
      auto& r = s.r[size_t(i)];
      if (*only && r.rule != only && !(!strcmp(only, "traffic_sign") && r.rule == "speed_limit")) continue;
      o += fmt("%lld ", L(r.id));
    }
    return o;
  }
};
const char* kRegTypes[] = {"", "traffic_light", "right_of_way", "speed_limit", "all_way_stop", "traffic_sign"};
template <typename Prim>
std::string regsAs(const Prim& p, i64 var) {
  switch (var) {
    case 0: return idsOfPtr(p.regulatoryElements());
    case 1: return idsOfPtr(p.template regulatoryElementsAs<TrafficLight>());
    case 2: return idsOfPtr(p.template regulatoryElementsAs<RightOfWay>());
    case 3: return idsOfPtr(p.template regulatoryElementsAs<SpeedLimit>());
    case 4: return idsOfPtr(p.template regulatoryElementsAs<AllWayStop>());
    default: return idsOfPtr(p.template regulatoryElementsAs<TrafficSign>());
  }
}
template <typename M>
std::string attrDump(const M& p) {
  std::map<std::string, std::string> m;
  for (auto& e : p.attributes()) m[e.first] = e.second.value();
  return attrText(m) + "|" + p.attributeOr("type", std::string("none")) + "|" + p.attributeOr(AttributeName::Subtype, std::string("none")) +
         fmt("|%d%d", int(p.hasAttribute("location")), int(p.hasAttribute(AttributeName::Type)));
}
std::string attrWant(const Attrs& a) {
  auto get = [&](const char* k) { return a.count(k) ? a.at(k) : std::string("none"); };
  return attrText(a) + "|" + get("type") + "|" + get("subtype") + fmt("|%d%d", int(a.count("location")), int(a.count("type")));
}
i64 posMod(i64 a, i64 n) { return n <= 0 ? 0 : ((a % n) + n) % n; }
}  // namespace

FixSpec makeFixSpec(Spec s, u64 seed) {
  FixSpec f;
  Rng r(seed);
  // a row of successive lanelets as sequence: those whose left bounds connect
  for (size_t i = 0; i < s.t.size(); i++) f.seq.push_back(int(i));
  if (!f.seq.empty()) {
    std::vector<int> best;
    Model m{s};
    int cur = int(r.below(s.t.size()));
    std::set<int> seen;
    while (cur >= 0 && seen.insert(cur).second && best.size() < 4) {
      best.push_back(cur);
      int next = -1;
      auto l = m.pointsOf(m.left(cur, false)), rr = m.pointsOf(m.right(cur, false));
      for (size_t i = 0; i < s.t.size() && next < 0; i++) {
        if (seen.count(int(i))) continue;
        auto l2 = m.pointsOf(m.left(int(i), false)), r2 = m.pointsOf(m.right(int(i), false));
        if (l.back() == l2.front() && rr.back() == r2.front()) next = int(i);
      }
      cur = next;
    }
    f.seq = best;
  }
  for (int t : f.seq) f.comp.push_back(s.t[size_t(t)].left);
  for (int k = int(r.below(3)); k > 0 && !s.l.empty(); k--) f.comp.push_back(Ref{int(r.below(s.l.size())), r.chance(1, 2)});
  f.s = std::move(s);
  return f;
}
Fix makeFix(const FixSpec& f, u64 orderSeed) {
  Fix x;
  x.b = buildObjects(f.s, orderSeed);
  sim::Lib lib;
  ConstLanelets ll;
  for (int t : f.seq) ll.push_back(x.b.t[size_t(t)]);
  x.seq = std::make_unique<LaneletSequence>(ll);
  ConstLineStrings3d ls;
  for (auto& c : f.comp) ls.push_back(c.inv ? x.b.l[size_t(c.i)].invert() : x.b.l[size_t(c.i)]);
  x.comp = std::make_unique<CompoundLineString3d>(ls);
  x.cpoly = std::make_unique<CompoundPolygon3d>(ls);
  for (auto& t : x.b.t) x.weak.push_back(t);
  x.attrs = LineString3d(1, {});
  for (int i = 0; i < kNumAttr; i++) x.attrs.setAttribute(fmt("a%d", i), makeAttr(i));
  return x;
}
void dropFix(Fix& f) {
  sim::Lib lib;
  f.b = Built();
  f.seq.reset();
  f.comp.reset();
  f.cpoly.reset();
  std::vector<ConstWeakLanelet>().swap(f.weak);
  f.attrs = LineString3d();
}

std::string readPrim(const Fix& f, i64 kind, i64 idx, i64 var) {
  const Built& b = f.b;
  switch (kind) {
    case 0: {
      const LineString3d& ls = f.attrs;
      const Attribute& a = ls.attribute(fmt("a%d", int(posMod(idx, kNumAttr))));
      i64 how = posMod(var, 6);
      switch (posMod(var / 6, 4)) {
        case 0: return readAttr(a, how);
        case 1: {
          Attribute c(a);
          return readAttr(c, how);
        }
        case 2: {
          Attribute c;
          c = a;
          return readAttr(c, how);
        }
        default: {
          AttributeMap m = ls.attributes();
          return readAttr(m.at(fmt("a%d", int(posMod(idx, kNumAttr)))), how);
        }
      }
    }
    case 1: {
      if (b.t.empty()) return "";
      const Lanelet& o = b.t[size_t(posMod(idx, i64(b.t.size())))];
      ConstLanelet t = var & 1 ? ConstLanelet(o).invert() : ConstLanelet(o);
      if (var & 4) return line(var & 2 ? t.rightBound2d() : t.leftBound2d());
      return line(var & 2 ? t.rightBound() : t.leftBound());
    }
    case 2: {
      if (b.t.empty()) return "";
      const Lanelet& o = b.t[size_t(posMod(idx, i64(b.t.size())))];
      ConstLanelet t = var & 1 ? ConstLanelet(o).invert() : ConstLanelet(o);
      if (var & 4) return fmt("custom %d", int(t.hasCustomCenterline()));
      return var & 2 ? line(t.centerline2d()) : line(t.centerline());
    }
    case 3: {
      if (b.t.empty()) return "";
      const Lanelet& o = b.t[size_t(posMod(idx, i64(b.t.size())))];
      ConstLanelet t = var & 1 ? ConstLanelet(o).invert() : ConstLanelet(o);
      switch (posMod(var / 2, 4)) {
        case 0: return pts(t.polygon3d());
        case 1: return pts(t.polygon2d());
        case 2: return pts(t.polygon3d().basicPolygon());
        default: {
          CompoundPolygon2d p = t.polygon2d();
          return pts(p.basicPolygon()) + fmt("%zu", size_t(p.size()));
        }
      }
    }
    case 4: {
      if (b.t.empty()) return "";
      const Lanelet& o = b.t[size_t(posMod(idx, i64(b.t.size())))];
      return regsAs(ConstLanelet(o), posMod(var, 6));
    }
    case 5: {
      if (b.l.empty()) return "";
      ConstLineString3d l = b.l[size_t(posMod(idx, i64(b.l.size())))];
      switch (posMod(var, 10)) {
        case 0: return line(l);
        case 1: return line(l.invert());
        case 2: return line(utils::to2D(l));
        case 3: return segs(l);
        case 4: return pts(l.basicLineString());
        case 5: {
          std::string o = fmt("%zu %d ", l.size(), int(l.empty()));
          if (!l.empty()) o += pt(l.front()) + pt(l.back()) + pt(l[l.size() / 2]) + pt(l.invert()[0]) + pt(l.invert().back());
          return o;
        }
        case 6: return pts(utils::to2D(l).invert().basicLineString());
        case 7: return fmt("%d %d %lld", int(l.invert().invert() == l), int(l.invert() == l), L(l.invert().id()));
        case 8: return pts(utils::toHybrid(l));
        default: return segs(utils::to2D(l.invert()));
      }
    }
    case 6: {
      if (b.g.empty()) return "";
      ConstPolygon3d g = b.g[size_t(posMod(idx, i64(b.g.size())))];
      switch (posMod(var, 5)) {
        case 0: return pts(g);
        case 1: return pts(utils::to2D(g));
        case 2: return segs(g);
        case 3: return pts(g.basicPolygon());
        default: return pts(utils::toHybrid(utils::to2D(g)));
      }
    }
    case 7: {
      if (b.a.empty()) return "";
      ConstArea a = b.a[size_t(posMod(idx, i64(b.a.size())))];
      std::string o;
      switch (posMod(var, 6)) {
        case 0:
          for (auto& l : a.outerBound()) o += line(l);
          return o;
        case 1:
          for (auto& in : a.innerBounds())
            for (auto& l : in) o += line(l);
          return o;
        case 2: return pts(a.outerBoundPolygon());
        case 3:
          for (auto& p : a.innerBoundPolygons()) o += pts(p) + "/ ";
          return o;
        case 4: {
          BasicPolygonWithHoles2d w = a.basicPolygonWithHoles2d();
          o = pts(w.outer);
          for (auto& p : w.inner) o += "/ " + pts(p);
          return o;
        }
        default: return idsOfPtr(a.regulatoryElements());
      }
    }
    case 8: {
      if (b.r.empty()) return "";
      const RegulatoryElement& r = *b.r[size_t(posMod(idx, i64(b.r.size())))];
      std::map<std::string, std::string> m;
      switch (posMod(var, 6)) {
        case 0:
          for (auto* role : kRoles) m[role] = idsOf(r.getParameters<ConstLineString3d>(role));
          return mapText(m);
        case 1:
          for (auto* role : kRoles) m[role] = idsOf(r.getParameters<ConstLanelet>(role));
          return mapText(m);
        case 2: {
          RoleText v;
          r.applyVisitor(v);
          for (auto it = v.o.begin(); it != v.o.end();) it = it->second.empty() ? v.o.erase(it) : std::next(it);
          return mapText(v.o);
        }
        case 3:
          return idsOf(r.getParameters<ConstLineString3d>(RoleName::RefLine)) + "/" + idsOf(r.getParameters<ConstPolygon3d>(RoleName::Refers)) + "/" +
                 idsOf(r.getParameters<ConstLanelet>(RoleName::Yield));
        case 4: {
          auto params = r.getParameters();
          for (auto& e : params)
            if (!e.second.empty()) m[e.first] = fmt("%zu", e.second.size());
          return mapText(m) + fmt("%d", int(r.empty()));
        }
        default: {
          std::string o;
          for (auto& t : b.t) o += r.find<ConstLanelet>(t.id()) ? "1" : "0";
          for (auto& l : b.l) o += r.find<ConstLineString3d>(l.id()) ? "1" : "0";
          return o;
        }
      }
    }
    case 9: {
      if (b.r.empty()) return "";
      RegulatoryElementConstPtr r = b.r[size_t(posMod(idx, i64(b.r.size())))];
      auto lsId = [](const ConstLineString3d& l) { return fmt("%lld", L(l.id())); };
      if (auto tl = std::dynamic_pointer_cast<const TrafficLight>(r)) return idsOf(tl->trafficLights()) + "| " + opt(tl->stopLine(), lsId);
      if (auto w = std::dynamic_pointer_cast<const RightOfWay>(r)) {
        std::string o = idsOf(w->rightOfWayLanelets()) + "| " + idsOf(w->yieldLanelets()) + "| " + opt(w->stopLine(), lsId) + "| ";
        for (auto& t : b.t) o += fmt("%d", int(w->getManeuver(t)));
        return o;
      }
      if (auto w = std::dynamic_pointer_cast<const AllWayStop>(r)) {
        std::string o = idsOf(w->lanelets()) + "| " + idsOf(w->stopLines()) + "| " + idsOf(w->trafficSigns()) + "| ";
        for (auto& t : b.t) o += opt(w->getStopLine(t), lsId) + " ";
        return o;
      }
      if (auto w = std::dynamic_pointer_cast<const TrafficSign>(r))
        return w->type() + "| " + idsOf(w->trafficSigns()) + "| " + idsOf(w->refLines()) + "| " + idsOf(w->cancellingTrafficSigns()) + "| " + idsOf(w->cancelLines());
      return "generic";
    }
    case 10: {
      const LaneletSequence& q = *f.seq;
      if (q.empty()) return "";
      switch (posMod(var, 10)) {
        case 0: return pts(q.leftBound());
        case 1: return pts(q.rightBound2d());
        case 2: return pts(q.centerline());
        case 3: return pts(q.polygon3d());
        case 4: {
          std::string o;
          for (Id i : q.ids()) o += fmt("%lld ", L(i));
          return o;
        }
        case 5: return pts(q.invert().leftBound());
        case 6: return idsOfPtr(q.regulatoryElements());
        case 7: return idsOf(q.invert().lanelets());
        case 8: return pts(q.invert().centerline2d());
        default: return pts(q.polygon2d().basicPolygon());
      }
    }
    case 11: {
      const CompoundLineString3d& q = *f.comp;
      switch (posMod(var, 8)) {
        case 0: return pts(q);
        case 1: return pts(q.invert());
        case 2: return pts(utils::to2D(q));
        case 3: return fmt("%zu %d ", q.size(), int(q.empty())) + (q.empty() ? std::string() : pt(q.front()) + pt(q.back()) + pt(q[q.size() / 2]));
        case 4: return q.empty() ? std::string() : segs(q);
        case 5: {
          std::string o;
          for (Id i : q.ids()) o += fmt("%lld ", L(i));
          return o + "/ " + idsOf(q.lineStrings());
        }
        case 6: return pts(utils::to2D(q).basicLineString());
        default: return pts(*f.cpoly);
      }
    }
    case 12: {
      if (b.p.empty()) return "";
      ConstPoint3d p = b.p[size_t(posMod(idx, i64(b.p.size())))];
      switch (posMod(var, 5)) {
        case 0: return pt(p);
        case 1: return pt(utils::to2D(p));
        case 2: return pt(p.basicPoint());
        case 3: return pt(utils::to2D(p).basicPoint());
        default: return pt(utils::to3D(utils::to2D(p)).basicPoint2d());
      }
    }
    case 13: {
      if (b.t.empty()) return "";
      size_t i = size_t(posMod(idx, i64(b.t.size())));
      const Lanelet& o = b.t[i];
      const ConstWeakLanelet& w = f.weak[i];
      switch (posMod(var, 4)) {
        case 0: {
          ConstWeakLanelet c(w);
          ConstLanelet l = c.lock();
          return fmt("%lld %d %d", L(l.id()), int(l == o), int(c.expired()));
        }
        case 1: {
          std::vector<ConstLanelet> v;
          for (int k = 0; k < 5; k++) v.push_back(o);
          v.push_back(v[0].invert());
          return fmt("%d %d", int(v[4] == v[0]), int(v[5] == v[0]));
        }
        case 2: return fmt("%d", int(std::hash<ConstLanelet>()(o) == std::hash<ConstLanelet>()(w.lock())));
        default: {
          Lanelet c(o);
          ConstLineString3d l = static_cast<const Lanelet&>(c).leftBound();
          return fmt("%lld %d", L(l.id()), int(l.constData() == ConstLanelet(o).leftBound().constData()));
        }
      }
    }
    case 14: {
      i64 n = i64(b.p.size() + b.l.size() + b.g.size() + b.t.size() + b.a.size());
      if (!n) return "";
      size_t i = size_t(posMod(idx, n));
      if (i < b.p.size()) return attrDump(ConstPoint3d(b.p[i]));
      i -= b.p.size();
      if (i < b.l.size()) return attrDump(ConstLineString3d(b.l[i]));
      i -= b.l.size();
      if (i < b.g.size()) return attrDump(ConstPolygon3d(b.g[i]));
      i -= b.g.size();
      if (i < b.t.size()) return attrDump(ConstLanelet(b.t[i]));
      return attrDump(ConstArea(b.a[i - b.t.size()]));
    }
    case 15: {
      if (posMod(var, 4) < 2 && !b.t.empty()) {
        ConstLanelet t = b.t[size_t(posMod(idx, i64(b.t.size())))];
        return var & 1 ? box3(geometry::boundingBox3d(t)) : box2(geometry::boundingBox2d(t));
      }
      if (posMod(var, 4) == 2 && !b.a.empty()) return box2(geometry::boundingBox2d(ConstArea(b.a[size_t(posMod(idx, i64(b.a.size())))])));
      if (posMod(var, 4) == 3 && !b.l.empty()) return box3(geometry::boundingBox3d(ConstLineString3d(b.l[size_t(posMod(idx, i64(b.l.size())))])));
      return "";
    }
    default: {
      std::stringstream o;
      o.exceptions(std::ios::badbit);
      switch (posMod(var, 5)) {
        case 0:
          if (!b.t.empty()) o << ConstLanelet(b.t[size_t(posMod(idx, i64(b.t.size())))]);
          break;
        case 1:
          if (!b.a.empty()) o << ConstArea(b.a[size_t(posMod(idx, i64(b.a.size())))]);
          break;
        case 2:
          if (!b.l.empty()) o << ConstLineString3d(b.l[size_t(posMod(idx, i64(b.l.size())))]);
          break;
        case 3:
          if (!b.r.empty()) o << *b.r[size_t(posMod(idx, i64(b.r.size())))];
          break;
        default:
          if (!b.p.empty()) o << ConstPoint3d(b.p[size_t(posMod(idx, i64(b.p.size())))]);
      }
      return o.str();
    }
  }
}

std::string wantPrim(const FixSpec& f, i64 kind, i64 idx, i64 var) {
  const Spec& s = f.s;
  Model m{s};
  auto pickI = [&](size_t n) { return size_t(posMod(idx, i64(n))); };
  switch (kind) {
    case 0: return wantAttr(int(posMod(idx, kNumAttr)), posMod(var, 6));
    case 1: {
      if (s.t.empty()) return "";
      int t = int(pickI(s.t.size()));
      return m.line(var & 2 ? m.right(t, var & 1) : m.left(t, var & 1), (var & 4) != 0);
    }
    case 2: {
      if (s.t.empty()) return "";
      auto& t = s.t[pickI(s.t.size())];
      bool custom = t.center.i >= 0;
      if (var & 4) return fmt("custom %d", int(custom));
      if (!custom) return "";
      return m.line(var & 1 ? Model::flip(t.center) : t.center, (var & 2) != 0);
    }
    case 3: {
      if (s.t.empty()) return "";
      auto v = m.outline(int(pickI(s.t.size())));
      switch (posMod(var / 2, 4)) {
        case 0: return m.pts(v, false);
        case 1: return m.pts(v, true);
        case 2: return m.pts(v, false, false);
        default: return m.pts(v, true, false) + fmt("%zu", v.size());
      }
    }
    case 4: return s.t.empty() ? "" : m.regs(s.t[pickI(s.t.size())].regs, kRegTypes[posMod(var, 6)]);
    case 5: {
      if (s.l.empty()) return "";
      int i = int(pickI(s.l.size()));
      auto v = m.pointsOf(Ref{i, false}), w = m.pointsOf(Ref{i, true});
      switch (posMod(var, 10)) {
        case 0: return m.line(Ref{i, false}, false);
        case 1: return m.line(Ref{i, true}, false);
        case 2: return m.line(Ref{i, false}, true);
        case 3: return m.segs(v, false);
        case 4: return m.pts(v, false, false);
        case 5: {
          std::string o = fmt("%zu %d ", v.size(), int(v.empty()));
          if (!v.empty()) o += m.pt(v.front(), false) + m.pt(v.back(), false) + m.pt(v[v.size() / 2], false) + m.pt(v.back(), false) + m.pt(v.front(), false);
          return o;
        }
        case 6: return m.pts(w, true, false);
        case 7: return fmt("1 0 %lld", L(s.l[size_t(i)].id));
        case 8: return m.pts(v, false, false);
        default: return m.segs(w, true);
      }
    }
    case 6: {
      if (s.g.empty()) return "";
      auto& v = s.g[pickI(s.g.size())].pts;
      switch (posMod(var, 5)) {
        case 0: return m.pts(v, false);
        case 1: return m.pts(v, true);
        case 2: return m.psegs(v, false);
        case 3: return m.pts(v, false, false);
        default: return m.pts(v, true, false);
      }
    }
    case 7: {
      if (s.a.empty()) return "";
      auto& a = s.a[pickI(s.a.size())];
      auto ring = [&](const std::vector<Ref>& r) {
        std::vector<std::vector<int>> v;
        for (auto& x : r) v.push_back(m.pointsOf(x));
        return m.join(v);
      };
      std::string o;
      switch (posMod(var, 6)) {
        case 0:
          for (auto& x : a.outer) o += m.line(x, false);
          return o;
        case 1:
          for (auto& in : a.inner)
            for (auto& x : in) o += m.line(x, false);
          return o;
        default: break;
        case 5: return m.regs(a.regs, "");
      }
      (void)ring;
      return "";
    }
    case 8: {
      if (s.r.empty()) return "";
      auto& r = s.r[pickI(s.r.size())];
      std::map<std::string, std::string> o;
      switch (posMod(var, 6)) {
        case 0:
          for (auto* role : kRoles) o[role] = m.params(r, role, "L");
          return mapText(o);
        case 1:
          for (auto* role : kRoles) o[role] = m.params(r, role, "T");
          return mapText(o);
        case 2:
          for (auto& e : r.params)
            for (auto& q : e.second) o[e.first] += fmt("%c%lld ", q.kind == kL && q.inv ? 'I' : "PLGTA"[q.kind], L(m.paramId(q)));
          return mapText(o);
        case 3: return m.params(r, "ref_line", "L") + "/" + m.params(r, "refers", "G") + "/" + m.params(r, "yield", "T");
        case 4: {
          for (auto& e : r.params)
            if (!e.second.empty()) o[e.first] = fmt("%zu", e.second.size());
          return mapText(o) + fmt("%d", int(o.empty()));
        }
        default: {
          std::set<Id> t, l;
          for (auto& e : r.params)
            for (auto& q : e.second) {
              if (q.kind == kT) t.insert(m.paramId(q));
              if (q.kind == kL) l.insert(m.paramId(q));
            }
          std::string w;
          for (auto& e : s.t) w += t.count(e.id) ? "1" : "0";
          for (auto& e : s.l) w += l.count(e.id) ? "1" : "0";
          return w;
        }
      }
    }
    case 9: {
      if (s.r.empty()) return "";
      auto& r = s.r[pickI(s.r.size())];
      if (r.rule == "traffic_light") return m.params(r, "refers", "LG") + "| " + m.first(r, "ref_line");
      if (r.rule == "right_of_way") {
        std::string w = m.params(r, "right_of_way", "T"), y = m.params(r, "yield", "T");
        std::string o = w + "| " + y + "| " + m.first(r, "ref_line") + "| ";
        for (auto& t : s.t) {
          std::string id = fmt("%lld ", L(t.id));
          auto in = [&](const std::string& v) { return (" " + v).find(" " + id) != std::string::npos; };
          o += fmt("%d", int(in(w) ? ManeuverType::RightOfWay : in(y) ? ManeuverType::Yield : ManeuverType::Unknown));
        }
        return o;
      }
      if (r.rule == "all_way_stop") {
        std::string o = m.params(r, "yield", "T") + "| " + m.params(r, "ref_line", "L") + "| " + m.params(r, "refers", "LG") + "| ";
        std::vector<Id> ll, sl;
        auto it = r.params.find("yield");
        if (it != r.params.end())
          for (auto& q : it->second) ll.push_back(m.paramId(q));
        it = r.params.find("ref_line");
        if (it != r.params.end())
          for (auto& q : it->second) sl.push_back(m.paramId(q));
        for (auto& t : s.t) {
          auto k = std::find(ll.begin(), ll.end(), t.id);
          o += k == ll.end() || sl.empty() ? std::string("- ") : fmt("%lld ", L(sl[size_t(k - ll.begin())]));
        }
        return o;
      }
      if (r.rule == "traffic_sign" || r.rule == "speed_limit") {
        std::string type = r.a.count("sign_type") ? r.a.at("sign_type") : "";
        auto it = r.params.find("refers");
        bool known = r.a.count("sign_type") > 0;
        if (it != r.params.end())
          for (auto& q : it->second) {
            if (q.kind != kL && q.kind != kG) continue;
            auto& a = q.kind == kL ? s.l[size_t(q.i)].a : s.g[size_t(q.i)].a;
            if (!a.count("subtype")) return "";
            type = a.at("subtype");
            known = true;
            break;
          }
        if (!known) return "";
        return type + "| " + m.params(r, "refers", "LG") + "| " + m.params(r, "ref_line", "L") + "| " + m.params(r, "cancels", "LG") + "| " + m.params(r, "cancel_line", "L");
      }
      return "generic";
    }
    case 10: {
      if (f.seq.empty()) return "";
      std::vector<std::vector<int>> l, r, li;
      std::string ids, idsInv, regs;
      for (int t : f.seq) {
        l.push_back(m.pointsOf(m.left(t, false)));
        r.push_back(m.pointsOf(m.right(t, false)));
        ids += fmt("%lld ", L(s.t[size_t(t)].id));
        idsInv = fmt("%lld ", L(s.t[size_t(t)].id)) + idsInv;
        regs += m.regs(s.t[size_t(t)].regs, "");
      }
      auto lj = m.join(l), rj = m.join(r);
      auto rev = rj;
      std::reverse(rev.begin(), rev.end());
      auto poly = m.join({lj, rev});
      switch (posMod(var, 10)) {
        case 0: return m.pts(lj, false);
        case 1: return m.pts(rj, true);
        case 3: return m.pts(poly, false);
        case 4: return ids;
        case 5: return m.pts(rev, false);
        case 6: return regs;
        case 7: return idsInv;
        case 9: return m.pts(poly, true, false);
        default: return "";
      }
    }
    case 11: {
      std::vector<std::vector<int>> all;
      std::string ls;
      for (auto& c : f.comp) {
        all.push_back(m.pointsOf(c));
        ls += fmt("%lld ", L(s.l[size_t(c.i)].id));
      }
      auto v = m.join(all);
      auto w = v;
      std::reverse(w.begin(), w.end());
      switch (posMod(var, 8)) {
        case 0: return m.pts(v, false);
        case 1: return m.pts(w, false);
        case 2: return m.pts(v, true);
        case 3: return fmt("%zu %d ", v.size(), int(v.empty())) + (v.empty() ? std::string() : m.pt(v.front(), false) + m.pt(v.back(), false) + m.pt(v[v.size() / 2], false));
        case 4: return v.empty() ? std::string() : m.segs(v, false);
        case 5: return ls + "/ " + ls;
        case 6: return m.pts(v, true, false);
        default: return "";
      }
    }
    case 12: {
      if (s.p.empty()) return "";
      int i = int(pickI(s.p.size()));
      switch (posMod(var, 5)) {
        case 0: return m.pt(i, false);
        case 1: return m.pt(i, true);
        case 2: return m.pt(i, false, false);
        default: return m.pt(i, true, false);
      }
    }
    case 13: {
      if (s.t.empty()) return "";
      auto& t = s.t[pickI(s.t.size())];
      switch (posMod(var, 4)) {
        case 0: return fmt("%lld 1 0", L(t.id));
        case 1: return "1 0";
        case 2: return "1";
        default: return fmt("%lld 1", L(s.l[size_t(t.left.i)].id));
      }
    }
    case 14: {
      size_t n = s.p.size() + s.l.size() + s.g.size() + s.t.size() + s.a.size();
      if (!n) return "";
      size_t i = pickI(n);
      if (i < s.p.size()) return attrWant(s.p[i].a);
      i -= s.p.size();
      if (i < s.l.size()) return attrWant(s.l[i].a);
      i -= s.l.size();
      if (i < s.g.size()) return attrWant(s.g[i].a);
      i -= s.g.size();
      if (i < s.t.size()) return attrWant(s.t[i].a);
      return attrWant(s.a[i - s.t.size()].a);
    }
    case 15: {
      auto box = [&](const std::vector<int>& v, bool two) {
        double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
        for (int i : v) {
          double q[3] = {m.p(i).x, m.p(i).y, m.p(i).z};
          for (int k = 0; k < 3; k++) {
            lo[k] = std::min(lo[k], q[k]);
            hi[k] = std::max(hi[k], q[k]);
          }
        }
        if (two) return fmt("(%s,%s) (%s,%s) ", num(lo[0]).c_str(), num(lo[1]).c_str(), num(hi[0]).c_str(), num(hi[1]).c_str());
        return fmt("(%s,%s,%s) (%s,%s,%s) ", num(lo[0]).c_str(), num(lo[1]).c_str(), num(lo[2]).c_str(), num(hi[0]).c_str(), num(hi[1]).c_str(), num(hi[2]).c_str());
      };
      if (posMod(var, 4) < 2 && !s.t.empty()) return box(m.outline(int(pickI(s.t.size()))), !(var & 1));
      if (posMod(var, 4) == 2 && !s.a.empty()) {
        std::vector<int> v;
        for (auto& x : s.a[pickI(s.a.size())].outer)
          for (int i : s.l[size_t(x.i)].pts) v.push_back(i);
        return box(v, true);
      }
      if (posMod(var, 4) == 3 && !s.l.empty()) {
        auto& v = s.l[pickI(s.l.size())].pts;
        return v.empty() ? "" : box(v, false);
      }
      return "";
    }
    default: return "";
  }
}
std::string checkCenterline(const Spec& s, int t, const ConstLineString3d& c) {
  Model m{s};
  auto l = m.pointsOf(m.left(t, false)), r = m.pointsOf(m.right(t, false));
  if (l.empty() || r.empty()) return c.empty() ? "" : "centerline of a lanelet with an empty bound has points";
  auto mid = [&](int a, int b) {
    return BasicPoint3d((m.p(a).x + m.p(b).x) / 2, (m.p(a).y + m.p(b).y) / 2, (m.p(a).z + m.p(b).z) / 2);
  };
  auto same = [](const BasicPoint3d& a, const BasicPoint3d& b) { return (a - b).norm() < 1e-9; };
  if (c.size() < 2) return fmt("%zu points", c.size());
  if (!same(c.front().basicPoint(), mid(l.front(), r.front()))) return "does not start between the first points of the bounds";
  if (!same(c.back().basicPoint(), mid(l.back(), r.back()))) return "does not end between the last points of the bounds";
  // every point lies between a pair of bound points, and the pairs advance monotonously along both bounds
  using Pair = std::pair<size_t, size_t>;
  std::vector<Pair> reached{{0, 0}};
  for (auto& q : c) {
    std::vector<Pair> next;
    for (size_t a = 0; a < l.size(); a++)
      for (size_t b = 0; b < r.size(); b++)
        if (same(q.basicPoint(), mid(l[a], r[b])) &&
            std::any_of(reached.begin(), reached.end(), [&](auto& p) { return p.first <= a && p.second <= b; }))
          next.push_back({a, b});
    if (next.empty()) return "has a point that is not between points of the bounds, or out of order";
    reached = std::move(next);
  }
  return "";
}
std::string describePrim(i64 kind, i64 idx, i64 var) {
  static const char* n[] = {"attribute as type", "bounds", "centerline", "lanelet polygon", "regulatory elements", "line string view", "polygon view", "area",
                            "rule parameters", "regulatory element", "lanelet sequence", "compound line string", "point view", "handles", "attributes", "bounding box", "print"};
  return fmt("%s (kind %lld idx %lld var %lld)", n[kind % kNumPrimKinds], (long long)kind, (long long)idx, (long long)var);
}
}  // namespace h
