// C13: clients derive, copy, move, hand over and drop handles to elements, maps, submaps, routing graphs, routes and views.
// A model of who keeps what alive says for every element whether it must still exist; weak observers tell whether it does.
// With turn=1 the clients take turns and the model is compared exactly after every step; with turn=0 they run freely.
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingGraph.h>

#include <algorithm>
#include <mutex>
#include <variant>

#include "map_util.h"
#include "route_util.h"

using namespace lanelet;
namespace h {
namespace {
namespace lr = lanelet::routing;
struct Elem {
  int k, i;
  bool operator<(const Elem& o) const { return k != o.k ? k < o.k : i < o.i; }
};
using Elems = std::set<Elem>;
const char* kElemName[] = {"point", "line string", "polygon", "lanelet", "area", "regulatory element"};
const int kSlots = 6, kExchange = 4;

// ops (slots are taken modulo): derive from to what sel | copy from to | move from to | drop slot | give slot ex | fetch ex slot |
// make what to sel | add map slot | graph map to rules | route graph to sel | seq to sel | weak from to | lock from to |
// read slot | cut slot sel (a lanelet gets another bound) | unreg slot sel | assign map submap
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)) == 0 ? 1 : 0);
  if (r.chance(1, 2)) p.cfg["areas"] = r.range(1, 2), p.cfg["regs"] = r.range(2, 6);
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_how"] = i64(r.below(3));
  p.cfg["turn"] = r.chance(1, 2);
  p.cfg["start"] = i64(r.below(12));
  int n = int(r.range(p.cfg["turn"] ? 1 : 2, 4));
  p.cfg["clients"] = n;
  schedFrom(p, r, 20000);
  auto slot = [&] { return i64(r.below(kSlots)); };
  for (int c = 0; c < n; c++) {
    // something to start from
    for (int k = int(r.range(1, 3)); k > 0; k--) p.op(c, "fetch", {i64(r.below(kExchange)), slot()});
    for (int k = int(r.range(4, 22)); k > 0; k--) {
      if (r.chance(1, 12)) {
        switch (r.below(5)) {
          case 2:
          case 3: {  // a submap is the last one to keep what the rules of its elements refer to
            i64 from = r.below(kSlots), a = (from + 1) % kSlots, q = (from + 2) % kSlots, b = (from + 3) % kSlots;
            p.op(c, "derive", {from, a, r.chance(2, 3) ? 4 : r.range(3, 5), i64(r.below(1000))}), p.op(c, "derive", {from, q, r.range(0, 2), i64(r.below(1000))});
            p.op(c, "make", {1, b, i64(1) << a | i64(1) << q});
            for (int j = 0; j < kExchange; j++)
              if (r.chance(3, 4)) p.op(c, "spill", {j});
            for (int j = 0; j < kSlots; j++)
              if (j != b) p.op(c, "drop", {j});
            p.op(c, "read", {b});
            break;
          }
          case 0: {  // a submap becomes another one
            i64 a = slot(), b = slot();
            p.op(c, "derive", {slot(), slot(), r.range(3, 6), i64(r.below(1000))});
            p.op(c, "make", {1, a, 63}), p.op(c, "derive", {slot(), slot(), r.range(3, 6), i64(r.below(1000))}), p.op(c, "make", {0, b, i64(r.below(63)) + 1}), p.op(c, "assign", {b, a});
            break;
          }
          case 1: {  // somebody else drops the last owner
            i64 a = slot(), b = slot();
            p.op(c, "derive", {slot(), a, r.chance(1, 2) ? 3 : 4, i64(r.below(1000))}), p.op(c, "weak", {a, b}), p.op(c, "give", {a, i64(r.below(kExchange))});
            for (int j = 0; j < kSlots; j++)
              if (j != b) p.op(c, "drop", {j});
            p.op(c, "lock", {b, a}), p.op(c, "read", {a});
            break;
          }
          default:
            for (int j = 0; j < kExchange; j++) p.op(c, "spill", {j});
        }
      }
      switch (r.below(27)) {
        case 0: p.op(c, "copy", {slot(), slot()}); break;
        case 1: p.op(c, "move", {slot(), slot()}); break;
        case 2:
        case 3:
        case 4: p.op(c, "drop", {slot()}); break;
        case 5:
        case 6: p.op(c, "give", {slot(), i64(r.below(kExchange))}); break;
        case 7: p.op(c, "fetch", {i64(r.below(kExchange)), slot()}); break;
        case 8: p.op(c, "make", {i64(r.below(3)), slot(), i64(r.below(1000))}); break;
        case 9: p.op(c, "add", {slot(), slot()}); break;
        case 10: p.op(c, "graph", {slot(), slot(), i64(r.below(8))}); break;
        case 11: p.op(c, "route", {slot(), slot(), i64(r.below(100000))}); break;
        case 12: p.op(c, "seq", {slot(), i64(r.below(1000))}); break;
        case 13: p.op(c, "weak", {slot(), slot()}); break;
        case 14: p.op(c, "lock", {slot(), slot()}); break;
        case 15: p.op(c, "read", {slot()}); break;
        case 16: p.op(c, "cut", {slot(), i64(r.below(1000))}); break;
        case 17: p.op(c, "unreg", {slot(), i64(r.below(1000))}); break;
        case 18: p.op(c, "assign", {slot(), slot()}); break;
        case 19: p.op(c, "spill", {i64(r.below(kExchange))}); break;
        default: p.op(c, "derive", {slot(), slot(), i64(r.below(12)), i64(r.below(1000))}); break;
      }
    }
  }
}
using MapH = std::shared_ptr<LaneletMap>;
using SubH = std::shared_ptr<LaneletSubmap>;
using CSubH = LaneletSubmapConstPtr;
using GraphH = std::shared_ptr<const lr::RoutingGraph>;
using RouteH = std::shared_ptr<lr::Route>;
using Any = std::variant<std::monostate, ConstPoint3d, ConstLineString3d, ConstPolygon3d, ConstLanelet, ConstArea, RegulatoryElementPtr, ConstWeakLanelet, ConstWeakArea,
                         MapH, SubH, CSubH, GraphH, RouteH, LaneletSequence, CompoundLineString3d, CompoundPolygon3d>;
struct Slot {
  Any v;
  Elems roots;         // what the handle itself owns (everything these own is alive, too)
  Elems maybe;         // what it may own in addition (routes keep some of their graph)
  Elem weakOf{-1, 0};  // for weak handles
  Elems content;       // maps and submaps: what is in them
  bool fuzzy = false;  // maps made while others drop things: some of 'maybe' may be in it
  bool mine = true;    // maps and submaps: nobody else has a handle
  std::string print;   // answers recorded when the handle was made
};
Elems partsOf(const Spec& s, Elem e, bool weak) {
  Elems v;
  size_t i = size_t(e.i);
  switch (e.k) {
    case mL:
    case mG:
      for (int x : (e.k == mL ? s.l : s.g)[i].pts) v.insert({mP, x});
      break;
    case mT:
      v.insert({mL, s.t[i].left.i});
      v.insert({mL, s.t[i].right.i});
      if (s.t[i].center.i >= 0) v.insert({mL, s.t[i].center.i});
      for (int x : s.t[i].regs) v.insert({mR, x});
      break;
    case mA:
      for (auto& x : s.a[i].outer) v.insert({mL, x.i});
      for (auto& in : s.a[i].inner)
        for (auto& x : in) v.insert({mL, x.i});
      for (int x : s.a[i].regs) v.insert({mR, x});
      break;
    case mR:
      for (auto& role : s.r[i].params)
        for (auto& q : role.second)
          if (weak || (q.kind != mT && q.kind != mA)) v.insert({q.kind, q.i});
      break;
    default: break;
  }
  return v;
}
Id specId(const Spec& s, Elem e) {
  size_t n = size_t(e.i);
  switch (e.k) {
    case mP: return s.p[n].id;
    case mL: return s.l[n].id;
    case mG: return s.g[n].id;
    case mT: return s.t[n].id;
    case mA: return s.a[n].id;
    default: return s.r[n].id;
  }
}
struct ParamLists : RuleParameterVisitor {  // strong and live weak parameters
  std::vector<std::string> v;
  int expired = 0;
  void operator()(const ConstPoint3d& p) override { v.push_back(fmt("P%lld", (long long)p.id())); }
  void operator()(const ConstLineString3d& l) override { v.push_back(fmt("L%lld%c", (long long)l.id(), l.inverted() ? '-' : '+')); }
  void operator()(const ConstPolygon3d& p) override { v.push_back(fmt("G%lld", (long long)p.id())); }
  template <typename W>
  void weak(const W& w, char k) {
    try {
      auto x = w.lock();
      v.push_back(fmt("%c%lld", k, (long long)x.id()));
    } catch (NullptrError&) {
      expired++;
    }
  }
  void operator()(const ConstWeakLanelet& w) override { weak(w, 'T'); }
  void operator()(const ConstWeakArea& w) override { weak(w, 'A'); }
};
struct Observer {  // of one element
  std::weak_ptr<const void> w;
};
struct World {
  Spec s;
  bool turns = false;
  std::mutex turn;
  std::vector<Observer> obs[6];
  std::map<std::pair<int, Id>, int> byId;
  std::vector<std::vector<Slot>> slots;  // per client
  Slot ex[kExchange];
  std::mutex exLock[kExchange];
  Dump want;
  int gone = 0, handles = 0;

  size_t total(int k) const { return obs[k].size(); }
  bool alive(Elem e) const { return !obs[e.k][size_t(e.i)].w.expired(); }
  Elem elem(int k, Id id) {
    auto it = byId.find({k, id});
    if (it == byId.end()) fail("foreign-element", fmt("a handle led to %s %lld which was never made", kElemName[k], (long long)id));
    return {k, it->second};
  }
  Elems strong(const Elems& from) const {
    Elems seen = from;
    std::vector<Elem> todo(from.begin(), from.end());
    while (!todo.empty()) {
      Elem e = todo.back();
      todo.pop_back();
      for (auto& x : partsOf(s, e, false))
        if (seen.insert(x).second) todo.push_back(x);
    }
    return seen;
  }
  // everything reachable from it, through weak references as far as they are alive (onlyAlive) or at all
  Elems full(const Elems& from, bool onlyAlive) const {
    Elems seen = from;
    std::vector<Elem> todo(from.begin(), from.end());
    while (!todo.empty()) {
      Elem e = todo.back();
      todo.pop_back();
      for (auto& x : partsOf(s, e, true)) {
        if (onlyAlive && !alive(x)) continue;
        if (seen.insert(x).second) todo.push_back(x);
      }
    }
    return seen;
  }
  // lanelets and areas the regulatory elements of these refer to
  Elems tracked(const Elems& from) const {
    Elems o;
    auto params = [&](int r) {
      for (auto& x : partsOf(s, {mR, r}, true))
        if (x.k == mT || x.k == mA) o.insert(x);
    };
    for (auto& e : from) {
      if (e.k == mR) params(e.i);
      if (e.k == mT)
        for (int r : s.t[size_t(e.i)].regs) params(r);
      if (e.k == mA)
        for (int r : s.a[size_t(e.i)].regs) params(r);
    }
    return o;
  }
  std::string list(const Elems& v) const {
    std::string o;
    for (auto& e : v)
      if (o.size() < 200) o += fmt("%s %lld, ", kElemName[e.k], (long long)specId(s, e));
    return o;
  }
};
std::string kindOf(const Slot& x) {
  static const char* n[] = {"nothing", "point", "line string", "polygon", "lanelet", "area", "regulatory element", "weak lanelet", "weak area", "map", "submap", "const submap",
                            "routing graph", "route", "lanelet sequence", "compound line string", "compound polygon"};
  return n[x.v.index()];
}
template <typename T>
bool is(const Slot& x) {
  return std::holds_alternative<T>(x.v);
}
// ------------------------------------------------------------------ reading what a handle leads to
template <typename L>
std::string pointsOf(const L& l) {
  std::string o;
  for (auto it = l.begin(); it != l.end(); ++it) o += fmt("%lld(%s,%s,%s) ", (long long)it->id(), num(it->x()).c_str(), num(it->y()).c_str(), num(it->z()).c_str());
  return o;
}
std::string pointsWant(const Spec& s, std::vector<int> v, bool inv) {
  if (inv) std::reverse(v.begin(), v.end());
  std::string o;
  for (int i : v) {
    auto& p = s.p[size_t(i)];
    o += fmt("%lld(%s,%s,%s) ", (long long)p.id, num(p.x).c_str(), num(p.y).c_str(), num(p.z).c_str());
  }
  return o;
}
std::string regRead(const World& w, const RegulatoryElement& r, Elem e) {
  auto& rs = w.s.r[size_t(e.i)];
  auto params = r.getParameters();
  std::string o;
  size_t roles = 0;
  for (auto& role : rs.params) {
    if (role.second.empty()) continue;
    auto it = params.find(role.first);
    if (it == params.end()) return fmt("regulatory element %lld lost role %s", (long long)rs.id, role.first.c_str());
    roles++;
    ParamLists l;
    for (auto& q : it->second) boost::apply_visitor(l, q);
    size_t k = 0;
    int dead = 0;
    for (auto& q : role.second) {
      Elem x{q.kind, q.i};
      bool weak = q.kind == mT || q.kind == mA;
      std::string t = fmt("%c%lld%s", "PLGTA"[q.kind], (long long)specId(w.s, x), q.kind == mL ? (q.inv ? "-" : "+") : "");
      if (k < l.v.size() && l.v[k] == t) {
        k++;
        if (w.turns && weak && !w.alive(x)) return "a parameter exists that is gone: " + t;
      } else if (!weak || (w.turns && w.alive(x))) {
        return fmt("regulatory element %lld lost parameter %s in role %s", (long long)rs.id, t.c_str(), role.first.c_str());
      } else {
        dead++;
      }
    }
    if (k != l.v.size() || dead != l.expired) return fmt("regulatory element %lld has other parameters in role %s", (long long)rs.id, role.first.c_str());
  }
  // the getters leave expired parameters out
  auto find = [&](const char* role, int kind, const std::vector<Id>& got) -> std::string {
    size_t k = 0;
    auto it = rs.params.find(role);
    if (it != rs.params.end())
      for (auto& q : it->second) {
        if (q.kind != kind) continue;
        Elem x{q.kind, q.i};
        if (k < got.size() && got[k] == specId(w.s, x)) k++;
        else if (w.turns && w.alive(x)) return fmt("regulatory element %lld: getter for role %s leaves out %lld", (long long)rs.id, role, (long long)specId(w.s, x));
      }
    return k == got.size() ? "" : fmt("regulatory element %lld: getter for role %s gives something else", (long long)rs.id, role);
  };
  auto idsOf = [](const ConstLanelets& v) {
    std::vector<Id> o;
    for (auto& x : v) o.push_back(x.id());
    return o;
  };
  if (auto rw = dynamic_cast<const RightOfWay*>(&r)) {
    o = find("right_of_way", mT, idsOf(rw->rightOfWayLanelets()));
    if (o.empty()) o = find("yield", mT, idsOf(rw->yieldLanelets()));
  }
  if (auto aw = dynamic_cast<const AllWayStop*>(&r)) {
    auto llts = aw->lanelets();
    o = find("yield", mT, idsOf(llts));
    auto li = rs.params.find("ref_line");
    if (o.empty() && li != rs.params.end() && !li->second.empty()) {
      auto& y = rs.params.at("yield");
      for (auto& l : llts) {
        auto got = aw->getStopLine(l);
        size_t k = 0;
        while (k < y.size() && w.s.t[size_t(y[k].i)].id != l.id()) k++;
        Id want = w.s.l[size_t(li->second[k].i)].id;
        if (!got || got->id() != want) return fmt("all way stop %lld gives stop line %lld for lanelet %lld, not %lld", (long long)rs.id, (long long)(!got ? 0 : got->id()), (long long)l.id(), (long long)want);
      }
    }
  }
  (void)roles;
  return o;
}
// an element seen through a handle
std::string elemRead(World& w, const Built& one, Elem e) {
  Dump d = dumpBuilt(one);
  if (d.size() != 1) return "no text";
  std::string key = fmt("%c %lld", "PLGTAR"[e.k], (long long)specId(w.s, e));
  if (d.begin()->first != key) return "is " + d.begin()->first + " instead of " + key;
  auto it = w.want.find(key);
  if (it == w.want.end() || it->second != d.begin()->second) return key + " reads\n  " + d.begin()->second + "\n  instead of\n  " + (it == w.want.end() ? "?" : it->second);
  return {};
}
LineString3d mut(const ConstLineString3d& l) { return LineString3d(std::const_pointer_cast<LineStringData>(l.constData()), l.inverted()); }
Lanelet mut(const ConstLanelet& l) { return Lanelet(std::const_pointer_cast<LaneletData>(l.constData()), l.inverted()); }
Area mut(const ConstArea& a) { return Area(std::const_pointer_cast<AreaData>(a.constData())); }
Point3d mut(const ConstPoint3d& p) { return Point3d(std::const_pointer_cast<PointData>(p.constData())); }
Polygon3d mut(const ConstPolygon3d& p) { return Polygon3d(std::const_pointer_cast<LineStringData>(p.constData()), p.inverted()); }
std::string readP(World& w, const ConstPoint3d& p) {
  Built one;
  one.p.push_back(mut(p));
  return elemRead(w, one, w.elem(mP, p.id()));
}
std::string readL(World& w, const ConstLineString3d& l) {
  Elem e = w.elem(mL, l.id());
  Built one;
  one.l.push_back(mut(l.inverted() ? l.invert() : l));
  std::string o = elemRead(w, one, e);
  if (o.empty() && pointsOf(l) != pointsWant(w.s, w.s.l[size_t(e.i)].pts, l.inverted())) o = fmt("line string %lld has other points: ", (long long)l.id()) + pointsOf(l);
  return o;
}
std::string readG(World& w, const ConstPolygon3d& g) {
  Elem e = w.elem(mG, g.id());
  Built one;
  one.g.push_back(mut(g));
  std::string o = elemRead(w, one, e);
  if (o.empty() && pointsOf(g) != pointsWant(w.s, w.s.g[size_t(e.i)].pts, false)) o = fmt("polygon %lld has other points", (long long)g.id());
  return o;
}
std::string readR(World& w, const RegulatoryElementConstPtr& r) { return regRead(w, *r, w.elem(mR, r->id())); }
std::string readT(World& w, const ConstLanelet& t, bool deep) {
  Elem e = w.elem(mT, t.id());
  Built one;
  one.t.push_back(mut(t.inverted() ? t.invert() : t));
  std::string o = elemRead(w, one, e);
  if (!deep || !o.empty()) return o;
  o = readL(w, t.leftBound());
  if (o.empty()) o = readL(w, t.rightBound());
  if (o.empty() && t.hasCustomCenterline()) o = readL(w, t.centerline());
  if (o.empty() && !t.hasCustomCenterline()) {
    auto c = t.centerline();
    if (t.leftBound().size() > 1 && t.rightBound().size() > 1 && c.size() < 2) o = "empty centerline";
    for (auto& p : c)
      if (!(p.x() == p.x())) o = "centerline reads nan";
  }
  for (auto& r : t.regulatoryElements())
    if (o.empty()) o = readR(w, r);
  return o;
}
std::string readA(World& w, const ConstArea& a, bool deep) {
  Built one;
  one.a.push_back(mut(a));
  std::string o = elemRead(w, one, w.elem(mA, a.id()));
  if (!deep) return o;
  for (auto& l : a.outerBound())
    if (o.empty()) o = readL(w, l);
  for (auto& in : a.innerBounds())
    for (auto& l : in)
      if (o.empty()) o = readL(w, l);
  for (auto& r : a.regulatoryElements())
    if (o.empty()) o = readR(w, r);
  return o;
}
std::string readLayers(World& w, const LaneletMapLayers& m, const Slot& x) {
  std::string o;
  Elems seen;
  auto see = [&](Elem e, std::string t) {
    if (o.empty()) o = std::move(t);
    if (o.empty() && !seen.insert(e).second) o = fmt("holds %s %lld twice", kElemName[e.k], (long long)specId(w.s, e));
    if (o.empty() && !x.content.count(e) && !(x.fuzzy && x.maybe.count(e))) o = fmt("holds %s %lld which was not added", kElemName[e.k], (long long)specId(w.s, e));
  };
  for (auto& p : m.pointLayer) see(w.elem(mP, p.id()), readP(w, p));
  for (const auto& l : m.lineStringLayer) see(w.elem(mL, l.id()), readL(w, l));
  for (const auto& g : m.polygonLayer) see(w.elem(mG, g.id()), readG(w, g));
  for (const auto& t : m.laneletLayer) see(w.elem(mT, t.id()), readT(w, t, false));
  for (const auto& a : m.areaLayer) see(w.elem(mA, a.id()), readA(w, a, false));
  for (const auto& r : m.regulatoryElementLayer) see(w.elem(mR, r->id()), readR(w, r));
  for (auto& e : x.content)
    if (o.empty() && !seen.count(e)) o = fmt("lost %s %lld", kElemName[e.k], (long long)specId(w.s, e));
  return o;
}
std::string idList(const ConstLanelets& v) {
  std::vector<std::string> t;
  for (auto& l : v) t.push_back(fmt("%lld%c", (long long)l.id(), l.inverted() ? '-' : '+'));
  std::sort(t.begin(), t.end());
  std::string o;
  for (auto& x : t) o += x + " ";
  return o;
}
std::string laList(const ConstLaneletOrAreas& v) {
  std::vector<std::string> t;
  for (auto& l : v) t.push_back(fmt("%lld", (long long)l.id()));
  std::sort(t.begin(), t.end());
  std::string o;
  for (auto& x : t) o += x + " ";
  return o;
}
std::string printGraph(const lr::RoutingGraph& g) {
  std::map<Id, std::string> t;
  for (const auto& l : g.passableSubmap()->laneletLayer)
    t[l.id()] = "f " + idList(g.following(l)) + "p " + idList(g.previous(l)) + "b " + idList(g.besides(l)) + "c " + laList(g.conflicting(ConstLanelet(l)));
  for (const auto& a : g.passableSubmap()->areaLayer) t[a.id()] = "c " + laList(g.conflicting(ConstArea(a)));
  std::string o;
  for (auto& x : t) o += fmt("%lld: ", (long long)x.first) + x.second + "\n";
  return o;
}
std::string printRoute(const lr::Route& r) {
  std::string o = "path ";
  for (auto& l : r.shortestPath()) o += fmt("%lld ", (long long)l.id());
  o += fmt("lanes %zu size %zu\n", r.numLanes(), r.size());
  std::map<Id, std::string> t;
  for (const auto& l : r.laneletSubmap()->laneletLayer)
    t[l.id()] = "f " + idList(r.following(l)) + "c " + laList(r.conflictingInMap(l)) + "r " + idList(r.conflictingInRoute(l)) + "v " + std::to_string(r.fullLane(l).size());
  for (auto& x : t) o += fmt("%lld: ", (long long)x.first) + x.second + "\n";
  return o + laList(r.allConflictingInMap());
}
std::string printSeq(const LaneletSequence& s) {
  std::string o;
  for (auto& l : s) o += fmt("%lld%c ", (long long)l.id(), l.inverted() ? '-' : '+');
  return o + "| " + pointsOf(s.leftBound()) + "| " + pointsOf(s.rightBound());
}
struct Trouble {  // what a reader found; text is harness memory
  std::string t;
};
void readSlot(World& w, Slot& x) {
  std::string e;
  Res res = attempt([&] {
    std::string o;
    if (auto* p = std::get_if<ConstPoint3d>(&x.v)) o = readP(w, *p);
    else if (auto* p = std::get_if<ConstLineString3d>(&x.v)) o = readL(w, *p);
    else if (auto* p = std::get_if<ConstPolygon3d>(&x.v)) o = readG(w, *p);
    else if (auto* p = std::get_if<ConstLanelet>(&x.v)) o = readT(w, *p, true);
    else if (auto* p = std::get_if<ConstArea>(&x.v)) o = readA(w, *p, true);
    else if (auto* p = std::get_if<RegulatoryElementPtr>(&x.v)) o = readR(w, *p);
    else if (auto* p = std::get_if<MapH>(&x.v)) o = readLayers(w, **p, x);
    else if (auto* p = std::get_if<SubH>(&x.v)) o = readLayers(w, **p, x);
    else if (auto* p = std::get_if<CSubH>(&x.v)) o = readLayers(w, **p, x);
    else if (auto* p = std::get_if<GraphH>(&x.v)) o = printGraph(**p) == x.print ? "" : "answers differently";
    else if (auto* p = std::get_if<RouteH>(&x.v)) o = printRoute(**p) == x.print ? "" : "answers differently";
    else if (auto* p = std::get_if<LaneletSequence>(&x.v)) o = printSeq(*p) == x.print ? "" : "reads differently";
    else if (auto* p = std::get_if<CompoundLineString3d>(&x.v)) o = pointsOf(*p) == x.print ? "" : "reads differently";
    else if (auto* p = std::get_if<CompoundPolygon3d>(&x.v)) o = pointsOf(*p) == x.print ? "" : "reads differently";
    sim::Harness hm;
    e = o;
  });
  if (!res.ok()) fail("read-threw", "reading through a " + kindOf(x) + ": " + res.text());
  count(("probe.read." + kindOf(x)).c_str());
  if (!e.empty()) fail("content-changed", "a " + kindOf(x) + " " + e);
}
// ------------------------------------------------------------------ checks
void checkExact(World& w, const std::string& after) {  // nobody else is running
  Elems keep, may;
  auto take = [&](Slot& x) {
    Elems a = w.strong(x.roots);
    keep.insert(a.begin(), a.end());
    if (x.maybe.empty()) return;
    Elems b = w.strong(x.maybe);
    may.insert(b.begin(), b.end());
  };
  for (auto& c : w.slots)
    for (auto& x : c) take(x);
  for (auto& x : w.ex) take(x);
  int gone = 0;
  for (int k = 0; k < 6; k++)
    for (size_t i = 0; i < w.total(k); i++) {
      Elem e{k, int(i)};
      bool a = w.alive(e);
      gone += !a;
      if (!a && keep.count(e)) fail("freed-in-use", fmt("%s %lld is gone although it is reachable from a live handle (%s)", kElemName[k], (long long)specId(w.s, e), after.c_str()));
      if (a && !keep.count(e) && !may.count(e)) fail("kept", fmt("%s %lld still exists although nothing refers to it any more (%s)", kElemName[k], (long long)specId(w.s, e), after.c_str()));
    }
  w.gone = gone;
}
void checkMine(World& w, Slot& x) {
  for (auto& e : w.strong(x.roots))
    if (!w.alive(e)) fail("freed-in-use", fmt("%s %lld is gone although a %s holds it", kElemName[e.k], (long long)specId(w.s, e), kindOf(x).c_str()));
}
void checkWeak(World& w, Slot& x) {
  if (x.weakOf.k < 0) return;
  bool before = w.alive(x.weakOf);
  bool expired = lib([&] { return is<ConstWeakLanelet>(x) ? std::get<ConstWeakLanelet>(x.v).expired() : std::get<ConstWeakArea>(x.v).expired(); });
  bool after = w.alive(x.weakOf);
  if (before == after && expired != !after) fail("weak-wrong", fmt("a weak reference to %s %lld says expired=%d", kElemName[x.weakOf.k], (long long)specId(w.s, x.weakOf), int(expired)));
}
void drop(Slot& x) {
  lib([&] {
    x.v = std::monostate{};
    return 0;
  });
  x = Slot{};
}
// ------------------------------------------------------------------ making handles; the model part is filled from what was obtained
void model(World& w, Slot& x) {
  x.roots.clear();
  x.maybe.clear();
  x.weakOf = {-1, 0};
  Elems conflicts;
  lib([&] {
    auto put = [&](int k, Id id) {
      sim::Harness hm;
      x.roots.insert(w.elem(k, id));
    };
    auto lines = [&](const ConstLineStrings3d& v) {
      for (auto& l : v) put(mL, l.id());
    };
    auto layers = [&](const LaneletMapLayers& m) {
      for (const auto& t : m.laneletLayer) put(mT, t.id());
      for (const auto& a : m.areaLayer) put(mA, a.id());
      for (const auto& r : m.regulatoryElementLayer) put(mR, r->id());
      for (const auto& g : m.polygonLayer) put(mG, g.id());
      for (const auto& l : m.lineStringLayer) put(mL, l.id());
      for (const auto& p : m.pointLayer) put(mP, p.id());
    };
    if (auto* p = std::get_if<ConstPoint3d>(&x.v)) put(mP, p->id());
    else if (auto* p = std::get_if<ConstLineString3d>(&x.v)) put(mL, p->id());
    else if (auto* p = std::get_if<ConstPolygon3d>(&x.v)) put(mG, p->id());
    else if (auto* p = std::get_if<ConstLanelet>(&x.v)) put(mT, p->id());
    else if (auto* p = std::get_if<ConstArea>(&x.v)) put(mA, p->id());
    else if (auto* p = std::get_if<RegulatoryElementPtr>(&x.v)) put(mR, (*p)->id());
    else if (auto* p = std::get_if<MapH>(&x.v)) layers(**p);
    else if (auto* p = std::get_if<SubH>(&x.v)) layers(**p);
    else if (auto* p = std::get_if<CSubH>(&x.v)) layers(**p);
    else if (auto* p = std::get_if<GraphH>(&x.v)) {
      layers(*(*p)->passableSubmap());
      auto t = printGraph(**p);
      sim::Harness hm;
      x.print = t;
    } else if (auto* p = std::get_if<RouteH>(&x.v)) {
      layers(*(*p)->laneletSubmap());
      for (auto& l : (*p)->shortestPath()) put(mT, l.id());
      auto t = printRoute(**p);
      auto v = (*p)->allConflictingInMap();
      for (auto& l : v) put(l.isArea() ? mA : mT, l.id());
      sim::Harness hm;
      x.print = t;
    } else if (auto* p = std::get_if<LaneletSequence>(&x.v)) {
      for (auto& l : *p) put(mT, l.id());
      lines(p->leftBound().lineStrings());
      lines(p->rightBound().lineStrings());
      auto t = printSeq(*p);
      sim::Harness hm;
      x.print = t;
    } else if (auto* p = std::get_if<CompoundLineString3d>(&x.v)) {
      lines(p->lineStrings());
      auto t = pointsOf(*p);
      sim::Harness hm;
      x.print = t;
    } else if (auto* p = std::get_if<CompoundPolygon3d>(&x.v)) {
      lines(p->lineStrings());
      auto t = pointsOf(*p);
      sim::Harness hm;
      x.print = t;
    }
    return 0;
  });
}
i64 posMod(i64 a, i64 n) { return n <= 0 ? 0 : ((a % n) + n) % n; }
template <typename Layer>
auto pickLayer(const Layer& l, i64 sel) -> Optional<typename std::decay<decltype(*l.begin())>::type> {
  if (l.size() == 0) return {};
  std::vector<Id> ids;
  for (const auto& e : l) ids.push_back(utils::getId(e));
  std::sort(ids.begin(), ids.end());
  return *l.find(ids[size_t(posMod(sel, i64(ids.size())))]);
}
}  // namespace
}  // namespace h
namespace h {
namespace {
template <typename V>
bool pickOf2(const V& v, i64 sel, Any& out) {
  if (v.begin() == v.end()) return false;
  auto it = v.begin();
  for (i64 k = posMod(sel, i64(v.size())); k > 0; k--) ++it;
  out = *it;
  return true;
}
bool fromLayers(World& w, const LaneletMapLayers& m, i64 what, i64 sel, Any& out) {
  auto get = [&](auto& layer, auto conv) {
    std::vector<Id> ids;
    for (const auto& e : layer) ids.push_back(conv(e).id);
    if (ids.empty()) return false;
    std::sort(ids.begin(), ids.end());
    const auto& cl = layer;
    out = conv(*cl.find(ids[size_t(posMod(sel, i64(ids.size())))])).v;
    return true;
  };
  struct Item {
    Id id;
    Any v;
  };
  switch (posMod(what, 8)) {
    case 0: return get(m.pointLayer, [](const ConstPoint3d& x) { return Item{x.id(), x}; });
    case 1: return get(m.lineStringLayer, [](const ConstLineString3d& x) { return Item{x.id(), x}; });
    case 2: return get(m.polygonLayer, [](const ConstPolygon3d& x) { return Item{x.id(), x}; });
    case 3:
    case 6: return get(m.laneletLayer, [](const ConstLanelet& x) { return Item{x.id(), x}; });
    case 4: return get(m.areaLayer, [](const ConstArea& x) { return Item{x.id(), x}; });
    case 5: return get(m.regulatoryElementLayer, [](const RegulatoryElementConstPtr& x) { return Item{x->id(), std::const_pointer_cast<RegulatoryElement>(x)}; });
    default: {
      auto v = m.laneletLayer.nearest(BasicPoint2d(double(sel % 50), double(sel % 7)), 2);
      return pickOf2(v, sel, out);
    }
  }
}
// another handle reached from one; false if there is none. lib mode
bool derive(World& w, const Slot& x, i64 what, i64 sel, Any& out) {
  bool odd = what & 1;
  if (auto* p = std::get_if<ConstPoint3d>(&x.v)) {
    out = odd ? ConstPoint3d(utils::to3D(utils::to2D(*p))) : ConstPoint3d(mut(*p));
    return true;
  }
  if (auto* p = std::get_if<ConstLineString3d>(&x.v)) {
    switch (posMod(what, 5)) {
      case 0: out = p->invert(); return true;
      case 1: out = ConstLineString3d(utils::to3D(utils::to2D(*p))); return true;
      case 2: {
        CompoundLineString3d c(ConstLineStrings3d{*p, p->invert()});
        out = c;
        return true;
      }
      default:
        if (p->empty()) return false;
        out = odd ? ConstPoint3d((*p)[size_t(posMod(sel, i64(p->size())))]) : ConstPoint3d(p->front());
        return true;
    }
  }
  if (auto* p = std::get_if<ConstPolygon3d>(&x.v)) {
    if (p->empty()) return false;
    out = ConstPoint3d((*p)[size_t(posMod(sel, i64(p->size())))]);
    return true;
  }
  if (auto* p = std::get_if<ConstLanelet>(&x.v)) {
    switch (posMod(what, 9)) {
      case 0: out = p->leftBound(); return true;
      case 1: out = p->rightBound(); return true;
      case 2:
        if (!p->hasCustomCenterline()) return false;
        out = p->centerline();
        return true;
      case 3: out = p->invert(); return true;
      case 4: out = p->polygon3d(); return true;
      case 5: out = ConstLineString3d(mut(*p).rightBound()); return true;
      case 6: out = LaneletSequence(ConstLanelets{*p, p->invert()}); return true;
      default: {
        auto v = mut(*p).regulatoryElements();
        return pickOf2(v, sel, out);
      }
    }
  }
  if (auto* p = std::get_if<ConstArea>(&x.v)) {
    switch (posMod(what, 5)) {
      case 0: return pickOf2(p->outerBound(), sel, out);
      case 1: {
        auto in = p->innerBounds();
        if (in.empty()) return false;
        return pickOf2(in[size_t(posMod(sel, i64(in.size())))], sel / 7, out);
      }
      case 2: out = p->outerBoundPolygon(); return true;
      case 3: {
        auto v = p->innerBoundPolygons();
        return pickOf2(v, sel, out);
      }
      default: {
        auto v = mut(*p).regulatoryElements();
        return pickOf2(v, sel, out);
      }
    }
  }
  if (auto* p = std::get_if<RegulatoryElementPtr>(&x.v)) {
    auto& r = **p;
    static const char* const roles[] = {"refers", "ref_line", "yield", "right_of_way", "cancels", "cancel_line"};
    auto fromRole = [&](auto get) {
      for (int k = 0; k < 6; k++) {
        auto v = get(std::string(roles[size_t(posMod(sel + k, 6))]));
        if (!v.empty()) return pickOf2(v, sel / 6, out);
      }
      return false;
    };
    const auto& cr = static_cast<const RegulatoryElement&>(r);
    switch (posMod(what, 8)) {
      case 0: return fromRole([&](const std::string& n) { return cr.getParameters<ConstPoint3d>(n); });
      case 1: return fromRole([&](const std::string& n) { return cr.getParameters<ConstLineString3d>(n); });
      case 2: return fromRole([&](const std::string& n) { return cr.getParameters<ConstPolygon3d>(n); });
      case 3: return fromRole([&](const std::string& n) { return cr.getParameters<ConstLanelet>(n); });
      case 4: return fromRole([&](const std::string& n) { return cr.getParameters<ConstArea>(n); });
      case 5:
        if (auto* rw = dynamic_cast<RightOfWay*>(&r)) {
          auto v = sel & 1 ? rw->rightOfWayLanelets() : rw->yieldLanelets();
          if (v.empty()) return false;
          out = ConstLanelet(v[size_t(posMod(sel, i64(v.size())))]);
          return true;
        }
        if (auto* aw = dynamic_cast<AllWayStop*>(&r)) {
          auto v = aw->lanelets();
          if (v.empty()) return false;
          out = ConstLanelet(v[size_t(posMod(sel, i64(v.size())))]);
          return true;
        }
        return false;
      case 6: {
        Elem e = w.elem(mR, r.id());
        for (auto& q : w.s.r[size_t(e.i)].params)
          for (auto& z : q.second)
            if (z.kind == mT || z.kind == mL) {
              Id id = specId(w.s, Elem{z.kind, z.i});
              if (z.kind == mT) {
                auto f = r.find<ConstLanelet>(id);
                if (!f) return false;
                out = *f;
              } else {
                auto f = r.find<ConstLineString3d>(id);
                if (!f) return false;
                out = *f;
              }
              return true;
            }
        return false;
      }
      default: {
        auto b = geometry::boundingBox2d(cr);
        (void)b;
        return false;
      }
    }
  }
  if (auto* p = std::get_if<MapH>(&x.v)) return fromLayers(w, **p, what, sel, out);
  if (auto* p = std::get_if<SubH>(&x.v)) {
    if (posMod(what, 10) == 9) {
      out = MapH((*p)->laneletMap());
      return true;
    }
    return fromLayers(w, **p, what, sel, out);
  }
  if (auto* p = std::get_if<CSubH>(&x.v)) {
    if (posMod(what, 10) == 9) {
      out = std::const_pointer_cast<LaneletMap>((*p)->laneletMap());
      return true;
    }
    return fromLayers(w, **p, what, sel, out);
  }
  if (auto* p = std::get_if<GraphH>(&x.v)) {
    auto& g = **p;
    if (posMod(what, 6) == 0) {
      out = g.passableSubmap();
      return true;
    }
    Any from;
    if (!fromLayers(w, *g.passableSubmap(), 3, sel, from)) return false;
    auto l = std::get<ConstLanelet>(from);
    switch (posMod(what, 6)) {
      case 1: return pickOf2(g.following(l), sel, out);
      case 2: return pickOf2(g.previous(l), sel, out);
      case 3: return pickOf2(g.reachableSet(l, 1e9), sel, out);
      case 4: {
        auto v = g.conflicting(l);
        if (v.empty()) return false;
        auto& c = v[size_t(posMod(sel, i64(v.size())))];
        if (c.isArea()) out = *c.area();
        else out = *c.lanelet();
        return true;
      }
      default: return pickOf2(g.besides(l), sel, out);
    }
  }
  if (auto* p = std::get_if<RouteH>(&x.v)) {
    auto& r = **p;
    switch (posMod(what, 6)) {
      case 0: out = r.laneletSubmap(); return true;
      case 1: return pickOf2(r.shortestPath(), sel, out);
      case 2: out = r.fullLane(r.shortestPath().front()); return true;
      case 3: out = r.remainingLane(r.shortestPath().back()); return true;
      case 4: return pickOf2(r.following(r.shortestPath().front()), sel, out);
      default: {
        auto v = r.conflictingInMap(r.shortestPath().back());
        if (v.empty()) return false;
        auto& c = v[size_t(posMod(sel, i64(v.size())))];
        if (c.isArea()) out = *c.area();
        else out = *c.lanelet();
        return true;
      }
    }
  }
  if (auto* p = std::get_if<LaneletSequence>(&x.v)) {
    switch (posMod(what, 5)) {
      case 0: out = p->invert(); return true;
      case 1: out = odd ? p->leftBound() : p->rightBound(); return true;
      case 2: out = p->polygon3d(); return true;
      case 3: out = p->rightBound(); return true;
      default: return pickOf2(p->lanelets(), sel, out);
    }
  }
  if (auto* p = std::get_if<CompoundLineString3d>(&x.v)) {
    switch (posMod(what, 3)) {
      case 0: out = p->invert(); return true;
      case 1: return pickOf2(p->lineStrings(), sel, out);
      default:
        if (p->size() == 0) return false;
        out = ConstPoint3d((*p)[size_t(posMod(sel, i64(p->size())))]);
        return true;
    }
  }
  if (auto* p = std::get_if<CompoundPolygon3d>(&x.v)) return pickOf2(p->lineStrings(), sel, out);
  return false;
}
void run(Ctx& c) {
  LeakScope leaks;
  {
    World w;
    w.s = genNet(c.plan);
    w.turns = c.plan.c("turn") != 0;
    w.want = dumpSpec(w.s);
    const int n = std::max(1, int(c.plan.c("clients", 1)));
    w.slots.resize(size_t(n));
    for (auto& v : w.slots) v.resize(kSlots);
    {
      Built b = buildObjects(w.s, u64(c.plan.c("_order")));
      buildMap(w.s, b, int(c.plan.c("_how")) % 3, u64(c.plan.c("_order")));
      lib([&] {
        auto watch = [&](int k, auto& v, auto get) {
          for (auto& e : v) {
            sim::Harness hm;
            w.obs[k].emplace_back();
            sim::Lib lm;
            w.obs[k].back().w = get(e);
          }
        };
        watch(mP, b.p, [](auto& e) { return e.constData(); });
        watch(mL, b.l, [](auto& e) { return e.constData(); });
        watch(mG, b.g, [](auto& e) { return e.constData(); });
        watch(mT, b.t, [](auto& e) { return e.constData(); });
        watch(mA, b.a, [](auto& e) { return e.constData(); });
        watch(mR, b.r, [](auto& e) { return e; });
        return 0;
      });
      for (int k = 0; k < 6; k++)
        for (size_t i = 0; i < w.total(k); i++) w.byId[{k, specId(w.s, {k, int(i)})}] = int(i);
      // what the clients start from: the map, submaps and single elements
      int start = int(c.plan.c("start"));
      Rng r(u64(c.plan.c("_order")) * 7 + u64(start));
      for (int k = 0; k < kExchange; k++) {
        Slot& x = w.ex[k];
        lib([&] {
          switch (start < 4 ? (k + start) % 4 : start < 8 ? 1 + (k + start) % 3 : 2 + (k + start) % 2) {
            case 0: x.v = MapH(b.map); break;
            case 1: {
              Lanelets ts;
              Areas as;
              for (auto& t : b.t)
                if (r.chance(1, 3)) ts.push_back(t);
              for (auto& a : b.a)
                if (r.chance(1, 3)) as.push_back(a);
              x.v = SubH(utils::createSubmap(ts, as));
              break;
            }
            case 2:
              if (!b.t.empty()) x.v = ConstLanelet(b.t[r.below(b.t.size())]);
              break;
            default:
              if (!b.r.empty()) x.v = b.r[r.below(b.r.size())];
              else if (!b.a.empty()) x.v = ConstArea(b.a[r.below(b.a.size())]);
          }
          return 0;
        });
        model(w, x);
        x.content = x.roots;
        if (is<SubH>(x)) {
          Elems t = w.tracked(x.content);
          x.roots.insert(t.begin(), t.end());
        }
        if (is<MapH>(x) || is<SubH>(x))
          for (auto& e : x.content)
            for (auto& y : partsOf(w.s, e, false)) x.maybe.insert(y);
        w.handles += !is<std::monostate>(x);
      }
      lib([&] {
        b = Built{};
        return 0;
      });
    }
    checkExact(w, "after building");
    // fills a slot whose value was just obtained by this client
    auto store = [&](int me, size_t to, Slot& made) {
      Slot& d = w.slots[size_t(me)][to];
      drop(d);
      lib([&] {
        d.v = std::move(made.v);
        made.v = std::monostate{};
        return 0;
      });
      d.roots = made.roots, d.maybe = made.maybe, d.weakOf = made.weakOf, d.content = made.content, d.fuzzy = made.fuzzy, d.mine = made.mine, d.print = made.print;
      made = Slot{};
      w.handles++;
    };
    // the lookups of maps keep what their elements consisted of when they were added
    auto lookups = [&](Slot& x) {
      for (auto& e : x.roots)
        for (auto& y : partsOf(w.s, e, false)) x.maybe.insert(y);
    };
    auto mapModel = [&](Slot& x, const Elems& added) {  // a map into which these were added
      Elems lo = w.turns ? w.full(added, true) : w.strong(added), up = w.turns ? lo : w.full(added, false);
      x.content.insert(lo.begin(), lo.end());
      x.roots.insert(lo.begin(), lo.end());
      x.fuzzy = !w.turns;
      if (x.fuzzy) x.maybe.insert(up.begin(), up.end());
      lookups(x);
    };
    auto subModel = [&](Slot& x, const Elems& added) {
      x.content.insert(added.begin(), added.end());
      x.roots.insert(added.begin(), added.end());
      for (auto& e : w.tracked(added)) {
        if (w.turns && w.alive(e)) x.roots.insert(e);
        else if (!w.turns) x.maybe.insert(e);
      }
      lookups(x);
    };
    auto addTo = [&](auto& m, const Any& v) {
      if (auto* p = std::get_if<ConstPoint3d>(&v)) m.add(mut(*p));
      else if (auto* p = std::get_if<ConstLineString3d>(&v)) m.add(mut(*p));
      else if (auto* p = std::get_if<ConstPolygon3d>(&v)) m.add(mut(*p));
      else if (auto* p = std::get_if<ConstLanelet>(&v)) m.add(mut(*p));
      else if (auto* p = std::get_if<ConstArea>(&v)) m.add(mut(*p));
      else if (auto* p = std::get_if<RegulatoryElementPtr>(&v)) m.add(*p);
    };
    auto isElem = [](const Slot& x) { return x.v.index() >= 1 && x.v.index() <= 6; };
    auto step = [&](int me, const Op& op) {
      auto& mine = w.slots[size_t(me)];
      auto at = [&](size_t k) { return size_t(posMod(op.arg(k), kSlots)); };
      // operations look for a slot they can work on, beginning with the given one
      auto first = [&](size_t k, auto fits) -> Slot& {
        for (size_t j = 0; j < kSlots; j++)
          if (fits(mine[(at(k) + j) % kSlots])) return mine[(at(k) + j) % kSlots];
        return mine[at(k)];
      };
      auto fits = [&](const Slot& x) {
        if (op.name == "drop" || op.name == "move" || op.name == "copy") return true;
        if (op.name == "add" || op.name == "assign") return x.mine && (is<MapH>(x) || (op.name == "add" && is<SubH>(x)));
        if (op.name == "graph") return is<MapH>(x) || is<SubH>(x);
        if (op.name == "route") return is<GraphH>(x);
        if (op.name == "weak" || op.name == "unreg") return is<ConstLanelet>(x) || is<ConstArea>(x);
        if (op.name == "cut") return is<ConstLanelet>(x);
        if (op.name == "lock") return x.weakOf.k >= 0;
        return !is<std::monostate>(x);
      };
      Slot& a = first(0, fits);
      if (op.name == "copy") {
        if (&a == &mine[at(1)] || is<std::monostate>(a)) return;
        a.mine = false;
        Slot x = Slot{};
        x.roots = a.roots, x.maybe = a.maybe, x.weakOf = a.weakOf, x.content = a.content, x.fuzzy = a.fuzzy, x.mine = false, x.print = a.print;
        lib([&] {
          x.v = a.v;
          return 0;
        });
        store(me, at(1), x);
      } else if (op.name == "move") {
        if (&a == &mine[at(1)] || is<std::monostate>(a)) return;
        store(me, at(1), a);
        drop(a);
      } else if (op.name == "drop") {
        drop(a);
      } else if (op.name == "give") {
        size_t e = size_t(posMod(op.arg(1), kExchange));
        if (is<std::monostate>(a)) return;
        lib([&] { w.exLock[e].lock(); return 0; });
        Slot old;
        lib([&] {
          old.v = std::move(w.ex[e].v);
          w.ex[e].v = std::move(a.v);
          a.v = std::monostate{};
          return 0;
        });
        auto swapModel = [](Slot& x, Slot& y) {
          std::swap(x.roots, y.roots), std::swap(x.maybe, y.maybe), std::swap(x.weakOf, y.weakOf), std::swap(x.content, y.content), std::swap(x.fuzzy, y.fuzzy), std::swap(x.mine, y.mine),
              std::swap(x.print, y.print);
        };
        swapModel(old, w.ex[e]);
        swapModel(w.ex[e], a);
        a = Slot{};
        lib([&] { w.exLock[e].unlock(); return 0; });
        drop(old);
        count("probe.handover");
      } else if (op.name == "fetch") {
        size_t e = size_t(posMod(op.arg(0), kExchange)), to = at(1);
        Slot x;
        lib([&] { w.exLock[e].lock(); return 0; });
        Slot& q = w.ex[e];
        q.mine = false;
        x.roots = q.roots, x.maybe = q.maybe, x.weakOf = q.weakOf, x.content = q.content, x.fuzzy = q.fuzzy, x.mine = false, x.print = q.print;
        bool empty = is<std::monostate>(q);
        lib([&] {
          x.v = q.v;
          return 0;
        });
        lib([&] { w.exLock[e].unlock(); return 0; });
        if (empty) return;
        store(me, to, x);
      } else if (op.name == "spill") {
        size_t e = size_t(posMod(op.arg(0), kExchange));
        lib([&] { w.exLock[e].lock(); return 0; });
        drop(w.ex[e]);
        lib([&] { w.exLock[e].unlock(); return 0; });
      } else if (op.name == "derive") {
        Slot x;
        bool got = false;
        Res res = attempt([&] { got = derive(w, a, op.arg(2), op.arg(3), x.v); });
        if (!res.ok()) fail("read-threw", "deriving from a " + kindOf(a) + ": " + res.text());
        if (!got) return;
        count(("probe.derive." + kindOf(a)).c_str());
        if (is<MapH>(x)) {
          Elems src = a.content;
          if (a.fuzzy) x.maybe = a.maybe;
          mapModel(x, src);
          if (a.fuzzy) {
            Elems up = w.full(a.maybe, false);
            x.maybe.insert(up.begin(), up.end());
            x.fuzzy = true;
          }
        } else {
          model(w, x);
          if (is<CSubH>(x)) {
            x.content = x.roots;
            x.mine = false;
            if (is<GraphH>(a) || is<RouteH>(a)) {
              x.roots = x.content;
              x.maybe = a.maybe;
              x.maybe.insert(a.roots.begin(), a.roots.end());
            }
          }
        }
        store(me, at(1), x);
      } else if (op.name == "make") {
        std::vector<size_t> from;
        for (size_t k = 0; k < kSlots; k++)
          if (isElem(mine[k]) && (op.arg(2) >> k & 1)) from.push_back(k);
        if (from.empty()) return;
        Slot x;
        i64 what = posMod(op.arg(0), 3);
        Elems added;
        for (size_t k : from) added.insert(mine[k].roots.begin(), mine[k].roots.end());
        Res res = attempt([&] {
          Lanelets ts;
          Areas as;
          bool only = true;
          for (size_t k : from) {
            if (auto* p = std::get_if<ConstLanelet>(&mine[k].v)) ts.push_back(mut(*p));
            else if (auto* p = std::get_if<ConstArea>(&mine[k].v)) as.push_back(mut(*p));
            else only = false;
          }
          if (what == 0) {
            MapH m = only ? MapH(utils::createMap(ts, as)) : std::make_shared<LaneletMap>();
            if (!only)
              for (size_t k : from) addTo(*m, mine[k].v);
            x.v = m;
          } else if (what == 1) {
            SubH m = only ? SubH(utils::createSubmap(ts, as)) : std::make_shared<LaneletSubmap>();
            if (!only)
              for (size_t k : from) addTo(*m, mine[k].v);
            x.v = m;
          } else {
            CSubH m = utils::createConstSubmap(ConstLanelets(ts.begin(), ts.end()), ConstAreas(as.begin(), as.end()));
            x.v = m;
          }
        });
        if (!res.ok()) fail("make-threw", "making a map: " + res.text());
        if (what == 2)
          for (auto it = added.begin(); it != added.end();)
            if (it->k == mT || it->k == mA) ++it;
            else it = added.erase(it);
        if (what == 0) mapModel(x, added);
        else subModel(x, added);
        count("probe.make");
        store(me, at(1), x);
      } else if (op.name == "add") {
        Slot& e = first(1, isElem);
        if (!isElem(e) || !a.mine) return;
        if (!is<MapH>(a) && !is<SubH>(a)) return;
        Res res = attempt([&] {
          if (auto* p = std::get_if<MapH>(&a.v)) addTo(**p, e.v);
          else addTo(*std::get<SubH>(a.v), e.v);
        });
        if (!res.ok()) fail("make-threw", "adding to a " + kindOf(a) + ": " + res.text());
        if (is<MapH>(a)) {
          Elems add;
          for (auto& z : e.roots)
            if (!a.content.count(z)) add.insert(z);
          mapModel(a, add);
        } else {
          subModel(a, e.roots);
        }
        count("probe.add");
      } else if (op.name == "graph") {
        Slot x;
        bool sub = is<SubH>(a);
        if (!is<MapH>(a) && !sub) return;
        Res res = attempt([&] {
          auto rules = makeRules(int(posMod(op.arg(2), 8)));
          x.v = GraphH(sub ? lr::RoutingGraph::build(*std::get<SubH>(a.v), *rules) : lr::RoutingGraph::build(*std::get<MapH>(a.v), *rules));
        });
        if (!res.ok()) fail("make-threw", "building a routing graph: " + res.text());
        model(w, x);
        for (auto& e : w.tracked(x.roots)) (w.turns && w.alive(e) ? x.roots : x.maybe).insert(e);
        x.mine = false;
        lookups(x);
        count("probe.graph");
        store(me, at(1), x);
      } else if (op.name == "route") {
        if (!is<GraphH>(a)) return;
        Slot x;
        Res res = attempt([&] {
          auto& g = *std::get<GraphH>(a.v);
          Any f, t;
          if (!fromLayers(w, *g.passableSubmap(), 3, op.arg(2), f)) return;
          auto l = std::get<ConstLanelet>(f);
          auto reach = g.reachableSet(l, 1e9);
          if (reach.empty()) return;
          auto r = g.getRoute(l, reach[size_t(posMod(op.arg(2) / 100, i64(reach.size())))]);
          if (!!r) x.v = std::make_shared<lr::Route>(std::move(*r));
        });
        if (!res.ok()) fail("make-threw", "making a route: " + res.text());
        if (!is<RouteH>(x)) return;
        model(w, x);
        x.maybe = w.full(x.roots, false);
        x.maybe.insert(a.maybe.begin(), a.maybe.end());
        lookups(x);
        x.mine = false;
        count("probe.route");
        store(me, at(1), x);
      } else if (op.name == "seq") {
        std::vector<size_t> from;
        bool lines = op.arg(1) & 1;
        for (size_t k = 0; k < kSlots; k++)
          if (lines ? is<ConstLineString3d>(mine[k]) : is<ConstLanelet>(mine[k])) from.push_back(k);
        if (from.empty()) return;
        Slot x;
        Res res = attempt([&] {
          ConstLanelets ts;
          ConstLineStrings3d ls;
          for (size_t k : from) {
            if (lines) ls.push_back(std::get<ConstLineString3d>(mine[k].v));
            else ts.push_back(std::get<ConstLanelet>(mine[k].v));
          }
          if (!lines) x.v = LaneletSequence(ts);
          else if (op.arg(1) & 2) x.v = CompoundLineString3d(ls);
          else x.v = CompoundPolygon3d(ls);
        });
        if (!res.ok()) fail("make-threw", "making a sequence: " + res.text());
        model(w, x);
        count("probe.seq");
        store(me, at(0), x);
      } else if (op.name == "weak") {
        Slot x;
        if (is<ConstLanelet>(a)) {
          lib([&] {
            x.v = ConstWeakLanelet(std::get<ConstLanelet>(a.v));
            return 0;
          });
        } else if (is<ConstArea>(a)) {
          lib([&] {
            x.v = ConstWeakArea(std::get<ConstArea>(a.v));
            return 0;
          });
        } else {
          return;
        }
        x.weakOf = *a.roots.begin();
        count("probe.weak");
        store(me, at(1), x);
      } else if (op.name == "lock") {
        if (a.weakOf.k < 0) return;
        checkWeak(w, a);
        bool held = false;
        for (auto& z : mine) held |= w.strong(z.roots).count(a.weakOf) > 0;
        bool before = w.alive(a.weakOf);
        Slot x;
        Res res = attempt([&] {
          if (is<ConstWeakLanelet>(a)) x.v = std::get<ConstWeakLanelet>(a.v).lock();
          else x.v = std::get<ConstWeakArea>(a.v).lock();
        });
        if (res.ok()) {
          if (!before) fail("weak-wrong", "locked a weak reference to something that is gone");
          count("probe.lock");
          Elem want = a.weakOf;
          model(w, x);
          if (x.roots.size() != 1 || x.roots.begin()->i != want.i) fail("weak-wrong", "a weak reference led to another element");
          store(me, at(1), x);
        } else {
          if (res.ex != Ex::Lanelet || res.type.find("NullptrError") == std::string::npos) fail("weak-wrong", "locking an expired reference: " + res.text());
          if (held || w.alive(a.weakOf)) fail("weak-wrong", fmt("%s %lld could not be locked although it exists", kElemName[a.weakOf.k], (long long)specId(w.s, a.weakOf)));
          count("probe.lock_expired");
        }
      } else if (op.name == "read") {
        if (!is<std::monostate>(a)) readSlot(w, a);
      } else if (op.name == "cut") {  // a lanelet gets other bounds and its old ones may go
        if (!w.turns || !is<ConstLanelet>(a)) return;
        size_t t = size_t(a.roots.begin()->i);
        size_t src = kSlots;
        for (size_t k = 0; k < kSlots; k++)
          if (is<ConstLineString3d>(mine[k])) src = k;
        if (src == kSlots) return;
        Res res = attempt([&] {
          auto l = mut(std::get<ConstLineString3d>(mine[src].v));
          auto x = mut(std::get<ConstLanelet>(a.v));
          if (x.inverted()) x = x.invert();
          if (op.arg(1) & 1) x.setLeftBound(l);
          else x.setRightBound(l);
        });
        if (!res.ok()) fail("make-threw", "setting a bound: " + res.text());
        bool inv = lib([&] { return std::get<ConstLineString3d>(mine[src].v).inverted(); });
        Ref ref;
        ref.i = mine[src].roots.begin()->i, ref.inv = inv;
        (op.arg(1) & 1 ? w.s.t[t].left : w.s.t[t].right) = ref;
        w.want = dumpSpec(w.s);
        count("probe.cut");
        // graphs, routes and sequences made before may answer from either state; sequences keep what they hold
      } else if (op.name == "unreg") {
        if (!w.turns || (!is<ConstLanelet>(a) && !is<ConstArea>(a))) return;
        Elem e = *a.roots.begin();
        auto& regs = e.k == mT ? w.s.t[size_t(e.i)].regs : w.s.a[size_t(e.i)].regs;
        if (regs.empty()) return;
        size_t k = size_t(posMod(op.arg(1), i64(regs.size())));
        bool ok = false;
        Res res = attempt([&] {
          auto kill = [&](auto x) {
            auto v = x.regulatoryElements();
            ok = x.removeRegulatoryElement(v.at(k));
          };
          if (e.k == mT) kill(mut(std::get<ConstLanelet>(a.v)));
          else kill(mut(std::get<ConstArea>(a.v)));
        });
        if (!res.ok() || !ok) fail("make-threw", "removing a regulatory element: " + res.text());
        int reg = regs[k];
        regs.erase(regs.begin() + long(k));
        (void)reg;
        w.want = dumpSpec(w.s);
        count("probe.unreg");
      } else if (op.name == "assign") {
        Slot& b2 = first(1, [](const Slot& x) { return is<SubH>(x) && x.mine; });
        if (!is<MapH>(a) || !is<SubH>(b2) || !a.mine || !b2.mine) return;
        Res res = attempt([&] {
          *std::get<SubH>(b2.v) = std::move(*std::get<MapH>(a.v));
          a.v = std::monostate{};
        });
        if (!res.ok()) fail("make-threw", "moving a map into a submap: " + res.text());
        b2.content = a.content, b2.roots = a.roots, b2.maybe = a.maybe, b2.fuzzy = a.fuzzy;
        a = Slot{};
        count("probe.assign");
      }
    };
    runClients(n, [&](int me) {
      int num = 0;
      for (auto& op : c.plan.ops) {
        if (op.client % n != me) continue;
        if (w.turns) lib([&] { w.turn.lock(); return 0; });
        step(me, op);
        num++;
        if (w.turns) {
          checkExact(w, fmt("after step %d of client %d, ", num, me) + op.name);
          for (auto& v : w.slots)
            for (auto& x : v) checkWeak(w, x);
          lib([&] { w.turn.unlock(); return 0; });
        } else {
          for (auto& x : w.slots[size_t(me)]) {
            checkMine(w, x);
            checkWeak(w, x);
          }
        }
      }
    });
    bool turns = w.turns;
    w.turns = true;  // nobody is running any more
    checkExact(w, "at the end");
    for (auto& v : w.slots)
      for (auto& x : v) {
        checkWeak(w, x);
        if (!is<std::monostate>(x)) readSlot(w, x);
      }
    for (auto& x : w.ex)
      if (!is<std::monostate>(x)) readSlot(w, x);
    size_t total = w.s.total();
    if (w.gone) count("probe.something_gone"), markNontrivial();
    sample(fmt("clients=%d turns=%d handles=%d of %zu elements %d were gone before the end", n, int(turns), w.handles, total, w.gone));
    // the rest goes, one handle after the other
    Rng r(u64(c.plan.c("_order")) + 3);
    std::vector<Slot*> left;
    for (auto& v : w.slots)
      for (auto& x : v) left.push_back(&x);
    for (auto& x : w.ex) left.push_back(&x);
    while (!left.empty()) {
      size_t k = r.below(left.size());
      Slot* x = left[k];
      left.erase(left.begin() + long(k));
      if (is<std::monostate>(*x)) continue;
      drop(*x);
      checkExact(w, "while everything is dropped");
    }
    lib([&] {
      for (auto& v : w.obs) v.clear();
      return 0;
    });
  }
  leaks.check("after all handles are gone");
}
RegisterScenario reg("C13", gen, run);
}  // namespace
}  // namespace h
