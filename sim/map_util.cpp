#include "map_util.h"

#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>

#include <algorithm>
#include <cmath>

using namespace lanelet;
namespace h {
namespace {
size_t total(const Spec& s, int k) {
  switch (k) {
    case mP: return s.p.size();
    case mL: return s.l.size();
    case mG: return s.g.size();
    case mT: return s.t.size();
    case mA: return s.a.size();
    default: return s.r.size();
  }
}
Id idOf(const Spec& s, int k, int i) {
  size_t n = size_t(i);
  switch (k) {
    case mP: return s.p[n].id;
    case mL: return s.l[n].id;
    case mG: return s.g[n].id;
    case mT: return s.t[n].id;
    case mA: return s.a[n].id;
    default: return s.r[n].id;
  }
}
// ---------------------------------------------------------------- plain geometry
struct V {
  double x, y, z;
};
struct Box {
  double x0 = INFINITY, y0 = INFINITY, x1 = -INFINITY, y1 = -INFINITY;
  bool empty() const { return x0 > x1; }
  void add(const V& v) {
    x0 = std::min(x0, v.x);
    x1 = std::max(x1, v.x);
    y0 = std::min(y0, v.y);
    y1 = std::max(y1, v.y);
  }
  void add(const Box& b) {
    if (b.empty()) return;
    add(V{b.x0, b.y0, 0});
    add(V{b.x1, b.y1, 0});
  }
};
double boxDist(const Box& b, double x, double y) {
  double dx = std::max({b.x0 - x, 0., x - b.x1}), dy = std::max({b.y0 - y, 0., y - b.y1});
  return std::sqrt(dx * dx + dy * dy);
}
struct Geo {
  const Spec& s;
  V p(int i) const {
    auto& q = s.p[size_t(i)];
    return {q.x, q.y, q.z};
  }
  std::vector<V> ls(int i, bool inv = false) const {
    std::vector<V> o;
    for (int k : s.l[size_t(i)].pts) o.push_back(p(k));
    if (inv) std::reverse(o.begin(), o.end());
    return o;
  }
  std::vector<V> poly(int i) const {
    std::vector<V> o;
    for (int k : s.g[size_t(i)].pts) o.push_back(p(k));
    return o;
  }
  std::vector<V> llt(int i) const {
    auto& t = s.t[size_t(i)];
    auto o = ls(t.left.i, t.left.inv), r = ls(t.right.i, !t.right.inv);
    o.insert(o.end(), r.begin(), r.end());
    return o;
  }
  std::vector<V> area(int i) const {
    std::vector<V> o;
    for (auto& x : s.a[size_t(i)].outer) {
      auto l = ls(x.i, x.inv);
      o.insert(o.end(), l.begin(), l.end());
    }
    return o;
  }
  Box box(int k, int i) const {
    Box b;
    auto all = [&](const std::vector<V>& v) {
      for (auto& x : v) b.add(x);
    };
    switch (k) {
      case mP: b.add(p(i)); break;
      case mL: all(ls(i)); break;
      case mG: all(poly(i)); break;
      case mT: all(llt(i)); break;
      case mA: all(area(i)); break;
      default:
        for (auto& role : s.r[size_t(i)].params)
          for (auto& q : role.second) b.add(box(q.kind, q.i));
    }
    return b;
  }
  static double seg(const V& a, const V& b, double x, double y) {
    double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
    double t = l == 0 ? 0 : std::max(0., std::min(1., ((x - a.x) * dx + (y - a.y) * dy) / l));
    return std::hypot(a.x + t * dx - x, a.y + t * dy - y);
  }
  static double seg3(const V& a, const V& b, const V& q) {
    double dx = b.x - a.x, dy = b.y - a.y, dz = b.z - a.z, l = dx * dx + dy * dy + dz * dz;
    double t = l == 0 ? 0 : std::max(0., std::min(1., ((q.x - a.x) * dx + (q.y - a.y) * dy + (q.z - a.z) * dz) / l));
    double ex = a.x + t * dx - q.x, ey = a.y + t * dy - q.y, ez = a.z + t * dz - q.z;
    return std::sqrt(ex * ex + ey * ey + ez * ez);
  }
  static double line(const std::vector<V>& v, double x, double y) {
    if (v.size() == 1) return std::hypot(v[0].x - x, v[0].y - y);
    double d = INFINITY;
    for (size_t i = 0; i + 1 < v.size(); i++) d = std::min(d, seg(v[i], v[i + 1], x, y));
    return d;
  }
  static double ring(std::vector<V> v, double x, double y) {
    if (v.empty()) return INFINITY;
    bool in = false;
    for (size_t i = 0, j = v.size() - 1; i < v.size(); j = i++)
      if ((v[i].y > y) != (v[j].y > y) && x < (v[j].x - v[i].x) * (y - v[i].y) / (v[j].y - v[i].y) + v[i].x) in = !in;
    if (in) return 0;
    v.push_back(v[0]);
    return line(v, x, y);
  }
  double dist(int k, int i, double x, double y) const {
    switch (k) {
      case mP: return std::hypot(p(i).x - x, p(i).y - y);
      case mL: return line(ls(i), x, y);
      case mG: return ring(poly(i), x, y);
      case mT: return ring(llt(i), x, y);
      case mA: {
        double d = ring(area(i), x, y);
        for (auto& in : s.a[size_t(i)].inner) {  // inside a hole
          std::vector<V> v;
          for (auto& q : in) {
            auto l = ls(q.i, q.inv);
            v.insert(v.end(), l.begin(), l.end());
          }
          if (!v.empty() && ring(v, x, y) == 0) {
            auto closed = v;
            closed.push_back(v[0]);
            d = std::max(d, line(closed, x, y));
          }
        }
        return d;
      }
      default: {
        double d = INFINITY;
        for (auto& role : s.r[size_t(i)].params)
          for (auto& q : role.second) d = std::min(d, dist(q.kind, q.i, x, y));
        return d;
      }
    }
  }
};
// ---------------------------------------------------------------- parameters of a query
struct QP {
  double x, y, x0, y0, x1, y1, dist;
  unsigned n;
  Id id;
  int own;  // index of the owned element asked for
  bool inv;
  int m, rem, after;  // predicate: id % m == rem, only after 'after' calls
};
int ownedKind(int layer) { return layer == mT || layer == mA ? mL : mP; }
QP derive(const MapQuery& q, const Spec& s) {
  Rng r(mix(q.seed, 4711));
  QP o{};
  auto coord = [&](double lo, double hi) {
    double v = lo + (hi - lo) * r.unit();
    return r.chance(1, 2) ? std::floor(v * 8) / 8 : v;
  };
  if (!s.p.empty() && r.chance(1, 2)) {
    auto& p = s.p[r.below(s.p.size())];
    o.x = p.x + (r.chance(1, 2) ? 0 : 0.25 * double(r.range(-4, 4)));
    o.y = p.y + (r.chance(1, 2) ? 0 : 0.25 * double(r.range(-4, 4)));
  } else {
    o.x = coord(-15, 60);
    o.y = coord(-25, 25);
  }
  double w = r.chance(1, 8) ? 0 : r.chance(1, 6) ? 200 : coord(0, 15), h = r.chance(1, 8) ? 0 : r.chance(1, 6) ? 200 : coord(0, 10);
  o.x0 = o.x - w / 2;
  o.x1 = o.x + w / 2;
  o.y0 = o.y - h / 2;
  o.y1 = o.y + h / 2;
  o.dist = r.chance(1, 4) ? 0 : 0.37 + 0.5 * double(r.below(20));
  o.n = unsigned(r.chance(1, 8) ? 1000 : r.range(1, 6));
  size_t k = r.chance(3, 4) ? size_t(q.layer) : r.below(6);
  o.id = total(s, int(k)) && r.chance(7, 8) ? idOf(s, int(k), int(r.below(total(s, int(k))))) : Id(r.chance(1, 2) ? 0 : 77777777);
  size_t own = total(s, ownedKind(q.layer));
  o.own = own ? int(r.below(own)) : -1;
  o.inv = r.chance(1, 3);
  o.m = int(r.range(1, 5));
  o.rem = int(r.below(u64(o.m)));
  o.after = int(r.below(6));
  if (r.chance(1, 4)) o.after = 1000000;
  return o;
}
// all parameters of all regulatory elements, for usage queries
std::vector<Param> allParams(const Spec& s) {
  std::vector<Param> o;
  for (auto& e : s.r)
    for (auto& role : e.params)
      for (auto& q : role.second) o.push_back(q);
  return o;
}
template <typename M, typename F>
auto onLayer(M& m, int k, F&& f) {
  switch (k) {
    case mP: return f(m.pointLayer);
    case mL: return f(m.lineStringLayer);
    case mG: return f(m.polygonLayer);
    case mT: return f(m.laneletLayer);
    case mA: return f(m.areaLayer);
    default: return f(m.regulatoryElementLayer);
  }
}
template <typename T>
Id theId(const T& t) {
  return t.id();
}
Id theId(const RegulatoryElementConstPtr& t) { return t->id(); }
Id theId(const RegulatoryElementPtr& t) { return t->id(); }
std::string idsText(std::vector<Id> v, bool sorted = true) {
  if (sorted) std::sort(v.begin(), v.end());
  std::string o;
  for (auto i : v) o += fmt("%lld ", (long long)i);
  return o;
}
template <typename T, typename L>
void usages(const L& layer, const Built& b, const Spec& s, int kind, const QP& q, MapAnswer& a) {
  (void)layer;
  (void)b;
  (void)s;
  (void)kind;
  (void)q;
  (void)a;
}
struct Asker {
  const Built& b;
  const Spec& s;
  const MapQuery& q;
  QP p;
  MapAnswer a;
  template <typename V>
  void take(const V& v) {
    sim::Harness hm;
    for (auto& e : v) a.ids.push_back(theId(e));
    a.text = "ok";
  }
  template <typename V>
  void takePairs(const V& v) {
    sim::Harness hm;
    for (auto& e : v) {
      a.ids.push_back(theId(e.second));
      a.d.push_back(e.first);
    }
    a.text = "ok";
  }
  template <typename O>
  void takeOpt(const O& o) {
    sim::Harness hm;
    a.hit = !!o;
    a.text = o ? fmt("hit %lld", (long long)theId(*o)) : "none";
  }
  template <typename BoxT, typename E>
  bool visit(const BoxT&, const E& e) {
    sim::Harness hm;
    a.ids.push_back(theId(e));
    return int(a.ids.size()) > p.after && ((theId(e) % p.m) + p.m) % p.m == p.rem;
  }
  template <typename L>
  int usage(L& l) {
    if (p.own < 0) return 0;
    if constexpr (std::is_base_of<LaneletLayer, std::decay_t<L>>::value || std::is_base_of<AreaLayer, std::decay_t<L>>::value) {
      ConstLineString3d ls = b.l[size_t(p.own)];
      take(l.findUsages(p.inv ? ls.invert() : ls));
    } else if constexpr (std::is_same<typename std::decay_t<L>::PrimitiveT, RegulatoryElementPtr>::value) {
      auto ps = [&] {
        sim::Harness hm;
        return allParams(s);
      }();
      if (ps.empty()) return 0;
      auto& x = ps[size_t(p.own) % ps.size()];
      size_t i = size_t(x.i);
      switch (x.kind) {
        case kP: take(l.findUsages(ConstRuleParameter(ConstPoint3d(b.p[i])))); break;
        case kL: take(l.findUsages(ConstRuleParameter(ConstLineString3d(b.l[i])))); break;
        case kG: take(l.findUsages(ConstRuleParameter(ConstPolygon3d(b.g[i])))); break;
        case kT: take(l.findUsages(ConstRuleParameter(ConstWeakLanelet(b.t[i])))); break;
        default: take(l.findUsages(ConstRuleParameter(ConstWeakArea(b.a[i])))); break;
      }
    } else {
      take(l.findUsages(ConstPoint3d(b.p[size_t(p.own)])));
    }
    return 0;
  }
  template <typename L>
  int layerQuery(L& l) {
    BasicPoint2d pt(p.x, p.y);
    BoundingBox2d box(BasicPoint2d(p.x0, p.y0), BasicPoint2d(p.x1, p.y1));
    switch (q.kind) {
      case 0: {
        bool ex = l.exists(p.id);
        bool fd = l.find(p.id) != l.end();
        Id fid = fd ? theId(*l.find(p.id)) : 0;
        Id got = 0;
        bool thrown = false;
        try {
          got = theId(l.get(p.id));
        } catch (NoSuchPrimitiveError&) {
          thrown = true;
        }
        sim::Harness hm;
        a.text = fmt("exists=%d find=%d:%lld get=%lld%s", ex, fd, (long long)fid, (long long)got, thrown ? " throws" : "");
        break;
      }
      case 1: {
        size_t n = l.size();
        bool e = l.empty();
        for (auto& x : l) {
          Id id = theId(x);
          sim::Harness hm;
          a.ids.push_back(id);
        }
        sim::Harness hm;
        a.text = fmt("size=%zu empty=%d", n, e);
        break;
      }
      case 2: take(l.search(box)); break;
      case 3: take(l.nearest(pt, p.n)); break;
      case 4: takeOpt(l.searchUntil(box, [this](auto& bx, auto& e) { return visit(bx, e); })); break;
      case 5: takeOpt(l.nearestUntil(pt, [this](auto& bx, auto& e) { return visit(bx, e); })); break;
      case 6: usage(l); break;
      case 7: takePairs(geometry::findNearest(l, pt, q.var % 16 == 3 ? 0u : p.n)); break;
      default: break;
    }
    return 0;
  }
  template <typename M>
  void run(M& m) {
    switch (q.kind) {
      case 8:  // by regulatory element
        if (b.r.empty()) break;
        {
          RegulatoryElementConstPtr re = b.r[size_t(std::max(0, p.own)) % b.r.size()];
          if (q.layer % 2) take(m.laneletLayer.findUsages(re));
          else take(m.areaLayer.findUsages(re));
        }
        break;
      case 9:
        if (p.own < 0 || b.p.empty()) break;
        if (q.layer % 2) take(utils::findUsagesInLanelets(m, b.p[size_t(p.own) % b.p.size()]));
        else take(utils::findUsagesInAreas(m, b.p[size_t(p.own) % b.p.size()]));
        break;
      case 10:
        if (q.layer % 4 == 0) take(utils::findUsages(m.laneletLayer, p.id));
        else if (q.layer % 4 == 1) take(utils::findUsages(m.lineStringLayer, p.id));
        else if (q.layer % 4 == 2) take(utils::findUsages(m.polygonLayer, p.id));
        else take(utils::findUsages(m.regulatoryElementLayer, p.id));
        break;
      case 11: {
        BasicPoint2d pt(p.x, p.y);
        if (q.layer == mP) takePairs(geometry::findWithin2d(m.pointLayer, pt, p.dist));
        else if (q.layer == mL) takePairs(geometry::findWithin2d(m.lineStringLayer, pt, p.dist));
        else if (q.layer == mG) takePairs(geometry::findWithin2d(m.polygonLayer, pt, p.dist));
        else if (q.layer == mA) takePairs(geometry::findWithin2d(m.areaLayer, pt, p.dist));
        else takePairs(geometry::findWithin2d(m.laneletLayer, pt, p.dist));
        break;
      }
      case 12: {
        BasicPoint3d pt(p.x, p.y, 0.25);
        if (q.layer % 2) takePairs(geometry::findWithin3d(m.lineStringLayer, pt, p.dist));
        else takePairs(geometry::findWithin3d(m.pointLayer, pt, p.dist));
        break;
      }
      case 13: {
        size_t n = m.size();
        bool e = m.empty();
        sim::Harness hm;
        a.text = fmt("size=%zu empty=%d", n, e);
        break;
      }
      default: onLayer(m, q.layer, [&](auto& l) { return layerQuery(l); });
    }
  }
};
}  // namespace

size_t MapModel::count(int k) const { return in[k].size(); }
Id MapModel::id(int k, int i) const { return idOf(*s, k, i); }
MapModel MapModel::all(const Spec& s) {
  MapModel m;
  m.s = &s;
  for (int k = 0; k < 6; k++)
    for (size_t i = 0; i < total(s, k); i++) m.in[k].insert(int(i));
  return m;
}
std::string describeMap(const MapQuery& q) {
  static const char* byIdOn[] = {"lanelets", "line strings", "polygons", "regulatory elements"};
  static const char* n[] = {"exists/find/get", "iterate", "search", "nearest", "searchUntil", "nearestUntil", "findUsages", "findNearest",
                            "findUsages(regulatory element)", "findUsagesInLanelets/Areas", "findUsages(id)", "findWithin2d", "findWithin3d", "size"};
  static const char* l[] = {"points", "line strings", "polygons", "lanelets", "areas", "regulatory elements"};
  return fmt("%s on %s (var %lld seed %llu)", n[q.kind], q.kind == 10 ? byIdOn[q.layer % 4] : l[q.layer], (long long)q.var, (unsigned long long)q.seed);
}
MapAnswer askMap(LaneletMapLayers& m, const Built& b, const Spec& s, const MapQuery& q) {
  Asker k{b, s, q, derive(q, s), {}};
  Res r = attempt([&] {
    if (q.var % 2) k.run(m);
    else k.run(const_cast<const LaneletMapLayers&>(m));
  });
  if (!r.ok()) k.a.text = r.text();
  return std::move(k.a);
}
std::string judgeMap(const MapModel& m, const MapQuery& q, const MapAnswer& a) {
  const Spec& s = *m.s;
  QP p = derive(q, s);
  Geo g{s};
  const int k = q.layer;
  std::map<Id, int> byId;
  for (int i : m.in[k]) byId[idOf(s, k, i)] = i;
  auto ids = [&](const std::vector<Id>& v) { return idsText(v); };
  auto same = [&](std::vector<Id> want, bool dedupe) -> std::string {
    std::vector<Id> got = a.ids;
    std::sort(want.begin(), want.end());
    want.erase(std::unique(want.begin(), want.end()), want.end());
    std::sort(got.begin(), got.end());
    if (dedupe) got.erase(std::unique(got.begin(), got.end()), got.end());
    if (a.text != "ok") return "outcome " + a.text;
    return want == got ? "" : "want " + ids(want) + "\n  got  " + ids(got);
  };
  auto nan = [](double d, double e) { return !(std::fabs(d - e) < 1e-6); };
  auto text = [&](const std::string& w) { return w == a.text ? "" : "want " + w + "\n  got  " + a.text; };
  switch (q.kind) {
    case 0: {
      bool e = byId.count(p.id) && p.id != InvalId;
      return text(e ? fmt("exists=1 find=1:%lld get=%lld", (long long)p.id, (long long)p.id) : "exists=0 find=0:0 get=0 throws");
    }
    case 1: {
      std::string e = text(fmt("size=%zu empty=%d", m.count(k), m.count(k) == 0));
      if (!e.empty()) return e;
      std::vector<Id> w;
      for (auto& x : byId) w.push_back(x.first);
      std::vector<Id> got = a.ids;
      std::sort(got.begin(), got.end());
      return w == got ? "" : "want " + ids(w) + "\n  got  " + ids(got);
    }
    case 2: {
      std::vector<Id> w;
      for (auto& x : byId) {
        Box b = g.box(k, x.second);
        if (!b.empty() && b.x0 <= p.x1 && b.x1 >= p.x0 && b.y0 <= p.y1 && b.y1 >= p.y0) w.push_back(x.first);
      }
      return same(w, false);
    }
    case 3:
    case 7: {
      if (a.text != "ok") return "outcome " + a.text;
      std::vector<double> w, got;
      auto dist = [&](int i) { return q.kind == 3 ? boxDist(g.box(k, i), p.x, p.y) : g.dist(k, i, p.x, p.y); };
      for (auto& x : byId)
        if (!g.box(k, x.second).empty()) w.push_back(dist(x.second));
      std::sort(w.begin(), w.end());
      size_t n = q.kind == 7 && q.var % 16 == 3 ? 0 : p.n;
      if (w.size() > n) w.resize(n);
      std::set<Id> seen;
      for (size_t i = 0; i < a.ids.size(); i++) {
        auto it = byId.find(a.ids[i]);
        if (it == byId.end()) return fmt("element %lld is not in the map", (long long)a.ids[i]);
        if (!seen.insert(a.ids[i]).second) return fmt("element %lld given twice", (long long)a.ids[i]);
        got.push_back(dist(it->second));
        if (q.kind == 7 && nan(got.back(), a.d[i])) return fmt("distance of %lld: want %.9g got %.9g", (long long)a.ids[i], got.back(), a.d[i]);
        if (q.kind == 7 && i && a.d[i] < a.d[i - 1]) return "not in increasing order";
      }
      std::sort(got.begin(), got.end());
      if (got.size() != w.size()) return fmt("want %zu elements, got %zu", w.size(), got.size());
      for (size_t i = 0; i < w.size(); i++)
        if (nan(w[i], got[i])) return fmt("distance no. %zu: want %.9g got %.9g", i, w[i], got[i]);
      return "";
    }
    case 4:
    case 5: {
      std::set<Id> cand;
      for (auto& x : byId) {
        Box b = g.box(k, x.second);
        if (b.empty()) continue;
        if (q.kind == 5 || (b.x0 <= p.x1 && b.x1 >= p.x0 && b.y0 <= p.y1 && b.y1 >= p.y0)) cand.insert(x.first);
      }
      std::set<Id> seen;
      double last = 0;
      bool hit = false;
      for (size_t i = 0; i < a.ids.size(); i++) {
        Id id = a.ids[i];
        if (hit) return "went on after the callback accepted an element";
        if (!cand.count(id)) return fmt("callback got element %lld", (long long)id);
        if (!seen.insert(id).second) return fmt("callback got element %lld twice", (long long)id);
        if (q.kind == 5) {
          double d = boxDist(g.box(k, byId[id]), p.x, p.y);
          if (d < last - 1e-9) return "elements not presented in order of distance";
          last = d;
        }
        hit = int(i + 1) > p.after && ((id % p.m) + p.m) % p.m == p.rem;
      }
      if (!hit && seen.size() != cand.size()) return fmt("callback got %zu of %zu elements", seen.size(), cand.size());
      if (hit && q.kind == 5)
        for (Id id : cand)
          if (!seen.count(id) && boxDist(g.box(k, byId[id]), p.x, p.y) < last - 1e-9) return fmt("closer element %lld was passed over", (long long)id);
      return text(hit ? fmt("hit %lld", (long long)a.ids.back()) : "none");
    }
    case 6: {
      if (p.own < 0 || (k == mR && allParams(s).empty())) return "";
      std::vector<Id> w;
      if (k == mP) return same({}, false);
      auto ps = allParams(s);
      for (int i : m.in[k]) {
        bool uses = false;
        size_t n = size_t(i);
        if (k == mL || k == mG) {
          auto& v = (k == mL ? s.l : s.g)[n].pts;
          uses = std::find(v.begin(), v.end(), p.own) != v.end();
        } else if (k == mT) {
          for (auto& x : {s.t[n].left, s.t[n].right}) uses |= x.i == p.own && x.inv == p.inv;
        } else if (k == mA) {
          for (auto& x : s.a[n].outer) uses |= x.i == p.own && x.inv == p.inv;
          for (auto& in : s.a[n].inner)
            for (auto& x : in) uses |= x.i == p.own && x.inv == p.inv;
        } else {
          auto& x = ps[size_t(p.own) % ps.size()];
          for (auto& role : s.r[n].params)
            for (auto& y : role.second) uses |= y.kind == x.kind && y.i == x.i && y.inv == x.inv;
        }
        if (uses) w.push_back(idOf(s, k, i));
      }
      return same(w, true);
    }
    case 8: {
      if (s.r.empty()) return "";
      int re = int(size_t(std::max(0, p.own)) % s.r.size());
      std::vector<Id> w;
      auto has = [&](const std::vector<int>& v) { return std::find(v.begin(), v.end(), re) != v.end(); };
      if (k % 2) {
        for (int i : m.in[mT])
          if (has(s.t[size_t(i)].regs)) w.push_back(s.t[size_t(i)].id);
      } else {
        for (int i : m.in[mA])
          if (has(s.a[size_t(i)].regs)) w.push_back(s.a[size_t(i)].id);
      }
      return same(w, false);
    }
    case 9: {
      if (p.own < 0 || s.p.empty()) return "";
      int pt = int(size_t(p.own) % s.p.size());
      auto has = [&](const Ref& x) {
        auto& v = s.l[size_t(x.i)].pts;
        return m.in[mL].count(x.i) && std::find(v.begin(), v.end(), pt) != v.end();
      };
      std::vector<Id> w;
      if (k % 2) {
        for (int i : m.in[mT])
          if (has(s.t[size_t(i)].left) || has(s.t[size_t(i)].right)) w.push_back(s.t[size_t(i)].id);
      } else {
        for (int i : m.in[mA]) {
          bool u = false;
          for (auto& x : s.a[size_t(i)].outer) u |= has(x);
          for (auto& in : s.a[size_t(i)].inner)
            for (auto& x : in) u |= has(x);
          if (u) w.push_back(s.a[size_t(i)].id);
        }
      }
      return same(w, false);
    }
    case 10: {
      std::vector<Id> w;
      auto hasPt = [&](const std::vector<int>& v) {
        return std::any_of(v.begin(), v.end(), [&](int i) { return s.p[size_t(i)].id == p.id; });
      };
      auto inLanelet = [&](int i) {
        auto& t = s.t[size_t(i)];
        bool u = hasPt(s.l[size_t(t.left.i)].pts) || hasPt(s.l[size_t(t.right.i)].pts);
        for (int x : t.regs) u |= s.r[size_t(x)].id == p.id;
        return u;
      };
      auto inArea = [&](int i) {
        bool u = false;
        for (auto& x : s.a[size_t(i)].outer) u |= hasPt(s.l[size_t(x.i)].pts);
        return u;
      };
      if (k % 4 == 0) {
        for (int i : m.in[mT])
          if (inLanelet(i)) w.push_back(s.t[size_t(i)].id);
      } else if (k % 4 == 1 || k % 4 == 2) {
        for (int i : m.in[k % 4 == 1 ? mL : mG]) {
          auto& l = (k % 4 == 1 ? s.l : s.g)[size_t(i)];
          if (hasPt(l.pts)) w.push_back(l.id);
        }
      } else {
        for (int i : m.in[mR]) {
          bool u = false;
          for (auto& role : s.r[size_t(i)].params)
            for (auto& y : role.second)
              u |= idOf(s, y.kind, y.i) == p.id || (y.kind == kL && hasPt(s.l[size_t(y.i)].pts)) || (y.kind == kG && hasPt(s.g[size_t(y.i)].pts)) ||
                   (y.kind == kT && inLanelet(y.i)) || (y.kind == kA && inArea(y.i));
          if (u) w.push_back(s.r[size_t(i)].id);
        }
      }
      return same(w, false);
    }
    case 11:
    case 12: {
      if (a.text != "ok") return "outcome " + a.text;
      int layer = q.kind == 12 ? (k % 2 ? mL : mP) : k == mR ? mT : k;
      std::map<Id, double> d;
      for (int i : m.in[layer]) {
        if (g.box(layer, i).empty()) continue;
        double v;
        if (q.kind == 11) {
          v = g.dist(layer, i, p.x, p.y);
        } else {
          V c{p.x, p.y, 0.25};
          std::vector<V> pts = layer == mL ? g.ls(i) : std::vector<V>{g.p(i)};
          v = Geo::seg3(pts[0], pts[0], c);
          for (size_t j = 0; j + 1 < pts.size(); j++) v = std::min(v, Geo::seg3(pts[j], pts[j + 1], c));
        }
        d[idOf(s, layer, i)] = v;
      }
      std::set<Id> seen;
      for (size_t i = 0; i < a.ids.size(); i++) {
        auto it = d.find(a.ids[i]);
        if (it == d.end()) return fmt("element %lld is not in the layer", (long long)a.ids[i]);
        if (!seen.insert(a.ids[i]).second) return fmt("element %lld given twice", (long long)a.ids[i]);
        if (nan(it->second, a.d[i])) return fmt("distance of %lld: want %.9g got %.9g", (long long)a.ids[i], it->second, a.d[i]);
        if (a.d[i] > p.dist) return fmt("element %lld is too far away", (long long)a.ids[i]);
        if (i && a.d[i] < a.d[i - 1]) return "not in increasing order";
      }
      for (auto& x : d)
        if (x.second < p.dist - 1e-6 && !seen.count(x.first)) return fmt("element %lld at distance %.9g is missing", (long long)x.first, x.second);
      return "";
    }
    case 13: {
      size_t n = 0;
      for (int i = 0; i < 6; i++) n += m.in[i].size();
      return text(fmt("size=%zu empty=%d", n, n == 0));
    }
    default: return "";
  }
}
std::string checkWholeMap(LaneletMapLayers& map, const Built& b, const MapModel& m, u64 seed, int extra) {
  auto one = [&](MapQuery q) -> std::string {
    MapAnswer a = askMap(map, b, *m.s, q);
    std::string e = judgeMap(m, q, a);
    return e.empty() ? e : describeMap(q) + ":\n  " + e;
  };
  Rng r(seed);
  for (int k = 0; k < 6; k++) {
    std::string e = one(MapQuery{1, k, i64(r.below(2)), r.next()});
    if (!e.empty()) return e;
    for (size_t i = 0; i < total(*m.s, k); i++) {  // by id, and the identical object
      bool want = m.in[k].count(int(i)) > 0;
      Id id = idOf(*m.s, k, int(i));
      int got = lib([&] {
        const LaneletMapLayers& c = map;
        switch (k) {
          case mP: return !c.pointLayer.exists(id) ? 0 : c.pointLayer.get(id) == ConstPoint3d(b.p[i]) ? 1 : 2;
          case mL: return !c.lineStringLayer.exists(id) ? 0 : c.lineStringLayer.get(id).constData() == b.l[i].constData() ? 1 : 2;
          case mG: return !c.polygonLayer.exists(id) ? 0 : c.polygonLayer.get(id) == ConstPolygon3d(b.g[i]) ? 1 : 2;
          case mT: return !c.laneletLayer.exists(id) ? 0 : c.laneletLayer.get(id).constData() == b.t[i].constData() ? 1 : 2;
          case mA: return !c.areaLayer.exists(id) ? 0 : c.areaLayer.get(id) == ConstArea(b.a[i]) ? 1 : 2;
          default: return !c.regulatoryElementLayer.exists(id) ? 0 : c.regulatoryElementLayer.get(id) == RegulatoryElementConstPtr(b.r[i]) ? 1 : 2;
        }
      });
      if (got == 2) return fmt("layer %d: id %lld leads to a different object", k, (long long)id);
      if (id != InvalId && (got == 1) != want) return fmt("layer %d: element %lld is %s", k, (long long)id, want ? "missing" : "there although never added");
    }
  }
  for (int j = 0; j < extra; j++) {
    static const int kinds[] = {2, 3, 5, 6, 6, 8, 10, 11, 13, 7};
    std::string e = one(MapQuery{kinds[r.below(10)], int(r.below(6)), i64(r.below(2)), r.next()});
    if (!e.empty()) return e;
  }
  return "";
}
}  // namespace h
