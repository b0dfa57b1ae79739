// C12: clients take turns (in an order the scheduler decides) changing shared primitives through all kinds of handles,
// some of them while memory runs out, and reading them through all kinds of handles; a pure-data model follows.
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>

#include <algorithm>
#include <mutex>

#include "prim_util.h"

using namespace lanelet;
namespace h {
namespace {
enum MutKind { kPoint, kAttr, kLine, kPoly, kBound, kCenter, kReset, kRegs, kAreaBound, kReg, kNumMut };
const char* kMutName[] = {"point", "attribute", "line-string", "polygon", "bound", "centerline", "reset-cache", "regelem-list", "area-bound", "regelem"};
// ops: m kind a how sub seed [nth len] (memory fails at the nth allocation) | rd kind idx var | ty element type | cl lanelet var | all | names
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(4)) == 0 ? 1 : 0);
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_how"] = i64(r.below(3));
  p.cfg["_fix"] = i64(r.below(1000));
  int n = int(r.range(1, 4));
  p.cfg["clients"] = n;
  schedFrom(p, r, 20000);
  bool oom = r.chance(2, 5);
  i64 hot = i64(r.below(100)), hotKind = i64(r.below(kNumMut));
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(2, 12)); k > 0; k--) {
      switch (r.below(11)) {
        case 10: p.op(c, "ty", {r.chance(1, 2) ? hot : i64(r.below(200)), i64(r.below(5))}); break;
        case 0: p.op(c, "all"); break;
        case 1: p.op(c, "names"); break;
        case 2:
        case 3: p.op(c, "cl", {r.chance(1, 2) ? hot : i64(r.below(100)), i64(r.below(4))}); break;
        case 4: p.op(c, "rd", {r.range(1, kNumPrimKinds - 2), r.chance(1, 2) ? hot : i64(r.below(200)), i64(r.below(48))}); break;
        default: {
          std::vector<i64> a{r.chance(1, 3) ? hotKind : i64(r.below(kNumMut)), r.chance(1, 3) ? hot : i64(r.below(200)), i64(r.below(12)), i64(r.below(60)), i64(r.below(1000000))};
          if (oom && r.chance(1, 2)) a.push_back(i64(r.below(r.chance(2, 3) ? 4 : 20))), a.push_back(r.chance(1, 2) ? 1 : i64(r.range(2, 100)));
          p.op(c, "m", a);
        }
      }
    }
}
struct NameCase {
  const char* name;
  bool hasEnum;
  AttributeName e;
};
const NameCase kNames[] = {{"type", true, AttributeName::Type}, {"subtype", true, AttributeName::Subtype}, {"one_way", true, AttributeName::OneWay},
                           {"participant:vehicle", true, AttributeName::ParticipantVehicle}, {"participant:pedestrian", true, AttributeName::ParticipantPedestrian},
                           {"speed_limit", true, AttributeName::SpeedLimit}, {"location", true, AttributeName::Location}, {"dynamic", true, AttributeName::Dynamic},
                           {"color", false, AttributeName::Type}, {"foo", false, AttributeName::Type}, {"a name that is long enough to need its own block", false, AttributeName::Type}};
const int kNumNames = int(sizeof kNames / sizeof *kNames);
const char* kValues[] = {"a", "yes", "no", "42", "50 km/h", "", "de274", "a value that does not fit into a small string buffer", "urban", "1.5", "43", "7", "1", "2.5", "30 km/h", "50 mph", "0"};
struct RoleCase {
  const char* name;
  RoleName e;
};
const RoleCase kRoleNames[] = {{"refers", RoleName::Refers}, {"ref_line", RoleName::RefLine}, {"right_of_way", RoleName::RightOfWay},
                               {"yield", RoleName::Yield}, {"cancels", RoleName::Cancels}, {"cancel_line", RoleName::CancelLine}};

i64 posMod(i64 a, i64 n) { return n <= 0 ? 0 : ((a % n) + n) % n; }
// hash of the regelem's parameter roles seen by name and by enum
std::string hybridText(const AttributeMap& m) {
  std::string o;
  for (auto& c : kNames) {
    auto it = m.find(std::string(c.name));
    std::string byName = it == m.end() ? "-" : "=" + it->second.value();
    if (c.hasEnum) {
      auto e = m.find(c.e);
      std::string byEnum = e == m.end() ? "-" : "=" + e->second.value();
      if (byName != byEnum) o += fmt("attribute '%s' is %s by name but %s by enum\n", c.name, byName.c_str(), byEnum.c_str());
    }
  }
  size_t n = 0;
  for (auto it = m.begin(); it != m.end(); ++it) n++;
  if (n != m.size() || m.empty() != (n == 0)) o += fmt("attribute map holds %zu but says %zu\n", n, m.size());
  return o;
}
std::string roleText(const RegulatoryElement& r) {
  std::string o;
  for (auto& c : kRoleNames) {
    auto chk = [&](size_t a, size_t b, const char* what) {
      if (a != b) o += fmt("role '%s' has %zu %s by name but %zu by enum\n", c.name, a, what, b);
    };
    chk(r.getParameters<ConstLineString3d>(std::string(c.name)).size(), r.getParameters<ConstLineString3d>(c.e).size(), "line strings");
    chk(r.getParameters<ConstLanelet>(std::string(c.name)).size(), r.getParameters<ConstLanelet>(c.e).size(), "lanelets");
    chk(r.getParameters<ConstPolygon3d>(std::string(c.name)).size(), r.getParameters<ConstPolygon3d>(c.e).size(), "polygons");
  }
  return o;
}
std::string checkNames(const Fix& f) {
  std::string o;
  auto add = [&](char k, Id id, const std::string& t) {
    if (!t.empty() && o.size() < 500) o += fmt("%c %lld: ", k, (long long)id) + t;
  };
  for (auto& e : f.b.p) add('P', e.id(), hybridText(e.attributes()));
  for (auto& e : f.b.l) add('L', e.id(), hybridText(e.attributes()));
  for (auto& e : f.b.g) add('G', e.id(), hybridText(e.attributes()));
  for (auto& e : f.b.t) add('T', e.id(), hybridText(e.attributes()));
  for (auto& e : f.b.a) add('A', e.id(), hybridText(e.attributes()));
  for (auto& e : f.b.r) add('R', e->id(), hybridText(e->attributes()) + roleText(*e));
  return o;
}
template <typename L>
std::string lineText(const L& l) {
  std::string o = l.inverted() ? "-" : "+";
  for (auto& p : l) o += fmt("%lld(%s,%s,%s) ", (long long)p.id(), num(p.x()).c_str(), num(p.y()).c_str(), num(p.z()).c_str());
  return o;
}
template <typename T>
std::string typed(const AttributeMap& m) {  // cached conversions against those of a fresh attribute with the same text
  std::string o;
  for (auto& e : m) {
    auto got = e.second.template as<T>();
    auto want = Attribute(e.second.value()).template as<T>();
    if (!!got != !!want || (!!got && !(*got == *want))) o += "attribute '" + e.first + "' = '" + e.second.value() + "' converts to something else than its text\n";
  }
  return o;
}
template <typename Prim>
std::string typedText(const Prim& p, i64 var) {
  switch (posMod(var, 5)) {
    case 0: return typed<bool>(p.attributes());
    case 1: return typed<double>(p.attributes());
    case 2: return typed<int>(p.attributes());
    case 3: return typed<Id>(p.attributes());
    default: return typed<Velocity>(p.attributes());
  }
}
// ------------------------------------------------------------------ the shared world
struct World {
  FixSpec fs;
  Fix fx;
  std::vector<Ref> seqLeft, seqRight;            // the bounds the sequence was built with
  std::vector<std::vector<std::string>> seen;    // per lanelet: centerline texts that may still be cached
  std::mutex turn;
};
using Model = std::function<void(Spec&)>;
using Real = std::function<void()>;
struct Mut {
  Model model;                   // applied to a copy of the spec
  Real real;                     // lib mode
  bool mayFail = true;           // a single modification: an allocation fault may strike
  const char* expect = nullptr;  // documented refusal
  std::string what;
};
void reversed(std::vector<int>& v, bool inv) {
  if (inv) std::reverse(v.begin(), v.end());
}
// a modifiable handle to line string i, reached in different ways; its orientation is its own business
LineString3d reach(World& w, int i, i64 how) {
  Built& b = w.fx.b;
  LineString3d l = b.l[size_t(i)];
  switch (posMod(how, 10)) {
    case 0: return l;
    case 1: return l.invert();
    case 2: {
      auto it = b.map->lineStringLayer.find(l.id());
      if (it != b.map->lineStringLayer.end()) return *it;
      return l;
    }
    case 3:
    case 4:
      for (auto& t0 : b.t) {
        Lanelet t = how & 1 ? t0.invert() : t0;
        if (t.leftBound().constData() == l.constData()) return t.leftBound();
        if (t.rightBound().constData() == l.constData()) return t.rightBound();
      }
      return l;
    case 5:
      for (auto& a : b.a) {
        for (auto& x : a.outerBound())
          if (x.constData() == l.constData()) return x;
        for (auto& in : a.innerBounds())
          for (auto& x : in)
            if (x.constData() == l.constData()) return x;
      }
      return l.invert();
    case 6:
      for (auto& r : b.r) {
        if (auto tl = std::dynamic_pointer_cast<TrafficLight>(r)) {
          auto s = tl->stopLine();
          if (!!s && s->constData() == l.constData()) return *s;
          for (auto& x : tl->trafficLights())
            if (x.lineString() && x.lineString()->constData() == l.constData()) return *x.lineString();
        }
        if (auto ts = std::dynamic_pointer_cast<TrafficSign>(r))
          for (auto& x : ts->refLines())
            if (x.constData() == l.constData()) return x;
      }
      return l.invert().invert();
    case 7: {
      auto it = b.map->laneletLayer.begin();
      for (; it != b.map->laneletLayer.end(); ++it)
        if (it->leftBound().constData() == l.constData()) {
          Lanelet t = *it;
          return t.invert().rightBound();
        }
      return l;
    }
    case 8: return utils::to3D(utils::to2D(l));
    default: {
      LineString3d c(1);
      c = l;
      return LineString3d(c).invert();
    }
  }
}
Point3d reachPoint(World& w, int i, i64 how) {
  Built& b = w.fx.b;
  Point3d p = b.p[size_t(i)];
  switch (posMod(how, 6)) {
    case 0: return p;
    case 1: {
      auto it = b.map->pointLayer.find(p.id());
      return it != b.map->pointLayer.end() ? *it : p;
    }
    case 2:
      for (auto& l : b.l)
        for (auto& q : l)
          if (q.constData() == p.constData()) return q;
      return p;
    case 3:
      for (auto& l : b.l) {
        LineString2d l2 = utils::to2D(l.invert());
        for (auto it = l2.begin(); it != l2.end(); ++it)
          if (it->constData() == p.constData()) return utils::to3D(Point2d(*it));
      }
      return p;
    case 4:
      for (auto& g : b.g)
        for (size_t k = 0; k < g.size(); k++)
          if (g[k].constData() == p.constData()) return g[k];
      return p;
    default: return utils::to3D(utils::to2D(p));
  }
}
template <typename LS>
typename LS::PointType as(const Point3d& p) {
  return typename LS::PointType(p);
}
// one modification of the points of a line string or polygon through the given handle; v: the points in the handle's order
const int kNumLineSubs = 18;
const char* lineSub(i64 s) {
  static const char* n[] = {"push_back", "pop_back", "insert", "insert range", "erase", "assign vector", "shrink", "grow", "reserve", "element", "iterator", "front/back",
                            "reverse", "swap", "clear and refill", "move assign", "erase last", "insert at end"};
  return n[posMod(s, kNumLineSubs)];
}
void modelLine(std::vector<int>& v, i64 sub, size_t k, const std::vector<int>& add, size_t minSize) {
  size_t n = v.size();
  bool canDrop = n > minSize;
  size_t at = n ? k % n : 0, ins = k % (n + 1);
  switch (posMod(sub, kNumLineSubs)) {
    case 0: v.push_back(add[0]); break;
    case 1:
      if (canDrop) v.pop_back();
      break;
    case 2: v.insert(v.begin() + long(ins), add[0]); break;
    case 3: v.insert(v.begin() + long(ins), add.begin(), add.end()); break;
    case 4:
      if (canDrop) v.erase(v.begin() + long(at));
      break;
    case 5:
    case 14:
    case 15: v = add; break;
    case 6:
      if (canDrop) v.resize(std::max(minSize, at));
      break;
    case 7:
      for (int x : add) v.push_back(x);
      break;
    case 8: break;
    case 9:
    case 10:
      if (n) v[at] = add[0];
      break;
    case 11:
      if (n) (k & 1 ? v.front() : v.back()) = add[0];
      break;
    case 12: std::reverse(v.begin(), v.end()); break;
    case 13:
      if (n) std::swap(v[at], v[(k / 7) % n]);
      break;
    case 16:
      if (canDrop) v.erase(v.end() - 1);
      break;
    default: v.insert(v.end(), add[0]);
  }
}
template <typename LS>
void realLine(LS h, i64 sub, size_t k, const Points3d& add, size_t minSize) {
  size_t n = h.size();
  bool canDrop = n > minSize;
  size_t at = n ? k % n : 0, ins = k % (n + 1);
  auto same = [](const ConstPoint2d& a, const Point3d& b) { return a.constData() == b.constData(); };
  auto need = [](bool ok, const char* what) {
    if (ok) return;
    sim::Harness hm;
    fail("wrong-iterator", what);
  };
  std::vector<typename LS::PointType> pv;
  sub = posMod(sub, kNumLineSubs);
  if (sub == 3 || sub == 5 || sub == 14 || sub == 15)
    for (auto& p : add) pv.push_back(as<LS>(p));
  using D = typename LS::iterator::difference_type;
  switch (posMod(sub, kNumLineSubs)) {
    case 0: h.push_back(as<LS>(add[0])); break;
    case 1:
      if (canDrop) h.pop_back();
      break;
    case 2: {
      auto it = h.insert(h.begin() + D(ins), as<LS>(add[0]));
      need(same(ConstPoint2d(*it), add[0]), "insert returned an iterator to another point");
      break;
    }
    case 3: {
      auto it = h.insert(h.begin() + D(ins), pv.begin(), pv.end());
      if (h.inverted()) need(same(ConstPoint2d(*it), add.back()), "insert of a range into an inverted line string did not return the last inserted point");  // as the tests have it
      else need(it == h.begin() + D(ins) && same(ConstPoint2d(*it), add[0]), "insert of a range did not return the first inserted point");
      break;
    }
    case 4:
      if (canDrop) {
        auto it = h.erase(h.begin() + D(at));
        if (at + 1 == n) need(it == h.end(), "erase of the last point did not return the end");
        else need(it == h.begin() + D(at), "erase returned an iterator to another point");
      }
      break;
    case 5: static_cast<LineStringImpl<typename LS::ConstType>&>(h) = pv; break;
    case 6:
      if (canDrop) h.resize(std::max(minSize, at));
      break;
    case 7: {
      h.resize(n + add.size());
      need(h.size() == n + add.size() && h[n].id() == InvalId && h.back().id() == InvalId, "resize did not append invalid points");
      for (size_t i = 0; i < add.size(); i++) h[n + i] = as<LS>(add[i]);
      break;
    }
    case 8: h.reserve(n + k % 50); break;
    case 9:
      if (n) h[at] = as<LS>(add[0]);
      break;
    case 10:
      if (n) *(h.begin() + D(at)) = as<LS>(add[0]);
      break;
    case 11:
      if (n) (k & 1 ? h.front() : h.back()) = as<LS>(add[0]);
      break;
    case 12: std::reverse(h.begin(), h.end()); break;
    case 13:
      if (n) std::iter_swap(h.begin() + D(at), h.begin() + D((k / 7) % n));
      break;
    case 14: {
      h.reserve(add.size());
      h.clear();
      need(h.empty() && h.size() == 0 && h.begin() == h.end() && h.numSegments() == 0, "a cleared line string is not empty");
      for (auto& p : pv) h.push_back(p);
      break;
    }
    case 15: {
      auto& base = static_cast<LineStringImpl<typename LS::ConstType>&>(h);
      if constexpr (std::is_same_v<typename LS::PointType, Point2d>) {
        Points3d copy(add);
        base = std::move(copy);
      } else {
        base = pv;
      }
      break;
    }
    case 16:
      if (canDrop) h.erase(h.end() - 1);
      break;
    default: h.insert(h.end(), as<LS>(add[0]));
  }
}
bool isLine(const Param& q) { return q.kind == kL; }

Mut makeMut(World& w, const Op& op) {
  Mut m;
  const Spec& s = w.fs.s;
  Built& b = w.fx.b;
  const i64 kind = posMod(op.arg(0), kNumMut), a = op.arg(1), how = op.arg(2), sub = op.arg(3);
  Rng r(u64(op.arg(4)));
  m.what = fmt("%s[%lld] via %lld sub %lld", kMutName[kind], (long long)a, (long long)how, (long long)sub);
  auto ix = [&](size_t n) { return int(posMod(a, i64(n))); };
  auto someLine = [&] {
    Ref x{int(r.below(s.l.size())), r.chance(1, 3)};
    return x;
  };
  auto handle = [&b](Ref x) { return x.inv ? b.l[size_t(x.i)].invert() : b.l[size_t(x.i)]; };
  switch (kind) {
    case kPoint: {
      if (s.p.empty()) break;
      int i = ix(s.p.size());
      double d = r.chance(1, 6) ? double(r.range(-500, 500)) : double(r.range(-64, 64)) / 128;
      int c = int(posMod(sub, 7));
      const PtS& q = s.p[size_t(i)];
      double x = c == 0 || c >= 3 ? q.x + d : q.x, y = c == 1 || c >= 3 ? q.y - d : q.y, z = c == 2 || c == 3 || c == 6 ? q.z + d / 2 : q.z;
      m.model = [=](Spec& t) {
        t.p[size_t(i)].x = x;
        t.p[size_t(i)].y = y;
        t.p[size_t(i)].z = z;
      };
      m.real = [=, &w] {
        Point3d p = reachPoint(w, i, how);
        switch (c) {
          case 0: p.x() = x; break;
          case 1: utils::to2D(p).y() = y; break;
          case 2: p.z() = z; break;
          case 3: p.basicPoint() = BasicPoint3d(x, y, z); break;
          case 4: utils::to2D(p).basicPoint() = BasicPoint2d(x, y); break;
          case 5: {
            Point2d q2 = utils::to2D(p);
            q2.x() = x;
            utils::to3D(q2).y() = y;
            break;
          }
          default: {
            Point3d copy(p);
            copy.basicPoint().x() = x;
            p.basicPoint().y() = y;
            copy.z() = z;
          }
        }
      };
      break;
    }
    case kAttr: {
      size_t n = s.p.size() + s.l.size() + s.g.size() + s.t.size() + s.a.size();
      if (!n) break;
      size_t i = size_t(ix(n));
      auto attrsOf = [i](Spec& t) -> Attrs& {
        size_t k = i;
        if (k < t.p.size()) return t.p[k].a;
        k -= t.p.size();
        if (k < t.l.size()) return t.l[k].a;
        k -= t.l.size();
        if (k < t.g.size()) return t.g[k].a;
        k -= t.g.size();
        if (k < t.t.size()) return t.t[k].a;
        return t.a[k - t.t.size()].a;
      };
      const NameCase& name = kNames[r.below(u64(kNumNames))];
      std::string value = kValues[r.below(sizeof kValues / sizeof *kValues)];
      int c = int(posMod(sub, 12));  // 9, 10: in place, 11: as 8
      bool convert = r.chance(2, 3);
      if (c == 11) c = 8;
      Attrs all;
      if (c == 6 || c == 7)
        for (int k = int(r.below(7)); k > 0; k--) all[kNames[r.below(u64(kNumNames))].name] = kValues[r.below(sizeof kValues / sizeof *kValues)];
      const NameCase* nc = &name;
      m.what += fmt(" name '%s'", nc->name);
      if (c == 8) m.what += " through a regulatory element";
      m.model = [=](Spec& t) {
        Attrs& x = attrsOf(t);
        switch (c) {
          case 3: x.emplace(nc->name, value); break;
          case 4:
          case 5: x.erase(nc->name); break;
          case 6:
          case 7: x = all; break;
          case 9:
          case 10:
            if (x.count(nc->name)) x[nc->name] = value;
            break;
          default: x[nc->name] = value;
        }
      };
      m.real = [=, &w, &b] {
        auto act = [&](auto prim) {
          switch (c) {
            case 0:
              prim.setAttribute(nc->name, Attribute(value));
              break;
            case 1:
              if (nc->hasEnum) prim.setAttribute(nc->e, Attribute(value));
              else prim.setAttribute(nc->name, value);
              break;
            case 2:
              if (nc->hasEnum) prim.attributes()[nc->e] = value;
              else prim.attributes()[nc->name] = value;
              break;
            case 3: prim.attributes().insert(std::make_pair(std::string(nc->name), Attribute(value))); break;
            case 4: prim.attributes().erase(nc->name); break;
            case 5: {
              auto it = nc->hasEnum ? prim.attributes().find(nc->e) : prim.attributes().find(std::string(nc->name));
              if (it != prim.attributes().end()) prim.attributes().erase(it);
              break;
            }
            case 6: {
              AttributeMap x = toAttr(all);
              prim.attributes() = x;
              break;
            }
            case 7: prim.attributes() = toAttr(all); break;
            case 9:
            case 10: {
              auto it = prim.attributes().find(std::string(nc->name));
              if (it == prim.attributes().end()) break;
              if (convert) {  // so that there is something cached
                if (c == 9) it->second.asInt();
                else it->second.asVelocity();
                if (value.size() % 2) it->second.asBool();
              }
              Attribute copy(it->second), text(it->second.value());
              it->second.setValue(value);
              if (copy != text || copy.asInt() != text.asInt() || copy.asDouble() != text.asDouble() || copy.asBool() != text.asBool()) {
                sim::Harness hm;
                fail("copy-changed", fmt("copy of attribute '%s' after setValue on the original", nc->name));
              }
              break;
            }
            default: {
              auto copy = prim;
              AttributeMap x = copy.attributes();
              x[nc->name] = Attribute(value);
              prim.attributes() = std::move(x);
            }
          }
        };
        size_t k = i;
        const Spec& t = w.fs.s;
        if (k < t.p.size()) {
          Point3d p = reachPoint(w, int(k), how);
          return how & 1 ? act(utils::to2D(p)) : act(p);
        }
        k -= t.p.size();
        if (k < t.l.size()) {
          LineString3d l = reach(w, int(k), how);
          return how & 1 ? act(utils::to2D(l)) : act(l);
        }
        k -= t.l.size();
        if (k < t.g.size()) return how & 1 ? act(utils::to2D(b.g[k])) : act(b.g[k]);
        k -= t.g.size();
        if (k < t.t.size()) {
          if (how & 2) return act(*b.map->laneletLayer.find(b.t[k].id()));
          return how & 1 ? act(b.t[k].invert()) : act(b.t[k]);
        }
        k -= t.t.size();
        if (how & 2) return act(*b.map->areaLayer.find(b.a[k].id()));
        return act(b.a[k]);
      };
      if (c == 2) m.mayFail = false;  // the caller's two steps
      break;
    }
    case kLine:
    case kPoly: {
      const bool poly = kind == kPoly;
      if ((poly ? s.g.size() : s.l.size()) == 0 || s.p.empty()) break;
      int i = ix(poly ? s.g.size() : s.l.size());
      size_t k = size_t(r.below(1000));
      const size_t minSize = poly ? 3 : r.chance(1, 8) ? 1 : 2;
      std::vector<int> add;
      bool near = r.chance(2, 3);  // points from the same neighbourhood keep shapes sane
      auto& base = poly ? s.g[size_t(i)].pts : s.l[size_t(i)].pts;
      for (size_t c = size_t(r.range(i64(minSize), 6)); c > 0; c--) {
        int x = int(r.below(s.p.size()));
        if (near && !base.empty()) x = int(posMod(base[r.below(base.size())] + r.range(-3, 3), i64(s.p.size())));
        add.push_back(x);
      }
      bool two = how >= 10 || r.chance(1, 4);
      m.what += fmt(" %s%s", lineSub(sub), two ? " 2d" : "");
      if (posMod(sub, kNumLineSubs) == 14 || posMod(sub, kNumLineSubs) == 7) m.mayFail = posMod(sub, kNumLineSubs) == 7;
      if (poly) {
        m.model = [=](Spec& t) { modelLine(t.g[size_t(i)].pts, sub, k, add, minSize); };
        m.real = [=, &b] {
          Points3d pv;
          for (int x : add) pv.push_back(b.p[size_t(x)]);
          Polygon3d g = b.g[size_t(i)];
          if (how & 1) {
            auto it = b.map->polygonLayer.find(g.id());
            if (it != b.map->polygonLayer.end()) g = *it;
          }
          if (two) realLine(utils::to2D(g), sub, k, pv, minSize);
          else realLine(g, sub, k, pv, minSize);
        };
      } else {
        bool inv = lib([&] { return reach(w, i, how).inverted(); });
        m.model = [=](Spec& t) {
          auto& v = t.l[size_t(i)].pts;
          reversed(v, inv);
          modelLine(v, sub, k, add, minSize);
          reversed(v, inv);
        };
        m.real = [=, &w, &b] {
          Points3d pv;
          for (int x : add) pv.push_back(b.p[size_t(x)]);
          LineString3d l = reach(w, i, how);
          if (two) realLine(utils::to2D(l), sub, k, pv, minSize);
          else realLine(l, sub, k, pv, minSize);
        };
      }
      break;
    }
    case kBound:
    case kCenter: {
      if (s.t.empty() || s.l.empty()) break;
      int i = ix(s.t.size());
      Ref x = someLine();
      if (kind == kBound && r.chance(1, 2)) x = r.chance(1, 2) ? s.t[r.below(s.t.size())].left : s.t[r.below(s.t.size())].right;
      if (r.chance(1, 8)) x = r.chance(1, 2) ? s.t[size_t(i)].left : s.t[size_t(i)].right;  // perhaps the same one again
      bool inv = how & 1, left = sub & 1;
      auto target = [=, &b] {
        Lanelet t = b.t[size_t(i)];
        if (how & 2) t = *b.map->laneletLayer.find(t.id());
        return inv ? t.invert() : t;
      };
      m.what += fmt(" %s%s %lld%s", left ? "left" : "right", inv ? " inverted" : "", (long long)s.l[size_t(x.i)].id, x.inv ? "-" : "+");
      if (kind == kCenter) {
        m.model = [=](Spec& t) { t.t[size_t(i)].center = Ref{x.i, inv != x.inv}; };
        m.real = [=] { target().setCenterline(handle(x)); };
        break;
      }
      m.model = [=](Spec& t) {
        auto& e = t.t[size_t(i)];
        (left != inv ? e.left : e.right) = Ref{x.i, inv != x.inv};
      };
      m.real = [=] {
        Lanelet t = target();
        left ? t.setLeftBound(handle(x)) : t.setRightBound(handle(x));
      };
      break;
    }
    case kReset: {
      if (s.t.empty()) break;
      int i = ix(s.t.size());
      m.model = [](Spec&) {};
      m.real = [=, &b] { how & 1 ? ConstLanelet(b.t[size_t(i)]).resetCache() : ConstLanelet(b.t[size_t(i)].invert()).resetCache(); };
      break;
    }
    case kRegs: {
      if (s.r.empty() || s.t.size() + s.a.size() == 0) break;
      size_t i = size_t(ix(s.t.size() + s.a.size()));
      bool isArea = i >= s.t.size();
      if (isArea) i -= s.t.size();
      auto& have = isArea ? s.a[i].regs : s.t[i].regs;
      int reg = r.chance(1, 2) && !have.empty() ? have[r.below(have.size())] : int(r.below(s.r.size()));
      bool remove = sub & 1;
      bool there = std::find(have.begin(), have.end(), reg) != have.end();
      if (!remove && there) remove = true;
      m.model = [=](Spec& t) {
        auto& v = isArea ? t.a[i].regs : t.t[i].regs;
        if (!remove) v.push_back(reg);
        else if (there) v.erase(std::find(v.begin(), v.end(), reg));
      };
      m.real = [=, &b] {
        auto act = [&](auto prim) {
          if (!remove) return prim.addRegulatoryElement(b.r[size_t(reg)]);
          bool was = prim.removeRegulatoryElement(b.r[size_t(reg)]);
          sim::Harness hm;
          if (was != there) fail("wrong-return", fmt("removeRegulatoryElement returned %d", int(was)));
        };
        if (isArea) act(b.a[i]);
        else act(how & 1 ? b.t[i].invert() : b.t[i]);
      };
      break;
    }
    case kAreaBound: {
      if (s.a.empty() || s.l.empty()) break;
      int i = ix(s.a.size());
      bool inner = sub & 1;
      std::vector<Ref> ring = r.chance(1, 2) ? s.a[size_t(i)].outer : s.a[r.below(s.a.size())].outer;
      std::vector<std::vector<Ref>> rings = s.a[size_t(i)].inner;
      switch (r.below(4)) {
        case 0:
          if (!ring.empty()) std::rotate(ring.begin(), ring.begin() + 1, ring.end());
          break;
        case 1:
          std::reverse(ring.begin(), ring.end());
          for (auto& x : ring) x.inv = !x.inv;
          break;
        case 2: ring.push_back(someLine()); break;
        default: ring = {someLine(), someLine()};
      }
      if (!rings.empty() && r.chance(1, 2)) {  // another ring of the same size in place of one
        auto& old = rings[r.below(rings.size())];
        if (old.size() > 1 && r.chance(1, 2)) std::rotate(old.begin(), old.begin() + 1, old.end());
        else if (!old.empty()) old[r.below(old.size())] = someLine();
      } else if (r.chance(1, 3) && !rings.empty()) rings.erase(rings.begin() + long(r.below(rings.size())));
      else rings.push_back(ring);
      auto real = [=, &b](const std::vector<Ref>& v) {
        LineStrings3d o;
        for (auto& x : v) o.push_back(x.inv ? b.l[size_t(x.i)].invert() : b.l[size_t(x.i)]);
        return o;
      };
      m.what += inner ? " inner" : " outer";
      m.model = [=](Spec& t) {
        if (inner) t.a[size_t(i)].inner = rings;
        else t.a[size_t(i)].outer = ring;
      };
      m.real = [=, &b] {
        Area x = b.a[size_t(i)];
        if (how & 1) x = *b.map->areaLayer.find(x.id());
        if (inner) {
          InnerBounds v;
          for (auto& e : rings) v.push_back(real(e));
          x.setInnerBounds(v);
        } else {
          x.setOuterBound(real(ring));
        }
      };
      break;
    }
    default: {
      if (s.r.empty()) break;
      int i = ix(s.r.size());
      const ReS& rs = s.r[size_t(i)];
      RegulatoryElementPtr reg = how & 1 ? *b.map->regulatoryElementLayer.find(b.r[size_t(i)]->id()) : b.r[size_t(i)];
      auto params = [&](const char* role) {
        auto it = rs.params.find(role);
        return it == rs.params.end() ? std::vector<Param>() : it->second;
      };
      // something to add, or (often) something that is there to remove
      auto lineOrPoly = [&](const char* role, bool existing) {
        std::vector<Param> v = params(role);
        v.erase(std::remove_if(v.begin(), v.end(), [](const Param& q) { return q.kind != kL && q.kind != kG; }), v.end());
        if (existing && !v.empty() && r.chance(3, 4)) return v[r.below(v.size())];
        if (!s.g.empty() && r.chance(1, 3)) return Param{kG, int(r.below(s.g.size())), false};
        Ref x = s.l.empty() ? Ref{} : someLine();
        return Param{kL, x.i, x.inv};
      };
      auto onlyLine = [&](const char* role, bool existing) {
        std::vector<Param> v = params(role);
        v.erase(std::remove_if(v.begin(), v.end(), [](const Param& q) { return q.kind != kL; }), v.end());
        if (existing && !v.empty() && r.chance(3, 4)) return v[r.below(v.size())];
        Ref x = someLine();
        return Param{kL, x.i, x.inv};
      };
      auto aLanelet = [&](const char* role, bool existing) {
        auto v = params(role);
        if (existing && !v.empty() && r.chance(3, 4)) return v[r.below(v.size())];
        return Param{kT, int(r.below(s.t.size())), false};
      };
      auto lop = [&b](const Param& q) {
        if (q.kind == kG) return LineStringOrPolygon3d(b.g[size_t(q.i)]);
        return LineStringOrPolygon3d(q.inv ? b.l[size_t(q.i)].invert() : b.l[size_t(q.i)]);
      };
      auto line = [&b](const Param& q) { return q.inv ? b.l[size_t(q.i)].invert() : b.l[size_t(q.i)]; };
      auto same = [](const Param& x, const Param& y) { return x.kind == y.kind && x.i == y.i && x.inv == y.inv; };
      auto addTo = [i](const char* role, Param q) -> Model {
        return [=](Spec& t) { t.r[size_t(i)].params[role].push_back(q); };
      };
      auto setOne = [i](const char* role, Optional<Param> q) -> Model {
        return [=](Spec& t) {
          auto& v = t.r[size_t(i)].params[role];
          v.clear();
          if (!!q) v.push_back(*q);
        };
      };
      bool there = false;
      auto removeFrom = [&](const char* role, Param q) -> Model {
        auto v = params(role);
        there = std::any_of(v.begin(), v.end(), [&](const Param& x) { return same(x, q); });
        return [=](Spec& t) {
          auto& p = t.r[size_t(i)].params[role];
          auto it = std::find_if(p.begin(), p.end(), [&](const Param& x) { return same(x, q); });
          if (it != p.end()) p.erase(it);
        };
      };
      auto want = [](bool got, bool exp) {
        if (got == exp) return;
        sim::Harness hm;
        fail("wrong-return", fmt("a remove function returned %d although the parameter was %spresent", int(got), exp ? "" : "not "));
      };
      if (s.l.empty() || s.t.empty()) break;
      if (rs.rule == "traffic_light") {
        auto tl = std::dynamic_pointer_cast<TrafficLight>(reg);
        if (!tl) fail("wrong-type", "a traffic light is not one");
        switch (posMod(sub, 4)) {
          case 0: {
            Param q = lineOrPoly("refers", false);
            m.model = addTo("refers", q);
            m.real = [=] { tl->addTrafficLight(lop(q)); };
            break;
          }
          case 1: {
            Param q = lineOrPoly("refers", true);
            m.model = removeFrom("refers", q);
            m.real = [=] { want(tl->removeTrafficLight(lop(q)), there); };
            break;
          }
          case 2: {
            Param q = onlyLine("ref_line", false);
            m.model = setOne("ref_line", q);
            m.real = [=] { tl->setStopLine(line(q)); };
            break;
          }
          default:
            m.model = setOne("ref_line", {});
            m.real = [=] { tl->removeStopLine(); };
        }
      } else if (rs.rule == "right_of_way") {
        auto rw = std::dynamic_pointer_cast<RightOfWay>(reg);
        if (!rw) fail("wrong-type", "a right of way is not one");
        bool row = sub & 8;
        const char* role = row ? "right_of_way" : "yield";
        switch (posMod(sub, 4)) {
          case 0: {
            Param q = aLanelet(role, false);
            m.model = addTo(role, q);
            m.real = [=, &b] { row ? rw->addRightOfWayLanelet(b.t[size_t(q.i)]) : rw->addYieldLanelet(b.t[size_t(q.i)]); };
            break;
          }
          case 1: {
            Param q = aLanelet(role, true);
            m.model = removeFrom(role, q);
            m.real = [=, &b] { want(row ? rw->removeRightOfWayLanelet(b.t[size_t(q.i)]) : rw->removeYieldLanelet(b.t[size_t(q.i)]), there); };
            break;
          }
          case 2: {
            Param q = onlyLine("ref_line", false);
            m.model = setOne("ref_line", q);
            m.real = [=] { rw->setStopLine(line(q)); };
            break;
          }
          default:
            m.model = setOne("ref_line", {});
            m.real = [=] { rw->removeStopLine(); };
        }
      } else if (rs.rule == "all_way_stop") {
        auto aw = std::dynamic_pointer_cast<AllWayStop>(reg);
        if (!aw) fail("wrong-type", "an all way stop is not one");
        switch (posMod(sub, 4)) {
          case 0:
          case 1: {
            Param q = aLanelet("yield", false);
            bool withLine = params("ref_line").empty() ? r.chance(1, 4) : r.chance(3, 4);
            Param l = onlyLine("ref_line", false);
            bool has = !params("ref_line").empty(), any = !params("yield").empty();
            if ((!has && any && withLine) || (has && !withLine)) m.expect = "InvalidInputError";
            m.model = [=](Spec& t) {
              t.r[size_t(i)].params["yield"].push_back(q);
              if (withLine) t.r[size_t(i)].params["ref_line"].push_back(l);
            };
            m.real = [=, &b] {
              LaneletWithStopLine x{b.t[size_t(q.i)], {}};
              if (withLine) x.stopLine = line(l);
              aw->addLanelet(x);
            };
            break;
          }
          case 2: {
            Param q = aLanelet("yield", true);
            auto v = params("yield");
            size_t k = 0;
            while (k < v.size() && !same(v[k], q)) k++;
            there = k < v.size();
            m.model = [=](Spec& t) {
              auto& p = t.r[size_t(i)].params;
              if (k >= p["yield"].size()) return;
              p["yield"].erase(p["yield"].begin() + long(k));
              if (!p["ref_line"].empty()) p["ref_line"].erase(p["ref_line"].begin() + long(k));
            };
            bool was = there;
            m.real = [=, &b] { want(aw->removeLanelet(b.t[size_t(q.i)]), was); };
            break;
          }
          default: {
            bool rem = sub & 8;
            Param q = lineOrPoly("refers", rem);
            m.model = rem ? removeFrom("refers", q) : addTo("refers", q);
            m.real = [=] {
              if (rem) want(aw->removeTrafficSign(lop(q)), there);
              else aw->addTrafficSign(lop(q));
            };
          }
        }
      } else if (rs.rule == "traffic_sign" || rs.rule == "speed_limit") {
        auto ts = std::dynamic_pointer_cast<TrafficSign>(reg);
        if (!ts) fail("wrong-type", "a traffic sign is not one");
        bool rem = sub & 8;
        switch (posMod(sub, 4)) {
          case 0: {
            Param q = lineOrPoly("refers", rem);
            m.model = rem ? removeFrom("refers", q) : addTo("refers", q);
            m.real = [=] {
              if (rem) want(ts->removeTrafficSign(lop(q)), there);
              else ts->addTrafficSign(lop(q));
            };
            break;
          }
          case 1: {
            Param q = onlyLine("ref_line", rem);
            m.model = rem ? removeFrom("ref_line", q) : addTo("ref_line", q);
            m.real = [=] {
              if (rem) want(ts->removeRefLine(line(q)), there);
              else ts->addRefLine(line(q));
            };
            break;
          }
          case 2: {
            Param q = lineOrPoly("cancels", rem);
            m.model = rem ? removeFrom("cancels", q) : addTo("cancels", q);
            m.real = [=] {
              if (rem) want(ts->removeCancellingTrafficSign(lop(q)), there);
              else ts->addCancellingTrafficSign(TrafficSignsWithType{{lop(q)}, ""});
            };
            break;
          }
          default: {
            Param q = onlyLine("cancel_line", rem);
            m.model = rem ? removeFrom("cancel_line", q) : addTo("cancel_line", q);
            m.real = [=] {
              if (rem) want(ts->removeCancellingRefLine(line(q)), there);
              else ts->addCancellingRefLine(line(q));
            };
          }
        }
      }
      m.what += " " + rs.rule;
    }
  }
  return m;
}
// ------------------------------------------------------------------ reading
void judgeAll(World& w, const char* when) {
  Dump d = lib([&] { return dumpBuilt(w.fx.b); });
  expectEq("handle-stale", fmt("%s: objects", when), dumpSpec(w.fs.s), d);
  Dump dm = lib([&] { return dumpMap(*w.fx.b.map); });
  expectEq("handle-stale", fmt("%s: objects found in the map", when), dumpSpec(w.fs.s), dm);
}
void judgeNames(World& w, const char* when) {
  std::string e = lib([&] { return checkNames(w.fx); });
  if (!e.empty()) fail("name-and-enum-disagree", fmt("%s: ", when) + e);
}
void judgeTyped(World& w, i64 a, i64 var) {
  const Built& b = w.fx.b;
  std::string e;
  Res res = attempt([&] {
    std::string o;
    size_t n = b.p.size() + b.l.size() + b.g.size() + b.t.size() + b.a.size();
    size_t k = n ? size_t(posMod(a, i64(n))) : 0;
    if (k < b.p.size()) o = typedText(b.p[k], var);
    else if ((k -= b.p.size()) < b.l.size()) o = typedText(b.l[k], var);
    else if ((k -= b.l.size()) < b.g.size()) o = typedText(b.g[k], var);
    else if ((k -= b.g.size()) < b.t.size()) o = typedText(b.t[k], var);
    else if ((k -= b.t.size()) < b.a.size()) o = typedText(b.a[k], var);
    sim::Harness hm;
    e = o;
  });
  if (!res.ok()) fail("read-threw", "typed attribute: " + res.text());
  count("probe.typed");
  if (!e.empty()) fail("conversion-stale", e);
}
void judgeRead(World& w, i64 kind, i64 idx, i64 var) {
  kind = posMod(kind, kNumPrimKinds);
  if (kind == 0 || kind == 2 || kind == 16) return;
  if (kind == 10 && (posMod(var, 10) == 2 || posMod(var, 10) == 8)) return;  // has its own cache
  if (kind == 8 && posMod(var, 6) == 4) {  // whether roles without parameters count is not specified
    const Spec& t = w.fs.s;
    if (!t.r.empty()) {
      auto& ps = t.r[size_t(posMod(idx, i64(t.r.size())))].params;
      if (std::all_of(ps.begin(), ps.end(), [](auto& e) { return e.second.empty(); })) return;
    }
  }
  std::string want;
  if (kind == 10) {
    FixSpec old = w.fs;
    for (size_t k = 0; k < old.seq.size(); k++) {
      old.s.t[size_t(old.seq[k])].left = w.seqLeft[k];
      old.s.t[size_t(old.seq[k])].right = w.seqRight[k];
    }
    want = wantPrim(old, kind, idx, var);
  } else {
    want = wantPrim(w.fs, kind, idx, var);
  }
  std::string got;
  Res res = attempt([&] {
    auto t = readPrim(w.fx, kind, idx, var);
    sim::Harness hm;
    got = t;
  });
  if (!res.ok()) {
    // the type of a traffic sign whose sign has no subtype (any more) is documented to throw
    if (kind == 9 && want.empty() && res.ex == Ex::Lanelet) return;
    fail("read-threw", describePrim(kind, idx, var) + ": " + res.text());
  }
  count(fmt("probe.read.%lld", (long long)kind).c_str());
  if (kind == 7 && want.empty() && !w.fs.s.a.empty()) {  // compare with an area made from the same bounds now
    int i = int(posMod(idx, i64(w.fs.s.a.size())));
    Fix one;
    want = lib([&] {
      Fix f;
      Area x = w.fx.b.a[size_t(i)];
      f.b.a.push_back(Area(x.id(), x.outerBound(), x.innerBounds()));
      return readPrim(f, kind, 0, var);
    });
  } else if (want.empty()) {
    return;
  }
  if (want != got) fail("view-stale", describePrim(kind, idx, var) + "\n  want " + want + "\n  got  " + got);
}
void judgeCenter(World& w, i64 a, i64 var) {
  const Spec& s = w.fs.s;
  if (s.t.empty()) return;
  int i = int(posMod(a, i64(s.t.size())));
  auto& t = s.t[size_t(i)];
  std::string got, inv;
  bool custom = false;
  Id id = 0;
  Res res = attempt([&] {
    ConstLanelet l = w.fx.b.t[size_t(i)];
    ConstLineString3d c = var & 1 ? l.invert().centerline().invert() : var & 2 ? utils::to3D(l.centerline2d()) : l.centerline();
    bool cu = l.hasCustomCenterline();
    ConstLineString3d ci = l.invert().centerline();
    auto x = lineText(c), y = lineText(ci.invert());
    sim::Harness hm;
    got = x, inv = y, custom = cu, id = c.id();
  });
  if (!res.ok()) fail("read-threw", "centerline: " + res.text());
  count("probe.centerline");
  if (custom != (t.center.i >= 0)) fail("custom-flag", fmt("lanelet %lld says custom centerline %d", (long long)t.id, int(custom)));
  std::string want;
  if (custom) {
    want = lib([&] {
      LineString3d l = w.fx.b.l[size_t(t.center.i)];
      return lineText(t.center.inv ? l.invert() : l);
    });
    if (id != s.l[size_t(t.center.i)].id) fail("centerline-stale", "the custom centerline is another line string");
    if (want != got || want != inv) fail("centerline-stale", fmt("lanelet %lld custom centerline\n  want ", (long long)t.id) + want + "\n  got  " + got + "\n  inv  " + inv);
    return;
  }
  want = lib([&] {
    Lanelet x = w.fx.b.t[size_t(i)];
    return lineText(ConstLanelet(Lanelet(1, x.invert().invert().leftBound(), x.rightBound())).centerline());
  });
  auto& seen = w.seen[size_t(i)];
  if (got != inv) fail("centerline-stale", "a lanelet and its inverted handle see different centerlines\n  " + got + "\n  " + inv);
  if (got != want && (seen.empty() || seen[0] != got))
    fail("centerline-stale", fmt("lanelet %lld\n  want ", (long long)t.id) + want + (seen.empty() ? "" : "\n  or   " + seen[0]) + "\n  got  " + got);
  if (got != want) count("probe.centerline_cached");
  seen.assign(1, got);
}
void run(Ctx& c) {
  World w;
  w.fs = makeFixSpec(genNet(c.plan), u64(c.plan.c("_fix")));
  w.fx = makeFix(w.fs, u64(c.plan.c("_order")));
  buildMap(w.fs.s, w.fx.b, int(c.plan.c("_how")) % 3, u64(c.plan.c("_order")));
  for (int t : w.fs.seq) {
    w.seqLeft.push_back(w.fs.s.t[size_t(t)].left);
    w.seqRight.push_back(w.fs.s.t[size_t(t)].right);
  }
  w.seen.resize(w.fs.s.t.size());
  judgeAll(w, "before");
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  int applied = 0, failed = 0, refused = 0;
  std::string last = "nothing yet";
  runClients(n, [&](int me) {
    for (auto& op : c.plan.ops) {
      if (op.client % n != me) continue;
      lib([&] { w.turn.lock(); return 0; });
      if (op.name == "all") judgeAll(w, ("after " + last).c_str());
      else if (op.name == "names") judgeNames(w, ("after " + last).c_str());
      else if (op.name == "rd") judgeRead(w, op.arg(0), op.arg(1), op.arg(2));
      else if (op.name == "ty") judgeTyped(w, op.arg(0), op.arg(1));
      else if (op.name == "cl") judgeCenter(w, op.arg(0), op.arg(1));
      else if (op.name == "m") {
        Mut m = makeMut(w, op);
        if (m.real) {
          last = m.what;
          Spec next = w.fs.s;
          m.model(next);
          bool armed = op.a.size() > 6 && m.mayFail;
          Res res = attempt([&] {
            if (armed) armAllocFault(u64(posMod(op.arg(5), 1000)), u64(std::max<i64>(1, op.arg(6))));
            try {
              m.real();
            } catch (...) {
              disarmAllocFault();
              throw;
            }
            disarmAllocFault();
          });
          i64 kind = posMod(op.arg(0), kNumMut);
          count(fmt("probe.mut.%s", kMutName[kind]).c_str());
          // caches that were dropped
          auto dropSeen = [&](bool surely) {
            if (kind == kReset) {
              if (surely) w.seen[size_t(posMod(op.arg(1), i64(w.fs.s.t.size())))].clear();
            } else if (kind == kBound || kind == kCenter) {
              size_t i = size_t(posMod(op.arg(1), i64(w.fs.s.t.size())));
              auto& x = w.fs.s.t[i];
              auto& y = next.t[i];
              if (surely && (x.left.i != y.left.i || x.left.inv != y.left.inv || x.right.i != y.right.i || x.right.inv != y.right.inv)) w.seen[i].clear();
            }
          };
          if (res.ok()) {
            if (m.expect) fail("not-refused", m.what + ": should have thrown " + m.expect);
            dropSeen(true);
            w.fs.s = std::move(next);
            applied++;
            if (kind == kAreaBound)
              for (i64 v = 1; v < 5; v++) judgeRead(w, 7, op.arg(1), v);
            if (kind == kAttr) judgeTyped(w, op.arg(1), op.arg(4) % 5);
          } else if (res.ex == Ex::BadAlloc && armed) {
            failed++;
            count("probe.failed_modification");
            Dump now = lib([&] { return dumpBuilt(w.fx.b); });
            if (!diff(dumpSpec(w.fs.s), now).empty()) {
              std::string e = diff(dumpSpec(next), now);
              if (!e.empty()) fail("half-done", "failed with out of memory and left neither the old nor the new state: " + m.what + "\n" + e + "\nagainst the old state\n" + diff(dumpSpec(w.fs.s), now));
              dropSeen(true);
              w.fs.s = std::move(next);
            }
            judgeAll(w, ("after failed " + m.what).c_str());
            judgeNames(w, ("after failed " + m.what).c_str());
            for (i64 v = 1; v < 5; v++)
              if (kind == kAreaBound) judgeRead(w, 7, op.arg(1), v);
          } else if (m.expect && res.ex == Ex::Lanelet && res.type.find(m.expect) != std::string::npos) {
            refused++;
          } else {
            fail("modification-threw", m.what + ": " + res.text());
          }
        }
      }
      lib([&] { w.turn.unlock(); return 0; });
    }
  });
  judgeAll(w, "at the end");
  judgeNames(w, "at the end");
  for (size_t i = 0; i < w.fs.s.t.size(); i++) judgeCenter(w, i64(i), i64(i % 4));
  for (i64 i = 0; i < i64(std::min<size_t>(w.fs.s.total(), 200)); i++) judgeTyped(w, i, i % 5);
  for (i64 k = 1; k < kNumPrimKinds; k++) {
    size_t m = k == 5 ? w.fs.s.l.size() : k == 12 ? w.fs.s.p.size() : k == 10 || k == 11 ? 1 : k == 6 ? w.fs.s.g.size() : k == 7 ? w.fs.s.a.size() : k == 8 || k == 9 ? w.fs.s.r.size() : w.fs.s.t.size();
    for (size_t i = 0; i < std::min<size_t>(m, 12); i++)
      for (i64 v = 0; v < 10; v++) judgeRead(w, k, i64(i), v);
  }
  if (applied + failed) markNontrivial();
  sample(fmt("clients=%d modifications=%d failed=%d refused=%d elements=%zu", n, applied, failed, refused, w.fs.s.total()));
  dropFix(w.fx);
}
RegisterScenario reg("C12", gen, run);
}  // namespace
}  // namespace h
