// C11: a history of additions to several maps and submaps that share elements, with failing calls in between; after
// every step each container is compared with a set model and its lookups with a plain scan.
#include <lanelet2_core/Exceptions.h>

#include "map_util.h"

using namespace lanelet;
namespace h {
namespace {
// ops: add target kind idx [nth len] (memory fails at the nth allocation) | many target seed n | twin target kind idx |
//      null target | create target seed | tomap sub target | move map sub | attach lanelet reg
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)) == 0 ? 1 : 0);
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["maps"] = r.range(1, 3);
  p.cfg["subs"] = r.range(0, 2);
  p.cfg["noid"] = r.chance(1, 2) ? r.range(0, 60) : 0;
  p.cfg["_noid"] = i64(r.below(100000));
  int n = int(p.cfg["maps"] + p.cfg["subs"]);
  bool oom = r.chance(1, 4);
  auto target = [&] { return i64(r.below(u64(n))); };
  auto kind = [&] { return i64(r.chance(1, 2) ? r.range(mT, mR) : r.below(6)); };
  i64 hotIdx = i64(r.below(100)), hotKind = kind();
  for (int k = int(r.range(3, 14)); k > 0; k--) {
    switch (r.below(14)) {
      case 0: p.op(0, "twin", {target(), kind(), i64(r.below(100)), i64(r.below(2))}); break;
      case 1: p.op(0, "null", {target()}); break;
      case 2: p.op(0, "create", {target(), i64(r.below(100000))}); break;
      case 3: p.op(0, "tomap", {i64(r.below(2)), i64(r.below(3)), i64(r.below(2))}); break;
      case 4: p.op(0, "move", {i64(r.below(3)), i64(r.below(2)), i64(r.below(2))}); break;
      case 5: p.op(0, "attach", {i64(r.below(100)), i64(r.below(100)), i64(r.below(2))}); break;
      case 6:
      case 7: p.op(0, "many", {target(), i64(r.below(100000)), r.range(1, 30)}); break;
      default: {
        std::vector<i64> a{target(), kind(), i64(r.below(100))};
        if (r.chance(1, 3)) a[1] = hotKind, a[2] = hotIdx;
        if (oom && r.chance(1, 2)) a.push_back(i64(r.below(r.chance(1, 2) ? 8 : 200))), a.push_back(r.chance(1, 2) ? 1 : i64(r.range(2, 1000)));
        p.op(0, "add", a);
      }
    }
  }
}
struct Elem {
  int k, i;
  bool operator<(const Elem& o) const { return k != o.k ? k < o.k : i < o.i; }
};
std::vector<Elem> partsOf(const Spec& s, Elem e) {
  std::vector<Elem> v;
  size_t i = size_t(e.i);
  switch (e.k) {
    case mL:
    case mG:
      for (int x : (e.k == mL ? s.l : s.g)[i].pts) v.push_back({mP, x});
      break;
    case mT:
      v.push_back({mL, s.t[i].left.i});
      v.push_back({mL, s.t[i].right.i});
      if (s.t[i].center.i >= 0) v.push_back({mL, s.t[i].center.i});
      for (int x : s.t[i].regs) v.push_back({mR, x});
      break;
    case mA:
      for (auto& x : s.a[i].outer) v.push_back({mL, x.i});
      for (auto& in : s.a[i].inner)
        for (auto& x : in) v.push_back({mL, x.i});
      for (int x : s.a[i].regs) v.push_back({mR, x});
      break;
    case mR:
      for (auto& role : s.r[i].params)
        for (auto& q : role.second) v.push_back({q.kind, q.i});
      break;
    default: break;
  }
  return v;
}
std::set<Elem> closureOf(const Spec& s, const std::vector<Elem>& from) {
  std::set<Elem> seen(from.begin(), from.end());
  std::vector<Elem> todo = from;
  while (!todo.empty()) {
    Elem e = todo.back();
    todo.pop_back();
    for (auto& x : partsOf(s, e))
      if (seen.insert(x).second) todo.push_back(x);
  }
  return seen;
}
size_t totalOf(const Spec& s, int k) {
  const size_t n[] = {s.p.size(), s.l.size(), s.g.size(), s.t.size(), s.a.size(), s.r.size()};
  return n[k];
}
Id& idRef(Spec& s, int k, int i) {
  size_t n = size_t(i);
  switch (k) {
    case mP: return s.p[n].id;
    case mL: return s.l[n].id;
    case mG: return s.g[n].id;
    case mT: return s.t[n].id;
    case mA: return s.a[n].id;
    default: return s.r[n].id;
  }
}
Id realId(const Built& b, int k, int i) {
  size_t n = size_t(i);
  return lib([&] {
    switch (k) {
      case mP: return b.p[n].id();
      case mL: return b.l[n].id();
      case mG: return b.g[n].id();
      case mT: return b.t[n].id();
      case mA: return b.a[n].id();
      default: return b.r[n]->id();
    }
  });
}
const char* kindName(int k) {
  static const char* n[] = {"point", "line string", "polygon", "lanelet", "area", "regulatory element"};
  return n[k];
}
struct Target {
  LaneletMapUPtr map;
  LaneletSubmapUPtr sub;
  MapModel m;
  bool starved = false;  // an addition ran out of memory and was not repeated yet
  bool lookups = true;   // memory was back at once, so that the lookups are expected to be right
  std::set<Elem> maybe;  // what it may have left behind
  LaneletMapLayers& layers() { return map ? static_cast<LaneletMapLayers&>(*map) : *sub; }
};
struct World {
  Spec s;
  Built b;
  std::vector<Target> t;
  int maps = 1, subs = 0;
  u64 seed = 1;
  bool has(const Target& t, Elem e) const { return t.m.in[e.k].count(e.i) > 0; }
  bool anywhere(Elem e) const {
    for (auto& x : t)
      if (has(x, e) || x.maybe.count(e)) return true;
    return false;
  }
  bool ided(const std::vector<Elem>& v) {
    for (auto& e : v)
      if (idRef(s, e.k, e.i) == InvalId) return false;
    return true;
  }
  // ids handed out by the library become known; they must be fresh
  void readIds(const char* when) {
    std::map<std::pair<int, Id>, int> seen;
    for (int k = 0; k < 6; k++)
      for (size_t i = 0; i < totalOf(s, k); i++) {
        Id& id = idRef(s, k, int(i));
        Id now = realId(b, k, int(i));
        if (id != InvalId && now != id) fail("id-changed", fmt("%s %lld has id %lld after %s", kindName(k), (long long)id, (long long)now, when));
        if (id == InvalId && now != InvalId) count("probe.id_assigned");
        id = now;
      }
    std::map<Id, std::pair<int, size_t>> ids;
    for (int k = 0; k < 6; k++)
      for (size_t i = 0; i < totalOf(s, k); i++) {
        Id id = idRef(s, k, int(i));
        if (id != InvalId && !seen.insert({{k, id}, int(i)}).second) fail("id-twice", fmt("two %ss have id %lld after %s", kindName(k), (long long)id, when));
      }
  }
  std::string name(size_t t) const { return int(t) < maps ? fmt("map %zu", t) : fmt("submap %zu", t - size_t(maps)); }
  void check(size_t n, const std::string& after) {
    Target& x = t[n];
    readIds(after.c_str());
    LaneletMapLayers& l = x.layers();
    if (x.starved) {  // what is there by id now
      MapModel now;
      now.s = &s;
      now.full = x.m.full;
      for (int k = 0; k < 6; k++)
        for (size_t i = 0; i < totalOf(s, k); i++) {
          Id id = idRef(s, k, int(i));
          bool there = id != InvalId && lib([&] {
            switch (k) {
              case mP: return l.pointLayer.exists(id);
              case mL: return l.lineStringLayer.exists(id);
              case mG: return l.polygonLayer.exists(id);
              case mT: return l.laneletLayer.exists(id);
              case mA: return l.areaLayer.exists(id);
              default: return l.regulatoryElementLayer.exists(id);
            }
          });
          Elem e{k, int(i)};
          if (!there && has(x, e)) fail("element-lost", fmt("%s lost %s %lld although only a later addition failed (%s)", name(n).c_str(), kindName(k), (long long)id, after.c_str()));
          if (there && !has(x, e) && !x.maybe.count(e)) fail("element-foreign", fmt("%s has %s %lld which was never added (%s)", name(n).c_str(), kindName(k), (long long)id, after.c_str()));
          if (there) now.in[k].insert(int(i));
        }
      std::string e = x.lookups ? checkWholeMap(l, b, now, mix(seed, n), 8) : "";
      if (!e.empty()) fail("lookup-after-failure", fmt("%s: lookups disagree after an addition ran out of memory: %s", name(n).c_str(), e.c_str()));
      return;
    }
    std::string e = checkWholeMap(l, b, x.m, mix(seed, n), 10);
    if (e.empty() && x.map) {
      e = closure(*x.map);
    }
    if (!e.empty()) fail("map-content", fmt("%s after %s: %s", name(n).c_str(), after.c_str(), e.c_str()));
    seed = mix(seed, 5);
  }
  void addReal(Target& x, Elem e) {
    size_t i = size_t(e.i);
    auto doit = [&](auto& m) {
      switch (e.k) {
        case mP: m.add(b.p[i]); break;
        case mL: m.add((i + seed) % 5 ? b.l[i] : b.l[i].invert()); break;
        case mG: m.add(b.g[i]); break;
        case mT: m.add(b.t[i]); break;
        case mA: m.add(b.a[i]); break;
        default: m.add(b.r[i]); break;
      }
    };
    if (x.map) doit(*x.map);
    else doit(*x.sub);
  }
  bool addable(const Target& x, Elem e) {  // submaps and their lookups expect parts with ids
    return x.m.full || ided(partsOf(s, e));
  }
  std::set<Elem> effect(const Target& x, Elem e) { return x.m.full ? closureOf(s, {e}) : std::set<Elem>{e}; }
  void reset(Target& x, bool full) {
    x.m = MapModel{};
    x.m.s = &s;
    x.m.full = full;
    x.starved = false;
    x.maybe.clear();
  }
};
// another object with the id of e
void addTwin(World& w, Target& x, Elem e) {
  Id id = idRef(w.s, e.k, e.i);
  auto doit = [&](auto& m) {
    LineString3d a(utils::getId(), {Point3d(utils::getId(), 500, 0, 0), Point3d(utils::getId(), 510, 0, 0)});
    LineString3d b(utils::getId(), {Point3d(utils::getId(), 500, -3, 0), Point3d(utils::getId(), 510, -3, 0)});
    switch (e.k) {
      case mP: m.add(Point3d(id, 500, 500, 0)); break;
      case mL: m.add(LineString3d(id, {a[0], a[1]})); break;
      case mG: m.add(Polygon3d(id, {a[0], a[1], b[0]})); break;
      case mT: m.add(Lanelet(id, a, b)); break;
      case mA: m.add(Area(id, {a, b.invert()})); break;
      default: m.add(RegulatoryElementFactory::create("", std::make_shared<RegulatoryElementData>(id))); break;
    }
  };
  if (x.map) doit(*x.map);
  else doit(*x.sub);
}
void run(Ctx& c) {
  World w;
  w.s = genNet(c.plan);
  Rng r(u64(c.plan.c("_noid")));
  std::set<int> center;  // a centerline is only the user's own if it has an id
  for (auto& t : w.s.t) center.insert(t.center.i);
  if (c.plan.c("noid"))
    for (int k = 0; k < 6; k++)
      for (size_t i = 0; i < totalOf(w.s, k); i++)
        if (!(k == mL && center.count(int(i))) && r.below(100) < u64(c.plan.c("noid"))) idRef(w.s, k, int(i)) = InvalId;
  lib([&] {  // ids the user has chosen; those drawn later are different
    for (int k = 0; k < 6; k++)
      for (size_t i = 0; i < totalOf(w.s, k); i++) utils::registerId(idRef(w.s, k, int(i)));
    return 0;
  });
  w.b = buildObjects(w.s, u64(c.plan.c("_order")));
  w.seed = u64(c.plan.c("_order")) + 17;
  w.maps = std::max(1, int(c.plan.c("maps", 1)));
  w.subs = std::max(0, int(c.plan.c("subs")));
  w.t.resize(size_t(w.maps + w.subs));
  for (size_t i = 0; i < w.t.size(); i++) {
    bool full = int(i) < w.maps;
    w.reset(w.t[i], full);
    lib([&] {
      if (full) w.t[i].map = std::make_unique<LaneletMap>();
      else w.t[i].sub = std::make_unique<LaneletSubmap>();
      return 0;
    });
  }
  auto elem = [&](i64 k, i64 i) {
    Elem e{int(((k % 6) + 6) % 6), 0};
    for (int j = 0; j < 6 && totalOf(w.s, e.k) == 0; j++) e.k = (e.k + 1) % 6;
    e.i = int(u64(i) % std::max<size_t>(1, totalOf(w.s, e.k)));
    return e;
  };
  if (w.s.total() == 0) return;
  int adds = 0, again = 0;
  for (auto& op : c.plan.ops) {
    size_t ti = size_t(u64(op.arg(0)) % w.t.size());
    Target& x = w.t[ti];
    if (op.name == "add") {
      Elem e = elem(op.arg(1), op.arg(2));
      if (!w.addable(x, e)) continue;
      auto eff = w.effect(x, e);
      adds++;
      if (w.has(x, e)) again++, count("probe.added_again");
      bool starve = op.a.size() > 4;
      std::string what = fmt("adding %s no. %d", kindName(e.k), e.i);
      Res res = attempt([&] {
        if (starve) armAllocFault(u64(op.arg(3)), u64(op.arg(4)));
        struct Off {
          ~Off() { disarmAllocFault(); }
        } off;
        w.addReal(x, e);
      });
      if (starve && !res.ok()) {
        if (res.ex != Ex::BadAlloc) fail("wrong-exception", what + " without memory: " + res.text());
        count("fault.alloc");
        markNontrivial();
        x.starved = true;
        x.lookups = op.arg(4) == 1;
        for (auto& y : eff) x.maybe.insert(y);
        w.check(ti, what + " without memory");
        Res again2 = attempt([&] { w.addReal(x, e); });
        if (!again2.ok()) fail("add-failed", what + " once memory is back: " + again2.text());
        x.starved = false;
        x.maybe.clear();
        for (auto& y : eff) x.m.in[y.k].insert(y.i);
        w.check(ti, what + " once memory is back");
        count("probe.retry_complete");
        continue;
      }
      if (!res.ok()) fail("add-failed", what + ": " + res.text());
      for (auto& y : eff) x.m.in[y.k].insert(y.i);
      w.check(ti, what);
    } else if (op.name == "many") {
      Rng q(u64(op.arg(1)));
      for (i64 k = std::min<i64>(op.arg(2), 200); k > 0; k--) {
        Elem e = elem(i64(q.below(6)), i64(q.below(1000)));
        if (!w.addable(x, e)) continue;
        adds++;
        if (w.has(x, e)) again++;
        Res res = attempt([&] { w.addReal(x, e); });
        if (!res.ok()) fail("add-failed", res.text());
        for (auto& y : w.effect(x, e)) x.m.in[y.k].insert(y.i);
        w.readIds("adding");
      }
      w.check(ti, "several additions");
    } else if (op.name == "twin") {
      Elem e = elem(op.arg(1), op.arg(2));
      if (!w.has(x, e)) continue;
      Res res = attempt([&] { addTwin(w, x, e); });
      if (!res.ok()) fail("add-failed", "a second object with the same id: " + res.text());
      count("probe.twin");
      w.check(ti, fmt("adding another %s with id %lld", kindName(e.k), (long long)idRef(w.s, e.k, e.i)));
    } else if (op.name == "null") {
      Res res = attempt([&] {
        if (x.map) x.map->add(RegulatoryElementPtr());
        else x.sub->add(RegulatoryElementPtr());
      });
      if (res.ex != Ex::Lanelet) fail("null-accepted", "adding an empty regulatory element: " + res.text());
      count("probe.null");
      w.check(ti, "a refused addition");
    } else if (op.name == "create") {
      Rng q(u64(op.arg(1)));
      std::vector<Elem> pick[6];
      int how = int(q.below(7));  // points, line strings, polygons, lanelets, areas, both, const
      for (int k = 0; k < 6; k++)
        for (size_t i = 0; i < totalOf(w.s, k); i++)
          if (q.chance(1, 2)) pick[k].push_back({k, int(i)});
      std::vector<Elem> top;
      auto take = [&](int k) { top.insert(top.end(), pick[k].begin(), pick[k].end()); };
      if (how < 3) take(how);
      if (how == 3 || how >= 5) take(mT);
      if (how == 4 || how >= 5) take(mA);
      auto cl = closureOf(w.s, top);
      if (!w.ided(std::vector<Elem>(cl.begin(), cl.end()))) continue;
      Res res = attempt([&] {
        Points3d ps;
        LineStrings3d ls;
        Polygons3d gs;
        Lanelets ts;
        Areas as;
        for (auto& e : top) {
          size_t i = size_t(e.i);
          if (e.k == mP) ps.push_back(w.b.p[i]);
          if (e.k == mL) ls.push_back(w.b.l[i]);
          if (e.k == mG) gs.push_back(w.b.g[i]);
          if (e.k == mT) ts.push_back(w.b.t[i]);
          if (e.k == mA) as.push_back(w.b.a[i]);
        }
        if (x.map) {
          switch (how) {
            case 0: x.map = utils::createMap(ps); break;
            case 1: x.map = utils::createMap(ls); break;
            case 2: x.map = utils::createMap(gs); break;
            case 3: x.map = utils::createMap(ts); break;
            case 4: x.map = utils::createMap(as); break;
            default: x.map = utils::createMap(ts, as); break;
          }
        } else {
          switch (how) {
            case 0: x.sub = utils::createSubmap(ps); break;
            case 1: x.sub = utils::createSubmap(ls); break;
            case 2: x.sub = utils::createSubmap(gs); break;
            case 3: x.sub = utils::createSubmap(ts); break;
            case 4: x.sub = utils::createSubmap(as); break;
            default: x.sub = utils::createSubmap(ts, as); break;
          }
        }
      });
      if (!res.ok()) fail("add-failed", "creating: " + res.text());
      w.reset(x, x.m.full);
      if (x.m.full) top.assign(cl.begin(), cl.end());
      for (auto& y : top) x.m.in[y.k].insert(y.i);
      count("probe.create");
      w.check(ti, fmt("creating it (way %d) from %zu elements", how, top.size()));
    } else if (op.name == "tomap") {
      if (!w.subs) continue;
      Target& from = w.t[size_t(w.maps) + size_t(op.arg(0)) % size_t(w.subs)];
      size_t to = size_t(op.arg(1)) % size_t(w.maps);
      if (from.starved) continue;
      std::vector<Elem> top;
      for (int k = 0; k < 6; k++)
        for (int i : from.m.in[k]) top.push_back({k, i});
      auto cl = closureOf(w.s, top);
      if (!w.ided(std::vector<Elem>(cl.begin(), cl.end()))) continue;
      Res res = attempt([&] {
        if (op.arg(2)) {
          w.t[to].map = from.sub->laneletMap();
        } else {
          LaneletMapConstPtr cm = const_cast<const LaneletSubmap&>(*from.sub).laneletMap();
          w.t[to].map = std::make_unique<LaneletMap>(std::move(const_cast<LaneletMap&>(*cm)));
        }
      });
      if (!res.ok()) fail("add-failed", "turning a submap into a map: " + res.text());
      w.reset(w.t[to], true);
      for (auto& y : cl) w.t[to].m.in[y.k].insert(y.i);
      count("probe.submap_to_map");
      w.check(to, "turning a submap into it");
    } else if (op.name == "move") {
      if (!w.subs) continue;
      Target& from = w.t[size_t(op.arg(0)) % size_t(w.maps)];
      size_t to = size_t(w.maps) + size_t(op.arg(1)) % size_t(w.subs);
      if (from.starved) continue;
      Res res = attempt([&] {
        if (op.arg(2)) w.t[to].sub = std::make_unique<LaneletSubmap>(std::move(*from.map));
        else *w.t[to].sub = std::move(*from.map);
        from.map = std::make_unique<LaneletMap>();
      });
      if (!res.ok()) fail("add-failed", "moving: " + res.text());
      w.reset(w.t[to], false);
      for (int k = 0; k < 6; k++) w.t[to].m.in[k] = from.m.in[k];
      w.reset(from, true);
      count("probe.move");
      w.check(to, "moving a map into it");
      w.check(size_t(op.arg(0)) % size_t(w.maps), "starting anew");
    } else if (op.name == "attach") {
      if (w.s.r.empty()) continue;
      int re = int(u64(op.arg(1)) % w.s.r.size());
      bool area = op.arg(2) && !w.s.a.empty();
      if (!area && w.s.t.empty()) continue;
      Elem e{area ? mA : mT, int(u64(op.arg(0)) % (area ? w.s.a.size() : w.s.t.size()))};
      auto& regs = area ? w.s.a[size_t(e.i)].regs : w.s.t[size_t(e.i)].regs;
      if (w.anywhere(e) || std::find(regs.begin(), regs.end(), re) != regs.end()) continue;
      Res res = attempt([&] {
        if (area) w.b.a[size_t(e.i)].addRegulatoryElement(w.b.r[size_t(re)]);
        else w.b.t[size_t(e.i)].addRegulatoryElement(w.b.r[size_t(re)]);
      });
      if (!res.ok()) fail("add-failed", "attaching a regulatory element: " + res.text());
      regs.push_back(re);
      count("probe.attach");
    }
    hashEvent(u64(adds));
  }
  for (size_t i = 0; i < w.t.size(); i++) w.check(i, "everything");
  if (adds > 1) markNontrivial();
  sample(fmt("%d additions (%d repeated) to %d maps and %d submaps over %zu elements", adds, again, w.maps, w.subs, w.s.total()));
  lib([&] {
    w.t.clear();
    return 0;
  });
}
RegisterScenario reg("C11", gen, run);
}  // namespace
}  // namespace h
