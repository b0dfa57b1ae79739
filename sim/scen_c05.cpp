// C05: ids drawn by several threads while others register, add and load, in a first and in a restarted process.
#include "io_util.h"

using namespace lanelet;
namespace h {
namespace {
// life 0 of two writes the files; the clients work in the last life.
// ops: draw n how | reg delta | new kind target | add kind delta target | create kind delta how | load f
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(2)));
  p.cfg["proj"] = 1;
  p.cfg["how"] = i64(r.below(3));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["high"] = r.chance(1, 2) ? i64(r.below(3)) : 0;  // ids of the files far above, around or below the generator's start
  p.lives = r.chance(1, 2) ? 2 : 1;
  int n = int(r.range(1, 4));
  p.cfg["clients"] = n;
  if (n > 1) schedFrom(p, r, r.chance(1, 2) ? 600 : 30000);
  bool quick = r.chance(1, 2);  // only operations on the generator itself: dense interleavings
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(1, quick ? 6 : 5)); k > 0; k--) {
      i64 delta = r.chance(1, 2) ? r.range(-2, 3) : r.chance(1, 3) ? i64(r.below(100000)) : -i64(r.below(2000));
      switch (quick ? r.below(2) : r.below(8)) {
        case 0: p.op(c, "draw", {r.range(1, 4), i64(r.below(3))}); break;
        case 1: p.op(c, "reg", {delta}); break;
        case 2:
        case 3: p.op(c, "new", {i64(r.below(6)), i64(r.below(2))}); break;
        case 4: p.op(c, "add", {i64(r.below(6)), delta, i64(r.below(2))}); break;
        case 5: p.op(c, "create", {i64(r.below(6)), delta, i64(r.below(3))}); break;
        case 6: p.op(c, "load", {i64(r.below(2))}); break;
        default: p.op(c, "draw", {1, i64(r.below(3))}); break;
      }
    }
}
struct Ev {
  u64 begin, end;
  bool drawn;
  Id id;
  std::string what;
};
struct Log {
  u64 seq = 0;
  std::vector<Ev> ev;
  Id top = 1000;  // around where the generator is
};
struct Parts {
  Point3d p[4];
  LineString3d l, r;
  Polygon3d g;
  Lanelet t;
  Area a;
  RegulatoryElementPtr re;
};
// a complete little road with the given first id (0: everything without an id), ids ascending or descending
Parts makeParts(Id base, bool down) {
  Parts o;
  int n = 0;
  auto next = [&]() -> Id {
    if (!base) return InvalId;
    Id i = down ? base + 12 - n : base + n;
    n++;
    return i;
  };
  for (int i = 0; i < 4; i++) o.p[i] = Point3d(next(), i & 1, i >> 1, 0);
  o.l = LineString3d(next(), {o.p[2], o.p[3]});
  o.r = LineString3d(next(), {o.p[0], o.p[1]});
  o.g = Polygon3d(next(), {o.p[0], o.p[1], o.p[3]});
  o.t = Lanelet(next(), o.l, o.r);
  o.a = Area(next(), {o.l, LineString3d(next(), {o.p[3], o.p[1]}), o.r.invert(), LineString3d(next(), {o.p[0], o.p[2]})});
  o.re = std::make_shared<GenericRegulatoryElement>(next());
  dynamic_cast<GenericRegulatoryElement&>(*o.re).addParameter("ref", o.l);
  o.t.addRegulatoryElement(o.re);
  return o;
}
template <typename M>
void addPart(M& m, Parts& q, int kind) {
  switch (kind % 6) {
    case 0: m.add(q.p[0]); break;
    case 1: m.add(q.l); break;
    case 2: m.add(q.g); break;
    case 3: m.add(q.t); break;
    case 4: m.add(q.a); break;
    default: m.add(q.re);
  }
}
std::vector<Id> idsOf(const LaneletMapLayers& m) {
  std::vector<Id> v;
  for (auto& e : m.pointLayer) v.push_back(e.id());
  for (auto& e : m.lineStringLayer) v.push_back(e.id());
  for (auto& e : m.polygonLayer) v.push_back(e.id());
  for (auto& e : m.laneletLayer) v.push_back(e.id());
  for (auto& e : m.areaLayer) v.push_back(e.id());
  for (auto& e : m.regulatoryElementLayer) v.push_back(e->id());
  return v;
}
std::unique_ptr<LaneletMapLayers> create(Parts& q, int kind, int how) {
  switch (kind % 6) {
    case 0: if (how == 1) return utils::createSubmap(Points3d{q.p[0], q.p[1]}); return utils::createMap(Points3d{q.p[0], q.p[1]});
    case 1: if (how == 1) return utils::createSubmap(LineStrings3d{q.l}); return utils::createMap(LineStrings3d{q.l, q.r});
    case 2: if (how == 1) return utils::createSubmap(Polygons3d{q.g}); return utils::createMap(Polygons3d{q.g});
    case 3: if (how == 1) return utils::createSubmap(Lanelets{q.t}); return utils::createMap(Lanelets{q.t});
    case 4: if (how == 1) return utils::createSubmap(Areas{q.a}); return utils::createMap(Areas{q.a});
    default:
      if (how == 1) return utils::createSubmap(Lanelets{q.t}, Areas{q.a});
      if (how == 2) return std::make_unique<LaneletMap>(LaneletLayer::Map{{q.t.id(), q.t}}, AreaLayer::Map{}, RegulatoryElementLayer::Map{{q.re->id(), q.re}}, PolygonLayer::Map{{q.g.id(), q.g}}, LineStringLayer::Map{{q.l.id(), q.l}}, PointLayer::Map{{q.p[2].id(), q.p[2]}});
      return utils::createMap(Lanelets{q.t}, Areas{q.a});
  }
}
void run(Ctx& c) {
  auto proj = makeProjector(1);
  Spec s = genNet(c.plan);
  if (c.plan.c("high")) shiftIds(s, c.plan.c("high") == 1 ? Id(1) << 33 : Id(100));
  clearIoFaults();
  if (c.life == 0) {
    Built b = build(s, int(c.plan.c("how")), u64(c.plan.c("_order")));
    for (int f = 0; f < 2; f++) {
      IoOut o = doWrite("/simdisk/m" + extOf(f), f, *b.map, *proj, 0);
      if (!o.silentOk()) fail("refused", o.text());
    }
    if (c.plan.lives == 2) return;
  }
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  Log log;
  auto begin = [&] { return ++log.seq; };
  auto put = [&](u64 b, bool drawn, Id id, const char* what) {
    log.ev.push_back(Ev{b, 0, drawn, id, what});
    if (id > log.top && id < (Id(1) << 60)) log.top = id;
  };
  auto end = [&](u64 b) {
    ++log.seq;
    for (auto& e : log.ev)
      if (e.begin == b) e.end = log.seq;
  };
  auto worker = [&](int me) {
    LaneletMapPtr map;
    std::shared_ptr<LaneletSubmap> sub;
    std::vector<std::shared_ptr<LaneletMapLayers>> keep;
    lib([&] {
      map = std::make_shared<LaneletMap>();
      sub = std::make_shared<LaneletSubmap>();
      return 0;
    });
    for (auto& op : c.plan.ops) {
      if (op.client % n != me) continue;
      u64 b = begin();
      if (op.name == "draw") {
        for (i64 i = 0; i < std::min<i64>(8, op.arg(0)); i++) {
          u64 b1 = begin();
          Id id = lib([&] {
            switch (op.arg(1)) {
              case 0: return utils::getId();
              case 1: return map->laneletLayer.uniqueId();
              default: return map->pointLayer.uniqueId();
            }
          });
          put(b1, true, id, "drawn");
          end(b1);
        }
      } else if (op.name == "reg") {
        Id id = log.top + op.arg(0);
        lib([&] { utils::registerId(id); return 0; });
        put(b, false, id, "registered");
      } else if (op.name == "new") {
        int kind = int(op.arg(0)) % 6;
        std::vector<Id> before = lib([&] { return idsOf(*map); }), after;
        Parts q = lib([&] { return makeParts(0, false); });
        bool toSub = op.arg(1) != 0;
        lib([&] {
          if (toSub) addPart(*sub, q, kind);
          else addPart(*map, q, kind);
          return 0;
        });
        if (toSub) {
          Id id = kind == 0 ? q.p[0].id() : kind == 1 ? q.l.id() : kind == 2 ? q.g.id() : kind == 3 ? q.t.id() : kind == 4 ? q.a.id() : q.re->id();
          put(b, true, id, "assigned to an element added to a submap");
        } else {
          after = lib([&] { return idsOf(*map); });
          std::multiset<Id> old(before.begin(), before.end());
          size_t fresh = 0;
          for (Id id : after) {
            auto it = old.find(id);
            if (it != old.end()) {
              old.erase(it);
              continue;
            }
            fresh++;
            put(b, true, id, "assigned to an element added to a map");
          }
          static const size_t want[] = {1, 3, 4, 8, 9, 4};
          // the regulatory element refers to the left bound: 1 + line string + 2 points
          if (fresh != want[kind]) fail("id-collision-in-map", fmt("adding an element of kind %d without ids brought %zu instead of %zu new elements", kind, fresh, want[kind]));
        }
        lib([&] { q = Parts(); return 0; });
      } else if (op.name == "add") {
        Id base = std::max<Id>(1, log.top + op.arg(1));
        Parts q = lib([&] { return makeParts(base, (op.arg(1) & 1) != 0); });
        bool toSub = op.arg(2) != 0;
        std::vector<Id> ids;
        lib([&] {
          if (toSub) {
            LaneletSubmap m;
            addPart(m, q, int(op.arg(0)));
            ids = idsOf(m);
          } else {
            auto m = std::make_shared<LaneletMap>();
            addPart(*m, q, int(op.arg(0)));
            ids = idsOf(*m);
            keep.push_back(m);
          }
          return 0;
        });
        for (Id id : ids) put(b, false, id, "of an element added to a map");
        lib([&] { q = Parts(); return 0; });
      } else if (op.name == "create") {
        Id base = std::max<Id>(1, log.top + op.arg(1));
        Parts q = lib([&] { return makeParts(base, (op.arg(1) & 1) != 0); });
        std::vector<Id> ids;
        lib([&] {
          auto m = create(q, int(op.arg(0)), int(op.arg(2)));
          ids = idsOf(*m);
          keep.push_back(std::move(m));
          return 0;
        });
        for (Id id : ids) put(b, false, id, "of an element a map was created from");
        lib([&] { q = Parts(); return 0; });
      } else if (op.name == "load") {
        int f = int(op.arg(0)) & 1;
        LoadOut o = doLoad("/simdisk/m" + extOf(f), f, *proj, 0);
        if (!o.silentOk()) fail("refused", o.text());
        std::vector<Id> ids = lib([&] { return idsOf(*o.map); });
        for (Id id : ids) put(b, false, id, f ? "of an element loaded from .bin" : "of an element loaded from .osm");
        dropMap(o.map);
        count("probe.loaded");
      }
      end(b);
    }
    lib([&] {
      map.reset();
      sub.reset();
      keep.clear();
      keep.shrink_to_fit();
      return 0;
    });
  };
  if (n == 1) worker(0);
  else runClients(n, worker);
  // whatever happened: the next ids drawn are new as well
  for (int i = 0; i < 3; i++) {
    u64 b = begin();
    put(b, true, lib([] { return utils::getId(); }), "drawn at the end");
    end(b);
  }
  std::map<Id, const Ev*> drawn;
  std::multimap<Id, const Ev*> reg;
  for (auto& e : log.ev)
    if (!e.drawn) reg.emplace(e.id, &e);
  for (auto& e : log.ev) {
    if (!e.drawn) continue;
    if (e.id == InvalId) fail("invalid-id-drawn", e.what);
    auto ins = drawn.emplace(e.id, &e);
    if (!ins.second) fail("id-drawn-twice", fmt("id %lld: %s, and %s", (long long)e.id, ins.first->second->what.c_str(), e.what.c_str()));
    auto range = reg.equal_range(e.id);
    for (auto it = range.first; it != range.second; ++it) {
      markNontrivial();
      if (it->second->end < e.begin) fail("used-id-drawn", fmt("id %lld %s, but it is the id %s before", (long long)e.id, e.what.c_str(), it->second->what.c_str()));
      count("probe.overlapping_same_id");
    }
  }
  if (drawn.size() > 3) markNontrivial();
  count("probe.ids_drawn", drawn.size());
  count("probe.ids_registered", reg.size());
  sample(fmt("clients=%d drawn=%zu registered=%zu", n, drawn.size(), reg.size()));
}
RegisterScenario reg("C05", gen, run);
}  // namespace
}  // namespace h
