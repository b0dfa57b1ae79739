// C17: graphs of one road network whose map came to be in different ways, before and after a restart, in several threads
// at once; each compared with the reference graph computed from the pure model.
#include "graph_util.h"
#include "io_util.h"

using namespace lanelet;
namespace h {
namespace {
// ops: v kind seed which  (how the map of this graph comes to be)
constexpr int kKinds = 10;
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  if (r.chance(1, 10)) {  // many lanes side by side
    p.cfg["lanes"] = r.range(4, 6);
    p.cfg["segs"] = r.range(2, 4);
    p.cfg["dash"] = 1;
    if (r.chance(2, 3)) p.cfg["opp"] = 0;
  }
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_how"] = i64(r.below(3));
  p.cfg["proj"] = i64(r.below(3));
  p.cfg["mode"] = i64(r.below(4));
  graphCfgGen(p, r);
  graphCfgGen(p, r, "o_");
  p.lives = r.chance(1, 2) ? 2 : 1;
  p.arena = r.below(1000000);
  int n = int(r.range(1, 3));
  p.cfg["clients"] = n;
  if (n > 1) schedFrom(p, r, 100000);
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(1, 3)); k > 0; k--) p.op(c, "v", {i64(r.below(kKinds)), i64(r.below(100000)), i64(r.below(2))});
}
const char* kindName(int k) {
  static const char* const n[] = {"built in memory",        "the same map again",         "submap of everything", "submap of a part", "map made of a submap of a part",
                                  "loaded from an OSM file", "loaded from a binary file", "loaded from a reordered OSM file", "loaded and written again", "extended after a graph had been built"};
  return n[k];
}
// objects of a kind in another order; references do not care
std::string reordered(const std::string& text, Rng& r) {
  OsmText t = splitOsm(text);
  auto perm = permutation(r, int(t.e.size()));
  OsmText o = t;
  for (size_t i = 0; i < perm.size(); i++) o.e[i] = t.e[size_t(perm[i])];
  if (r.chance(1, 2)) {  // usual order of kinds
    std::stable_sort(o.e.begin(), o.e.end(), [](auto& a, auto& b) { return a.kind < b.kind; });
    // 'n' < 'r' < 'w'
  }
  return o.str();
}
struct Variant {
  int kind, cfg;
  std::set<int> lanelets, areas;  // part
  LaneletMapPtr map;
  std::unique_ptr<LaneletSubmap> sub;
  traffic_rules::TrafficRulesPtr rules;
  lr::RoutingCostPtrs costs;
  lr::RoutingGraphUPtr graph, early;
  std::string err;
};
void run(Ctx& c) {
  Spec s = genNet(c.plan);
  GraphCfg cfg[2] = {graphCfg(c.plan), graphCfg(c.plan, "o_")};
  auto proj = makeProjector(int(c.plan.c("proj")));
  Built b = build(s, int(c.plan.c("_how")) % 3, u64(c.plan.c("_order")) + u64(c.life));
  const int mode = int(c.plan.c("mode")) % 4;
  if (c.life == 0) {
    for (int f = 0; f < 2; f++) {
      IoOut o = doWrite("/simdisk/m" + extOf(f), f, *b.map, *proj, mode);
      if (!o.silentOk()) fail("write-refused", o.text());
    }
  }
  auto work = [&](int, const Op& op, Variant& v) {
    v.kind = int(op.arg(0) % kKinds);
    v.cfg = int(op.arg(2)) % 2;
    Rng r(mix(u64(op.arg(1)), u64(c.life)));
    // memory is used differently each time
    const u64 holes = r.below(20), hs = r.next();
    lib([&] {
      std::vector<std::unique_ptr<char[]>> keep;
      for (u64 i = 0; i < holes; i++) keep.emplace_back(new char[16 + (mix(hs, i) % 400)]);
      for (u64 i = 0; i < keep.size(); i += 2) keep[i].reset();
      v.rules = rulesOf(cfg[v.cfg]);
      v.costs = costsOf(cfg[v.cfg]);
      for (u64 i = 1; i < keep.size(); i += 2) keep[i].release();  // NOLINT: stays until the end of this process
      return 0;
    });
    auto makeGraph = [&](const auto& m) {
      return lib([&] { return lr::RoutingGraph::build(m, *v.rules, v.costs, configOf(cfg[v.cfg])); });
    };
    auto load = [&](const std::string& file, int f) {
      LoadOut o = doLoad(file, f, *proj, int(r.below(4)));
      if (!o.silentOk()) v.err = "loading " + file + ": " + o.text();
      v.map = o.map;
      return o.silentOk();
    };
    switch (v.kind) {
      case 0: {
        u64 how = r.below(3), order = r.below(100000);
        v.map = build(s, int(how), order).map;
        break;
      }
      case 1: v.map = b.map; break;
      case 2:
      case 3:
      case 4: {
        for (int i = 0; i < int(s.t.size()); i++)
          if (v.kind == 2 || r.chance(2, 3)) v.lanelets.insert(i);
        for (int i = 0; i < int(s.a.size()); i++)
          if (v.kind == 2 || r.chance(2, 3)) v.areas.insert(i);
        auto order = permutation(r, int(s.t.size()));
        bool once = r.chance(1, 2);
        lib([&] {
          Lanelets ts;
          Areas as;
          for (int i : order)
            if (v.lanelets.count(i)) ts.push_back(b.t[size_t(i)]);
          for (int i : v.areas) as.push_back(b.a[size_t(i)]);
          if (once) {
            v.sub = utils::createSubmap(ts, as);
          } else {
            v.sub = std::make_unique<LaneletSubmap>();
            for (auto& a : as) v.sub->add(a);
            for (auto& t : ts) v.sub->add(t);
          }
          if (v.kind == 4) v.map = v.sub->laneletMap();
          return 0;
        });
        if (v.kind == 4) {  // what the elements refer to comes along (checked by C07)
          for (int i = 0; i < int(s.t.size()); i++)
            if (lib([&] { return v.map->laneletLayer.exists(s.t[size_t(i)].id); })) v.lanelets.insert(i);
          for (int i = 0; i < int(s.a.size()); i++)
            if (lib([&] { return v.map->areaLayer.exists(s.a[size_t(i)].id); })) v.areas.insert(i);
        }
        break;
      }
      case 5:
        if (!load("/simdisk/m.osm", 0)) return;
        break;
      case 6:
        if (!load("/simdisk/m.bin", 1)) return;
        break;
      case 7: {
        std::string name = fmt("/simdisk/r%lld_%d_%d.osm", (long long)op.arg(1), op.client, c.life), text = reordered(diskContent("/simdisk/m.osm"), r);
        diskPut(name.c_str(), text.data(), text.size());
        if (!load(name, 0)) return;
        break;
      }
      case 8: {
        int from = int(r.below(2)), to = int(r.below(2));
        if (!load("/simdisk/m" + extOf(from), from)) return;
        std::string name = fmt("/simdisk/w%lld_%d_%d", (long long)op.arg(1), op.client, c.life) + extOf(to);
        IoOut o = doWrite(name, to, *v.map, *proj, mode);
        if (!o.silentOk()) {
          v.err = "writing a loaded map: " + o.text();
          return;
        }
        dropMap(v.map);
        if (!load(name, to)) return;
        break;
      }
      default: {  // the map grows, a graph of an earlier state exists
        Built x = buildObjects(s, r.next());
        auto to = permutation(r, int(x.t.size())), ao = permutation(r, int(x.a.size()));
        size_t half = r.below(x.t.size() + 1);
        lib([&] {
          v.map = std::make_shared<LaneletMap>();
          for (size_t i = 0; i < half; i++) v.map->add(x.t[size_t(to[i])]);
          return 0;
        });
        v.early = makeGraph(*v.map);
        lib([&] {
          for (int i : ao) v.map->add(x.a[size_t(i)]);
          for (size_t i = half; i < to.size(); i++) v.map->add(x.t[size_t(to[i])]);
          for (auto& g : x.r)
            if (!v.map->regulatoryElementLayer.exists(g->id())) v.map->add(g);
          return 0;
        });
      }
    }
    if (v.kind == 2 || v.kind == 3) v.graph = makeGraph(*v.sub);
    else v.graph = makeGraph(*v.map);
  };
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  std::vector<std::vector<std::unique_ptr<Variant>>> vs(static_cast<size_t>(n));
  runClients(n, [&](int me) {
    for (auto& op : c.plan.ops) {
      if (op.client % n != me || op.name != "v") continue;
      vs[size_t(me)].push_back(std::make_unique<Variant>());
      work(me, op, *vs[size_t(me)].back());
    }
  });
  // the reference comes from the model and objects that were never near a map
  Built own = buildObjects(s, 1);
  Handles hd = handlesOf(own);
  for (int me = 0; me < n; me++)
    for (auto& vp : vs[size_t(me)]) {
      Variant& v = *vp;
      if (!v.err.empty()) fail("io", v.err);
      count(fmt("probe.map.%s", kindName(v.kind)).c_str());
      const bool osm = v.kind == 5 || v.kind == 7 || v.kind == 8;
      const bool part = v.kind == 3 || v.kind == 4;
      auto rules = lib([&] { return rulesOf(cfg[v.cfg]); });
      auto costs = lib([&] { return costsOf(cfg[v.cfg]); });
      RefGraph ref = refGraph(s, hd, cfg[v.cfg], *rules, costs, part ? &v.lanelets : nullptr, part ? &v.areas : nullptr, osm ? 1e-3 : 1e-9);
      if (ref.vague) {
        count("probe.too_close_to_call");
        continue;
      }
      int missing = 0;
      Handles mine = handlesOf(s, v.kind == 2 || v.kind == 3 ? static_cast<LaneletMapLayers&>(*v.sub) : *v.map, &missing);
      if (missing && !part) fail("lost-elements", fmt("%d lanelets or areas are missing in the map (%s)", missing, kindName(v.kind)));
      if (part) mine = handlesOf(b);
      std::string e = checkWholeGraph(*v.graph, ref, mine, mix(u64(c.plan.c("_order")), u64(v.kind)), 16);
      if (!e.empty()) fail("differs", fmt("life %d client %d, map %s: ", c.life, me, kindName(v.kind)) + e);
      markNontrivial();
    }
  sample(fmt("lives=%d clients=%d variants=%zu elements=%zu", c.plan.lives, n, c.plan.ops.size(), s.total()));
}
RegisterScenario reg("C17", gen, run);
}  // namespace
}  // namespace h
