// C07: threads querying one map or submap that nobody modifies; every answer judged against a plain scan of the model.
#include "map_util.h"

using namespace lanelet;
namespace h {
namespace {
// ops: q kind layer var seed | sub (build a LaneletMap from the submap)
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_how"] = i64(r.below(3));
  p.cfg["sub"] = r.chance(1, 3) ? r.range(1, 2) : 0;
  p.cfg["_subsel"] = i64(r.below(100000));
  int n = int(r.range(2, 4));
  p.cfg["clients"] = n;
  schedFrom(p, r, r.chance(1, 2) ? 5000 : 60000);
  int hotKind = int(r.below(kNumMapQueries)), hotLayer = int(r.below(6));
  u64 hotSeed = r.below(1000000);
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(1, 6)); k > 0; k--) {
      if (r.chance(1, 12)) p.op(c, "sub");
      else if (r.chance(1, 2)) p.op(c, "q", {hotKind, hotLayer, i64(r.below(32)), r.chance(1, 2) ? i64(hotSeed) : i64(r.below(1000000))});
      else p.op(c, "q", {i64(r.below(kNumMapQueries)), i64(r.below(6)), i64(r.below(32)), i64(r.below(1000000))});
    }
}
void run(Ctx& c) {
  Spec s = genNet(c.plan);
  Built b = build(s, int(c.plan.c("_how")) % 3, u64(c.plan.c("_order")));
  MapModel model = MapModel::all(s);
  std::unique_ptr<LaneletSubmap> sub;
  if (c.plan.c("sub")) {
    model = MapModel{};
    model.s = &s;
    model.full = false;
    Rng r(u64(c.plan.c("_subsel")));
    auto pick = [&](int k, size_t n) {
      for (size_t i = 0; i < n; i++)
        if (r.chance(1, 2)) model.in[k].insert(int(i));
    };
    pick(mT, s.t.size());
    pick(mA, s.a.size());
    if (c.plan.c("sub") == 1) {  // made at once
      lib([&] {
        Lanelets ts;
        Areas as;
        for (int i : model.in[mT]) ts.push_back(b.t[size_t(i)]);
        for (int i : model.in[mA]) as.push_back(b.a[size_t(i)]);
        sub = utils::createSubmap(ts, as);
        return 0;
      });
    } else {
      pick(mP, s.p.size());
      pick(mL, s.l.size());
      pick(mG, s.g.size());
      pick(mR, s.r.size());
      lib([&] {
        sub = std::make_unique<LaneletSubmap>();
        for (int i : model.in[mP]) sub->add(b.p[size_t(i)]);
        for (int i : model.in[mL]) sub->add(b.l[size_t(i)]);
        for (int i : model.in[mG]) sub->add(b.g[size_t(i)]);
        for (int i : model.in[mT]) sub->add(b.t[size_t(i)]);
        for (int i : model.in[mA]) sub->add(b.a[size_t(i)]);
        for (int i : model.in[mR]) sub->add(b.r[size_t(i)]);
        return 0;
      });
    }
  }
  LaneletMapLayers& map = sub ? static_cast<LaneletMapLayers&>(*sub) : *b.map;
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  struct Got {
    MapQuery q;
    MapAnswer a;
  };
  std::vector<std::vector<Got>> got(static_cast<size_t>(n));
  std::vector<std::vector<LaneletMapConstPtr>> made(static_cast<size_t>(n));
  runClients(n, [&](int me) {
    for (auto& op : c.plan.ops) {
      if (op.client % n != me) continue;
      if (op.name == "q") {
        MapQuery q{int(op.arg(0) % kNumMapQueries), int(op.arg(1) % 6), op.arg(2), u64(op.arg(3))};
        got[size_t(me)].push_back({q, askMap(map, b, s, q)});
      } else if (op.name == "sub" && sub) {
        made[size_t(me)].push_back(lib([&] { return const_cast<const LaneletSubmap&>(*sub).laneletMap(); }));
      }
    }
  });
  for (int me = 0; me < n; me++)
    for (auto& g : got[size_t(me)]) {
      count(fmt("probe.query.%d", g.q.kind).c_str());
      std::string e = judgeMap(model, g.q, g.a);
      if (!e.empty()) fail("wrong-answer", fmt("client %d: ", me) + describeMap(g.q) + "\n  " + e);
    }
  // what a submap turned into a map contains: what is in it and everything that is referenced
  std::string first;
  for (auto& v : made)
    for (auto& m : v) {
      count("probe.submap_to_map");
      std::string e = closure(*m);
      if (!e.empty()) fail("submap-not-closed", e);
      Dump d = lib([&] { return dumpMap(*m); }), all = dumpSpec(s);
      for (auto& x : d)
        if (!all.count(x.first) || all[x.first] != x.second) fail("submap-differs", x.first + " " + x.second);
      static const char kl[] = "PLGTAR";
      for (int k = 0; k < 6; k++)
        for (int i : model.in[k])
          if (!d.count(fmt("%c %lld", kl[k], (long long)model.id(k, i)))) fail("submap-incomplete", fmt("%c %lld missing", kl[k], (long long)model.id(k, i)));
      if (first.empty()) first = dumpText(d);
      else if (first != dumpText(d)) fail("submap-differs", "two threads got different maps");
    }
  std::string e = checkWholeMap(map, b, model, 1, 0);
  if (!e.empty()) fail("map-changed-by-queries", e);
  markNontrivial();
  sample(fmt("clients=%d queries=%zu elements=%zu %s", n, c.plan.ops.size(), s.total(), sub ? "submap" : "map"));
}
RegisterScenario reg("C07", gen, run);
}  // namespace
}  // namespace h
