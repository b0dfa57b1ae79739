// C08: threads querying one routing graph while others build and use further graphs of the same map; every answer judged
// against searches over the independent reference graph.
#include "graph_util.h"

using namespace lanelet;
namespace h {
namespace {
// ops: q kind a b c cost seed | build which seed | export format cost exclude
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  if (r.chance(1, 10)) {  // many lanes side by side
    p.cfg["lanes"] = r.range(4, 6);
    p.cfg["segs"] = r.range(2, 4);
    p.cfg["dash"] = 1;
    if (r.chance(2, 3)) p.cfg["opp"] = 0;
  }
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_how"] = i64(r.below(3));
  graphCfgGen(p, r);
  graphCfgGen(p, r, "o_");
  int n = int(r.range(2, 4));
  p.cfg["clients"] = n;
  p.cfg["whole"] = r.chance(1, 3);
  schedFrom(p, r, r.chance(1, 2) ? 10000 : 100000);
  auto query = [&] {
    return std::vector<i64>{i64(r.below(kNumGraphQueries)), i64(r.below(100000)), i64(r.below(100000)), i64(r.below(100000)), i64(r.below(3)), i64(r.below(100000))};
  };
  auto hot = query();
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(1, 6)); k > 0; k--) {
      if (r.chance(1, 10)) p.op(c, "build", {i64(r.below(2)), i64(r.below(1000))});
      else if (r.chance(1, 16)) p.op(c, "export", {i64(r.below(2)), i64(r.below(3)), i64(r.below(128))});
      else if (r.chance(1, 3)) {
        auto q = hot;
        if (r.chance(1, 3)) q[1] = i64(r.below(100000));
        p.op(c, "q", q);
      } else p.op(c, "q", query());
    }
}
struct Exp {
  int format, cost, exclude;
  Res r;
  std::string file;
};
std::string judgeExport(const RefGraph& g, const Exp& x, const std::string& text) {
  const int mask = 127 & ~x.exclude;
  static const char* const names[] = {"Successor", "Left", "Right", "AdjacentLeft", "AdjacentRight", "Conflicting", "Area"};
  auto nameOf = [&](int rel) {
    for (int i = 0; i < 7; i++)
      if (rel == 1 << i) return names[i];
    return "?";
  };
  auto id = [&](int n) { return (long long)(g.n[size_t(n)].area ? g.s->a[size_t(g.n[size_t(n)].i)].id : g.s->t[size_t(g.n[size_t(n)].i)].id); };
  std::multiset<std::string> must, may;
  for (auto& e : g.e[size_t(x.cost)])
    if (e.rel & mask) (e.sure ? must : may).insert(x.format ? fmt("%lld>%lld %s", id(e.from), id(e.to), nameOf(e.rel)) : std::string(nameOf(e.rel)));
  size_t nodes = 0;
  std::map<long long, long long> idOf;
  auto edge = [&](const std::string& k) {
    auto it = must.find(k);
    if (it != must.end()) return must.erase(it), true;
    it = may.find(k);
    if (it != may.end()) return may.erase(it), true;
    return false;
  };
  if (x.format) {
    size_t b = 0;
    while (b < text.size()) {
      size_t e = text.find('\n', b);
      if (e == std::string::npos) e = text.size();
      std::string l = text.substr(b, e - b);
      b = e + 1;
      long long u, v;
      char rel[64];
      if (sscanf(l.c_str(), "%lld->%lld [label=\"%60[A-Za-z]", &u, &v, rel) == 3) {
        if (!edge(fmt("%lld>%lld %s", idOf[u], idOf[v], rel))) return "exported graph has an edge that is not there: " + l;
      } else if (sscanf(l.c_str(), "%lld[label=\"%lld", &u, &v) == 2 || sscanf(l.c_str(), "%lld [label=\"%lld", &u, &v) == 2) {
        idOf[u] = v;
        nodes++;
      }
    }
  } else {
    for (size_t b = text.find("<node "); b != std::string::npos; b = text.find("<node ", b + 1)) nodes++;
    for (size_t b = text.find("<edge "); b != std::string::npos; b = text.find("<edge ", b + 1)) {
      size_t e = text.find("</edge>", b);
      std::string l = text.substr(b, e - b);
      bool ok = false;
      // the relation name stands between tags
      for (auto* k : names)
        if (l.find(std::string(">") + k + "<") != std::string::npos) ok |= edge(k);
      if (!ok) return "exported graph has an edge too many: " + l;
    }
  }
  if (nodes != g.n.size()) return fmt("exported graph has %zu nodes, the graph %zu", nodes, g.n.size());
  if (!must.empty()) return "edge missing in the exported graph: " + *must.begin();
  return {};
}
void run(Ctx& c) {
  Spec s = genNet(c.plan);
  Built b = build(s, int(c.plan.c("_how")) % 3, u64(c.plan.c("_order")));
  Handles hd = handlesOf(b);
  GraphCfg cfg[2] = {graphCfg(c.plan), graphCfg(c.plan, "o_")};
  struct Unit {
    traffic_rules::TrafficRulesPtr rules;
    lr::RoutingCostPtrs costs;
    lr::RoutingGraphUPtr graph;
    RefGraph ref;
  };
  Unit u[2];
  for (int k = 0; k < 2; k++) {
    lib([&] {
      u[k].rules = rulesOf(cfg[k]);
      u[k].costs = costsOf(cfg[k]);
      if (k == 0) u[k].graph = lr::RoutingGraph::build(*b.map, *u[k].rules, u[k].costs, configOf(cfg[k]));
      return 0;
    });
    u[k].ref = refGraph(s, hd, cfg[k], *u[k].rules, u[k].costs);
  }
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  struct Got {
    int graph;
    GraphQuery q;
    GraphAnswer a;
  };
  std::vector<std::vector<Got>> got(static_cast<size_t>(n));
  std::vector<std::vector<std::pair<int, lr::RoutingGraphUPtr>>> made(static_cast<size_t>(n));
  std::vector<std::vector<Exp>> exps(static_cast<size_t>(n));
  runClients(n, [&](int me) {
    int num = 0;
    for (auto& op : c.plan.ops) {
      if (op.client % n != me) continue;
      if (op.name == "q") {
        GraphQuery q{int(op.arg(0) % kNumGraphQueries), int(op.arg(1)), int(op.arg(2)), int(op.arg(3)), int(op.arg(4)), u64(op.arg(5))};
        got[size_t(me)].push_back({0, q, askGraph(*u[0].graph, u[0].ref, hd, q)});
      } else if (op.name == "build") {
        int k = int(op.arg(0)) % 2;
        made[size_t(me)].push_back({k, lib([&] { return lr::RoutingGraph::build(*b.map, *u[k].rules, u[k].costs, configOf(cfg[k])); })});
        GraphQuery q{int(op.arg(1) % 20), int(op.arg(1) * 7), int(op.arg(1) * 13), int(op.arg(1) * 17), int(op.arg(1)), u64(op.arg(1))};
        got[size_t(me)].push_back({k, q, askGraph(*made[size_t(me)].back().second, u[k].ref, hd, q)});
      } else if (op.name == "export") {
        Exp x;
        x.format = int(op.arg(0)) % 2;
        x.cost = int(op.arg(1)) % u[0].ref.numIds();
        x.exclude = int(op.arg(2)) & 127;
        x.file = fmt("/simdisk/g%d_%d.%s", me, num++, x.format ? "gv" : "graphml");
        x.r = attempt([&] {
          if (x.format) u[0].graph->exportGraphViz(x.file, lr::RelationType(x.exclude), lr::RoutingCostId(x.cost));
          else u[0].graph->exportGraphML(x.file, lr::RelationType(x.exclude), lr::RoutingCostId(x.cost));
        });
        exps[size_t(me)].push_back(x);
      }
    }
  });
  for (int me = 0; me < n; me++) {
    for (auto& g : got[size_t(me)]) {
      count(fmt("probe.graphquery.%d", g.q.kind).c_str());
      auto& ref = u[g.graph].ref;
      std::string e = judgeGraph(ref, g.q, g.a);
      if (!e.empty()) fail("wrong-answer", fmt("client %d: ", me) + describe(ref, g.q) + "\n  " + e);
      if (g.graph) continue;
      GraphAnswer lone = askGraph(*u[0].graph, ref, hd, g.q);
      if (lone.res.text() != g.a.res.text() || lone.has != g.a.has || lone.nodes != g.a.nodes || lone.rels != g.a.rels || lone.paths != g.a.paths || lone.m != g.a.m)
        fail("differs-from-lone-caller", describe(ref, g.q));
    }
    for (auto& m : made[size_t(me)]) {
      count("probe.graph_built_concurrently");
      std::string e = checkWholeGraph(*m.second, u[m.first].ref, hd, 3, 4);
      if (!e.empty()) fail("wrong-graph", fmt("graph built by client %d: ", me) + e);
    }
    for (auto& x : exps[size_t(me)]) {
      count("probe.graph_exported");
      if (!x.r.ok()) fail("export", x.r.text());
      std::string e = judgeExport(u[0].ref, x, diskContent(x.file));
      if (!e.empty()) fail("export", e + fmt(" (cost id %d, excluded %d)", x.cost, x.exclude));
    }
  }
  if (c.plan.c("whole")) {
    std::string e = checkWholeGraph(*u[0].graph, u[0].ref, hd, u64(c.plan.c("_order")), 10);
    if (!e.empty()) fail("wrong-graph", e);
  }
  markNontrivial();
  sample(fmt("clients=%d ops=%zu nodes=%zu costs=%d", n, c.plan.ops.size(), u[0].ref.n.size(), u[0].ref.numIds()));
}
RegisterScenario reg("C08", gen, run);
}  // namespace
}  // namespace h
