// C09: threads asking traffic rules, matching, projecting and creating things through the factories over shared objects.
// Life 0 answers every question as a lone caller in a fresh process; life 1 starts from cold tables with all clients at once.
#include <cstring>

#include "misc_util.h"

using namespace lanelet;
namespace h {
namespace {
// ops: q kind rule a b seed
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  p.cfg["regs"] = r.range(0, 8);
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["rules0"] = i64(r.below(8));
  p.cfg["rules1"] = i64(r.below(8));
  p.cfg["limits"] = r.chance(1, 3);
  if (p.cfg["limits"]) {
    p.cfg["regs"] = r.range(3, 10);
    if (r.chance(2, 3)) p.cfg["rules0"] = p.cfg["rules1"] = 0;
  }
  p.lives = 2;
  int n = int(r.range(2, 4));
  p.cfg["clients"] = n;
  schedFrom(p, r, r.chance(1, 2) ? 3000 : 30000);
  const int focus = int(r.below(4));  // 0 everything, 1 rules, 2 matching, 3 projecting and factories
  i64 hotLl[3] = {i64(r.below(100000)), i64(r.below(100000)), i64(r.below(100000))};
  i64 hotSeed[3] = {i64(r.below(100000)), i64(r.below(100000)), i64(r.below(100000))};
  int hotKind = int(r.below(kNumMiscKinds));
  auto query = [&] {
    int k = int(r.below(kNumMiscKinds));
    if (p.cfg["limits"] && r.chance(1, 2)) k = 7;
    else if (r.chance(1, 4)) k = hotKind;
    else if (focus == 1 && r.chance(2, 3)) k = int(r.below(kNumRuleKinds));
    else if (focus == 2 && r.chance(2, 3)) k = int(r.range(20, 26));
    else if (focus == 3 && r.chance(2, 3)) k = int(r.range(11, 19));
    i64 a = r.chance(2, 3) ? hotLl[r.below(3)] : i64(r.below(100000)), b = r.chance(1, 2) ? hotLl[r.below(3)] : i64(r.below(100000));
    i64 sd = r.chance(1, 2) ? hotSeed[r.below(3)] : i64(r.below(100000));
    return std::vector<i64>{k, i64(r.below(2)), a, b, sd};
  };
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(2, 10)); k > 0; k--) p.op(c, "q", query());
}
void run(Ctx& c) {
  World w;
  makeWorld(w, c.plan);
  std::vector<const Op*> ops;
  for (auto& op : c.plan.ops) ops.push_back(&op);
  const int no = int(ops.size());
  if (c.life == 0) {
    std::vector<std::string> text(ops.size());
    Rng r(u64(c.plan.c("_order")) + 5);
    auto o1 = permutation(r, no), o2 = permutation(r, no);
    for (int i : o1) text[size_t(i)] = askMisc(w, *ops[size_t(i)]);
    for (int i : o2) {
      auto again = askMisc(w, *ops[size_t(i)]);
      if (again != text[size_t(i)]) fail("depends-on-history", describeMisc(*ops[size_t(i)]) + "\n  first  " + text[size_t(i)] + "\n  second " + again);
    }
    std::string all;
    for (auto& t : text) all += fmt("%zu ", t.size()) + t;
    if (all.size() > sizeof shm()->blob[0]) all.clear();
    memcpy(shm()->blob[0], all.data(), all.size());
    shm()->blobLen[0] = u32(all.size());
    return;
  }
  std::string all(shm()->blob[0], shm()->blobLen[0]);
  std::vector<std::string> lone;
  for (size_t b = 0; b < all.size();) {
    char* e = nullptr;
    size_t n = strtoul(all.c_str() + b, &e, 10);
    b = size_t(e - all.c_str()) + 1;
    lone.push_back(all.substr(b, n));
    b += n;
  }
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  std::vector<std::vector<std::pair<int, std::string>>> got(static_cast<size_t>(n));
  runClients(n, [&](int me) {
    for (int i = 0; i < no; i++)
      if (ops[size_t(i)]->client % n == me) got[size_t(me)].push_back({i, askMisc(w, *ops[size_t(i)])});
  });
  for (int me = 0; me < n; me++)
    for (auto& g : got[size_t(me)]) {
      const Op& op = *ops[size_t(g.first)];
      count(fmt("probe.query.%d", int(op.arg(0)) % kNumMiscKinds).c_str());
      if (g.second.compare(0, 3, "yes") == 0 || g.second.find(" yes") != std::string::npos) count("probe.answer_yes");
      if (g.second.compare(0, 7, "lanelet") == 0) count("probe.refused");
      if (size_t(g.first) < lone.size() && lone[size_t(g.first)] != g.second)
        fail("differs-from-lone-caller", fmt("client %d, ", me) + describeMisc(op) + "\n  alone      " + lone[size_t(g.first)] + "\n  concurrent " + g.second);
      auto again = askMisc(w, op);
      if (again != g.second) fail("differs-from-lone-caller", fmt("client %d, ", me) + describeMisc(op) + "\n  alone      " + again + "\n  concurrent " + g.second);
    }
  markNontrivial();
  sample(fmt("clients=%d ops=%d lanelets=%zu areas=%zu regs=%zu", n, no, w.b.t.size(), w.b.a.size(), w.b.r.size()));
}
RegisterScenario reg("C09", gen, run);
}  // namespace
}  // namespace h
