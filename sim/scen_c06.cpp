// C06: threads reading the same primitives through const access, lazily computed values cold.
#include "prim_util.h"

using namespace lanelet;
namespace h {
namespace {
// ops: rd kind idx var | keep idx (hold the centerline and recheck it at the end)
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(2)));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_fix"] = i64(r.below(100000));
  p.cfg["_mod"] = i64(r.below(100000));
  p.cfg["mod"] = r.chance(1, 3) ? r.range(1, 5) : 0;
  int n = int(r.range(2, 4));
  p.cfg["clients"] = n;
  schedFrom(p, r, r.chance(1, 2) ? 2000 : 40000);
  // hot spots where the clients meet
  std::vector<std::vector<i64>> hot;
  static const int weights[] = {0, 0, 0, 0, 2, 2, 2, 10, 10, 3, 1, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16};
  for (int k = int(r.range(1, 4)); k > 0; k--) hot.push_back({weights[r.below(sizeof weights / sizeof *weights)], i64(r.below(64)), i64(r.below(240))});
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(1, 8)); k > 0; k--) {
      if (r.chance(3, 4)) {
        auto q = hot[r.below(hot.size())];
        if (r.chance(1, 2)) q[2] = i64(r.below(240));
        p.op(c, "rd", q);
      } else if (r.chance(1, 6)) {
        p.op(c, "keep", {i64(r.below(64))});
      } else {
        p.op(c, "rd", {i64(r.below(kNumPrimKinds)), i64(r.below(64)), i64(r.below(240))});
      }
    }
}
void run(Ctx& c) {
  FixSpec fs = makeFixSpec(genNet(c.plan), u64(c.plan.c("_fix")));
  auto prepare = [&](Spec* model) {
    Fix f = makeFix(fs, u64(c.plan.c("_order")));
    Rng r(u64(c.plan.c("_mod")));
    for (i64 k = 0; k < c.plan.c("mod") && !f.b.p.empty(); k++) {  // before the readers start
      size_t i = r.below(f.b.p.size());
      double d = 0.125 * double(r.range(-3, 3));
      int axis = int(r.below(3));
      lib([&] {
        Point3d& p = f.b.p[i];
        (axis == 0 ? p.x() : axis == 1 ? p.y() : p.z()) += d;
        return 0;
      });
      if (model) (axis == 0 ? model->p[i].x : axis == 1 ? model->p[i].y : model->p[i].z) += d;
    }
    return f;
  };
  FixSpec want = fs;
  Fix f = prepare(&want.s);
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  struct Got {
    const Op* op;
    std::string text;
  };
  std::vector<std::vector<Got>> got(static_cast<size_t>(n));
  runClients(n, [&](int me) {
    struct Kept {
      const Op* op;
      ConstLineString3d line;
      std::string text;
    };
    std::vector<Kept> kept;
    auto lineOf = [&](const ConstLineString3d& l) {
      std::string o;
      for (auto& q : l) o += num(q.x()) + "," + num(q.y()) + "," + num(q.z()) + " ";
      return o;
    };
    for (auto& op : c.plan.ops) {
      if (op.client % n != me) continue;
      if (op.name == "rd") {
        std::string s;
        {
          sim::Lib l;
          std::string t = readPrim(f, op.arg(0) % kNumPrimKinds, op.arg(1), op.arg(2));
          sim::Harness hm;
          s = t.c_str();
        }
        got[size_t(me)].push_back({&op, s});
      } else if (op.name == "keep" && !f.b.t.empty()) {
        const Lanelet& t = f.b.t[size_t(op.arg(0)) % f.b.t.size()];
        ConstLineString3d l = lib([&] { return ConstLanelet(t).centerline(); });
        kept.push_back({&op, l, lineOf(l)});
      }
    }
    for (auto& k : kept)
      if (lineOf(k.line) != k.text) fail("held-value-changed", "centerline held by a reader changed: " + k.text + " -> " + lineOf(k.line));
    lib([&] {
      kept.clear();
      return 0;
    });
  });
  // the lone reader, on a second fixture of the same making
  Fix lone = prepare(nullptr);
  for (int me = 0; me < n; me++)
    for (auto& g : got[size_t(me)]) {
      i64 k = g.op->arg(0) % kNumPrimKinds;
      std::string w = wantPrim(want, k, g.op->arg(1), g.op->arg(2));
      std::string what = fmt("client %d, ", me) + describePrim(k, g.op->arg(1), g.op->arg(2));
      if (!w.empty()) {
        count("probe.against_model");
        if (w != g.text) fail("wrong-answer", what + "\n  want " + w + "\n  got  " + g.text);
      }
      std::string alone = lib([&] { return readPrim(lone, k, g.op->arg(1), g.op->arg(2)); });
      if (alone != g.text) fail("differs-from-lone-reader", what + "\n  alone " + alone + "\n  got   " + g.text);
      count("probe.reads");
    }
  for (size_t t = 0; t < f.b.t.size(); t++) {
    if (want.s.t[t].center.i >= 0) continue;
    std::string e = lib([&] { return checkCenterline(want.s, int(t), ConstLanelet(f.b.t[t]).centerline()); });
    if (!e.empty()) fail("wrong-centerline", fmt("lanelet %lld: ", (long long)want.s.t[t].id) + e);
  }
  markNontrivial();
  dropFix(f);
  dropFix(lone);
  sample(fmt("clients=%d reads=%zu modified=%lld", n, c.plan.ops.size(), (long long)c.plan.c("mod")));
}
RegisterScenario reg("C06", gen, run);
}  // namespace
}  // namespace h
