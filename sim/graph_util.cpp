#include "graph_util.h"

#include <algorithm>
#include <cmath>
#include <limits>
#include <queue>

using namespace lanelet;
namespace h {
namespace {
const double kInf = std::numeric_limits<double>::infinity();
traffic_rules::TrafficRules::Configuration tableConf() {
  traffic_rules::TrafficRules::Configuration c;
  c["participant"] = "table";
  c["location"] = "nowhere";
  return c;
}
bool invOf(const ConstLanelet& l) { return l.inverted(); }
}  // namespace
// ------------------------------------------------------------------ plug-ins
TableRules::TableRules(u64 s) : traffic_rules::TrafficRules(tableConf()), seed(s) {}
bool TableRules::canPass(const ConstLanelet& l) const {
  // most lanelets forward, half of them in both directions
  return l.inverted() ? bit(2, l.id(), false, 0, false, 1, 2) && bit(1, l.id(), false, 0, false, 7, 8) : bit(1, l.id(), false, 0, false, 7, 8);
}
bool TableRules::canPass(const ConstArea& a) const { return bit(3, a.id(), false, 0, false, 4, 5); }
bool TableRules::canPass(const ConstLanelet& a, const ConstLanelet& b) const {
  return canPass(a) && canPass(b) && bit(4, a.id(), invOf(a), b.id(), invOf(b), 7, 8);
}
bool TableRules::canPass(const ConstLanelet& a, const ConstArea& b) const {
  return canPass(a) && canPass(b) && bit(5, a.id(), invOf(a), b.id(), false, 1, 2);
}
bool TableRules::canPass(const ConstArea& a, const ConstLanelet& b) const {
  return canPass(a) && canPass(b) && bit(6, a.id(), false, b.id(), invOf(b), 1, 2);
}
bool TableRules::canPass(const ConstArea& a, const ConstArea& b) const {
  return canPass(a) && canPass(b) && bit(7, a.id(), false, b.id(), false, 1, 2);
}
bool TableRules::canChangeLane(const ConstLanelet& a, const ConstLanelet& b) const {
  return canPass(a) && canPass(b) && bit(8, a.id(), invOf(a), b.id(), invOf(b), 3, 4);
}
traffic_rules::SpeedLimitInformation TableRules::speedLimit(const ConstLanelet& l) const {
  return {Velocity(double(1 + mix(mix(seed, 9), u64(l.id())) % 30) * units::MPS()), true};
}
traffic_rules::SpeedLimitInformation TableRules::speedLimit(const ConstArea& a) const {
  return {Velocity(double(1 + mix(mix(seed, 10), u64(a.id())) % 5) * units::MPS()), true};
}
bool TableRules::isOneWay(const ConstLanelet& l) const { return canPass(l) != canPass(l.invert()); }

double TableCost::value(u64 x) const {
  x = mix(seed, x);
  if (x % 11 == 0) return kInf;
  if (mode == 1) return double((x >> 8) % 4);
  return double((x >> 8) % (100ull << 20)) / double(1 << 20);
}
double TableCost::getCostSucceeding(const traffic_rules::TrafficRules&, const ConstLaneletOrArea& f, const ConstLaneletOrArea& t) const {
  auto k = [](const ConstLaneletOrArea& x) { return u64(x.id()) * 4 + (x.isArea() ? 2 : static_cast<const ConstLanelet&>(x).inverted()); };
  return value(mix(k(f), k(t)));
}
double TableCost::getCostLaneChange(const traffic_rules::TrafficRules&, const ConstLanelets& f, const ConstLanelets& t) const {
  u64 x = 77;
  for (auto& l : f) x = mix(x, u64(l.id()) * 2 + l.inverted());
  x = mix(x, 78);
  for (auto& l : t) x = mix(x, u64(l.id()) * 2 + l.inverted());
  return value(x);
}
void graphCfgGen(Plan& p, Rng& r, const std::string& pre) {
  p.cfg[pre + "rules"] = r.chance(1, 2) ? 8 : i64(r.below(8));
  p.cfg[pre + "_rseed"] = i64(r.below(100000));
  p.cfg[pre + "ncost"] = r.range(1, 3);
  p.cfg["loop"] = r.chance(1, 3) ? r.range(1, 2) : 0;
  p.cfg["dup"] = r.chance(1, 3) ? r.range(1, 3) : 0;
  p.cfg[pre + "height"] = r.chance(1, 4) ? r.range(1, 2) : 0;
  for (int i = 0; i < 3; i++) {
    p.cfg[pre + fmt("ck%d", i)] = r.range(0, 3);
    p.cfg[pre + fmt("cl%d", i)] = r.chance(1, 2) ? 0 : r.range(1, 30);
    p.cfg[pre + fmt("_cs%d", i)] = i64(r.below(100000));
  }
}
GraphCfg graphCfg(const Plan& p, const std::string& pre) {
  GraphCfg g;
  g.rules = int(p.c(pre + "rules", 0)) % 9;
  g.ruleSeed = u64(p.c(pre + "_rseed", 1));
  g.height = int(p.c(pre + "height", 0)) % 3;
  int n = std::max(1, std::min(3, int(p.c(pre + "ncost", 1))));
  for (int i = 0; i < n; i++) {
    CostS c;
    c.kind = int(p.c(pre + fmt("ck%d", i), 0)) % 4;
    c.change = c.kind == 0 ? 10 : 5;
    i64 l = p.c(pre + fmt("cl%d", i), 0);
    c.minLen = l == 0 ? 0 : c.kind == 0 ? double(l) + 0.0371 : double(l) / 10 + 0.00371;
    c.seed = u64(p.c(pre + fmt("_cs%d", i), 1));
    g.costs.push_back(c);
  }
  return g;
}
traffic_rules::TrafficRulesPtr rulesOf(const GraphCfg& g) {
  if (g.rules == 8) return std::make_shared<TableRules>(g.ruleSeed);
  return makeRules(g.rules);
}
lr::RoutingCostPtrs costsOf(const GraphCfg& g) {
  lr::RoutingCostPtrs v;
  for (auto& c : g.costs) {
    if (c.kind == 0) v.push_back(std::make_shared<lr::RoutingCostDistance>(c.change, c.minLen));
    else if (c.kind == 1) v.push_back(std::make_shared<lr::RoutingCostTravelTime>(c.change, c.minLen));
    else v.push_back(std::make_shared<TableCost>(c.seed, c.kind == 3 ? 1 : 0));
  }
  return v;
}
lr::RoutingGraph::Configuration configOf(const GraphCfg& g) {
  lr::RoutingGraph::Configuration c;
  if (g.height == 1) c[lr::RoutingGraph::ParticipantHeight] = Attribute(1000.);
  if (g.height == 2) c[lr::RoutingGraph::ParticipantHeight] = Attribute(0.3);
  return c;
}
// ------------------------------------------------------------------ geometry
namespace {
struct V2 {
  double x, y;
};
using Poly = std::vector<V2>;
void push(Poly& o, const PtS& p) {
  if (o.empty() || o.back().x != p.x || o.back().y != p.y) o.push_back({p.x, p.y});
}
std::vector<int> linePts(const Spec& s, Ref r, bool flip = false) {
  auto v = s.l[size_t(r.i)].pts;
  if (r.inv != flip) std::reverse(v.begin(), v.end());
  return v;
}
Ref leftOf(const Spec& s, GNode n) {
  auto& t = s.t[size_t(n.i)];
  return n.inv ? Ref{t.right.i, !t.right.inv} : t.left;
}
Ref rightOf(const Spec& s, GNode n) {
  auto& t = s.t[size_t(n.i)];
  return n.inv ? Ref{t.left.i, !t.left.inv} : t.right;
}
Poly polyOf(const Spec& s, GNode n) {
  Poly o;
  if (n.area) {
    for (auto& r : s.a[size_t(n.i)].outer)
      for (int p : linePts(s, r)) push(o, s.p[size_t(p)]);
  } else {
    for (int p : linePts(s, leftOf(s, n))) push(o, s.p[size_t(p)]);
    for (int p : linePts(s, rightOf(s, n), true)) push(o, s.p[size_t(p)]);
  }
  while (o.size() > 1 && o.front().x == o.back().x && o.front().y == o.back().y) o.pop_back();
  return o;
}
double segDist(V2 a, V2 b, V2 q) {
  double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
  double t = l == 0 ? 0 : std::max(0., std::min(1., ((q.x - a.x) * dx + (q.y - a.y) * dy) / l));
  return std::hypot(a.x + t * dx - q.x, a.y + t * dy - q.y);
}
double edgeDist(const Poly& p, V2 q) {
  double d = kInf;
  for (size_t i = 0; i < p.size(); i++) d = std::min(d, segDist(p[i], p[(i + 1) % p.size()], q));
  return d;
}
bool within(const Poly& v, V2 q) {
  bool in = false;
  for (size_t i = 0, j = v.size() - 1; i < v.size(); j = i++)
    if ((v[i].y > q.y) != (v[j].y > q.y) && q.x < (v[j].x - v[i].x) * (q.y - v[i].y) / (v[j].y - v[i].y) + v[i].x) in = !in;
  return in;
}
struct Bx {
  double x0 = kInf, y0 = kInf, x1 = -kInf, y1 = -kInf;
};
Bx boxOf(const Poly& p) {
  Bx b;
  for (auto& v : p) {
    b.x0 = std::min(b.x0, v.x);
    b.x1 = std::max(b.x1, v.x);
    b.y0 = std::min(b.y0, v.y);
    b.y1 = std::max(b.y1, v.y);
  }
  return b;
}
bool boxHit(const Bx& a, const Bx& b, double tol = 0) {
  return a.x0 <= b.x1 + tol && b.x0 <= a.x1 + tol && a.y0 <= b.y1 + tol && b.y0 <= a.y1 + tol;
}
// do the interiors meet
int polyOverlap(const Poly& P, const Poly& Q, double tol) {
  if (P.size() < 3 || Q.size() < 3) return -1;
  const double margin = std::max(1e-6, 20 * tol);
  auto deep = [&](V2 q) { return within(P, q) && within(Q, q) && edgeDist(P, q) > margin && edgeDist(Q, q) > margin; };
  // points of the subsegments of each boundary, moved a little to both sides
  auto probe = [&](const Poly& A, const Poly& B) {
    for (size_t i = 0; i < A.size(); i++) {
      V2 a = A[i], b = A[(i + 1) % A.size()];
      std::vector<double> ts{0, 1};
      double dx = b.x - a.x, dy = b.y - a.y, l = std::hypot(dx, dy);
      if (l == 0) continue;
      for (size_t j = 0; j < B.size(); j++) {
        V2 c = B[j], d = B[(j + 1) % B.size()];
        double ex = d.x - c.x, ey = d.y - c.y, den = dx * ey - dy * ex;
        if (std::fabs(den) > 1e-12) {
          double t = ((c.x - a.x) * ey - (c.y - a.y) * ex) / den;
          if (t > 0 && t < 1) ts.push_back(t);
        }
        for (V2 v : {c, d}) {
          double t = ((v.x - a.x) * dx + (v.y - a.y) * dy) / (l * l);
          if (t > 0 && t < 1) ts.push_back(t);
        }
      }
      std::sort(ts.begin(), ts.end());
      for (size_t k = 0; k + 1 < ts.size(); k++) {
        double m = (ts[k] + ts[k + 1]) / 2;
        for (double off : {0., 0.01, -0.01, 0.2, -0.2})
          if (deep({a.x + m * dx - off * dy / l, a.y + m * dy + off * dx / l})) return true;
      }
    }
    return false;
  };
  if (probe(P, Q) || probe(Q, P)) return 1;
  Bx a = boxOf(P), b = boxOf(Q);
  double x0 = std::max(a.x0, b.x0), x1 = std::min(a.x1, b.x1), y0 = std::max(a.y0, b.y0), y1 = std::min(a.y1, b.y1);
  for (int i = 0; i < 16; i++)
    for (int k = 0; k < 16; k++)
      if (deep({x0 + (x1 - x0) * (i + 0.5) / 16, y0 + (y1 - y0) * (k + 0.5) / 16})) return 1;
  // nothing clearly common: certain only if no vertex lies (almost) on the other's boundary except at shared vertices
  // and no two edges cross properly
  auto same = [&](V2 u, V2 v) { return std::hypot(u.x - v.x, u.y - v.y) <= tol; };
  auto shared = [&](V2 u, const Poly& O) {
    for (auto& v : O)
      if (same(u, v)) return true;
    return false;
  };
  const double near = std::max(1e-5, 100 * tol);
  for (auto& v : P)
    if (!shared(v, Q) && (edgeDist(Q, v) < near || within(Q, v))) return -1;
  for (auto& v : Q)
    if (!shared(v, P) && (edgeDist(P, v) < near || within(P, v))) return -1;
  for (size_t i = 0; i < P.size(); i++)
    for (size_t j = 0; j < Q.size(); j++) {
      V2 p = P[i], q = P[(i + 1) % P.size()], u = Q[j], v = Q[(j + 1) % Q.size()];
      if (same(p, u) || same(p, v) || same(q, u) || same(q, v)) continue;
      auto side = [](V2 a, V2 b, V2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); };
      double s1 = side(p, q, u), s2 = side(p, q, v), s3 = side(u, v, p), s4 = side(u, v, q);
      if (s1 * s2 < 0 && s3 * s4 < 0) return -1;
    }
  return 0;
}
bool sameRef(Ref a, Ref b) { return a.i == b.i && a.inv == b.inv; }
Ref flip(Ref a) { return {a.i, !a.inv}; }
bool followsN(const Spec& s, GNode a, GNode b) {
  auto al = linePts(s, leftOf(s, a)), ar = linePts(s, rightOf(s, a)), bl = linePts(s, leftOf(s, b)), br = linePts(s, rightOf(s, b));
  if (al.empty() || ar.empty() || bl.empty() || br.empty()) return false;
  return al.back() == bl.front() && ar.back() == br.front();
}
double polyline(const Spec& s, const std::vector<int>& v) {
  double d = 0;
  for (size_t i = 0; i + 1 < v.size(); i++) {
    auto &a = s.p[size_t(v[i])], &b = s.p[size_t(v[i + 1])];
    d += std::hypot(a.x - b.x, a.y - b.y);
  }
  return d;
}
double lengthOf(const Spec& s, GNode n) {
  if (!n.area) return polyline(s, linePts(s, leftOf(s, n)));
  Poly p = polyOf(s, n);
  double d = 0;
  for (size_t i = 0; i < p.size(); i++) d += std::hypot(p[i].x - p[(i + 1) % p.size()].x, p[i].y - p[(i + 1) % p.size()].y);
  return d;
}
}  // namespace
int lltOverlap(const Spec& s, GNode a, GNode b, double tol) {
  if (!a.area && !b.area) {
    if (a.i == b.i) return 1;
    GNode ai = a, bi = b;
    ai.inv = !a.inv;
    bi.inv = !b.inv;
    Ref al = leftOf(s, a), ar = rightOf(s, a), bl = leftOf(s, b), br = rightOf(s, b);
    if (sameRef(ar, bl) || sameRef(al, br) || sameRef(flip(al), bl) || sameRef(flip(ar), br) || followsN(s, a, b) || followsN(s, b, a) ||
        followsN(s, ai, b) || followsN(s, bi, a))
      return 0;
  }
  Poly p = polyOf(s, a), q = polyOf(s, b);
  if (!boxHit(boxOf(p), boxOf(q), tol)) return 0;
  return polyOverlap(p, q, tol);
}
// ------------------------------------------------------------------ reference graph
std::string RefGraph::key(int node) const {
  auto& x = n[size_t(node)];
  if (x.area) return fmt("A%lld", (long long)s->a[size_t(x.i)].id);
  return fmt("T%lld%c", (long long)s->t[size_t(x.i)].id, x.inv ? '-' : '+');
}
Handles handlesOf(const Built& b) {
  Handles hd;
  for (auto& t : b.t) hd.t.push_back(t);
  for (auto& a : b.a) hd.a.push_back(a);
  return hd;
}
Handles handlesOf(const Spec& s, const LaneletMapLayers& m, int* missing) {
  Handles hd;
  *missing = 0;
  Lib l;
  for (auto& t : s.t) {
    auto it = m.laneletLayer.find(t.id);
    if (it == m.laneletLayer.end()) {
      ++*missing;
      ConstLanelet none{InvalId, LineString3d(InvalId, {}), LineString3d(InvalId, {})};
      Harness hm;
      hd.t.push_back(none);
    } else {
      Harness hm;
      hd.t.push_back(*it);
    }
  }
  for (auto& a : s.a) {
    auto it = m.areaLayer.find(a.id);
    if (it == m.areaLayer.end()) {
      ++*missing;
      ConstArea none;
      Harness hm;
      hd.a.push_back(none);
    } else {
      Harness hm;
      hd.a.push_back(*it);
    }
  }
  return hd;
}
RefGraph refGraph(const Spec& s, const Handles& hd, const GraphCfg& cfg, const traffic_rules::TrafficRules& rules, const lr::RoutingCostPtrs& costs,
                  const std::set<int>* lanelets, const std::set<int>* areas, double tol) {
  RefGraph g;
  g.s = &s;
  g.costs = cfg.costs;
  g.polyTol = tol;
  if (tol > 1e-6) {
    g.tol = 1e-4;
    g.eps = 1e-3;
  }
  const int nc = int(cfg.costs.size());
  g.e.resize(size_t(nc));
  auto ok1 = [&](GNode n) {
    return lib([&] { return n.area ? rules.canPass(hd.a[size_t(n.i)]) : rules.canPass(hd.ll(n)); });
  };
  auto ok2 = [&](GNode a, GNode b) {
    return lib([&] {
      if (a.area && b.area) return rules.canPass(hd.a[size_t(a.i)], hd.a[size_t(b.i)]);
      if (a.area) return rules.canPass(hd.a[size_t(a.i)], hd.ll(b));
      if (b.area) return rules.canPass(hd.ll(a), hd.a[size_t(b.i)]);
      return rules.canPass(hd.ll(a), hd.ll(b));
    });
  };
  auto add = [&](GNode n) {
    g.idx[(n.area ? fmt("A%lld", (long long)s.a[size_t(n.i)].id) : fmt("T%lld%c", (long long)s.t[size_t(n.i)].id, n.inv ? '-' : '+'))] = int(g.n.size());
    g.n.push_back(n);
  };
  std::vector<char> both(s.t.size(), 0), pass(s.t.size(), 0), passA(s.a.size(), 0);
  for (int i = 0; i < int(s.t.size()); i++) {
    if (lanelets && !lanelets->count(i)) continue;
    if (s.l[size_t(s.t[size_t(i)].left.i)].pts.empty() || s.l[size_t(s.t[size_t(i)].right.i)].pts.empty()) continue;
    if (!ok1({false, i, false})) continue;
    pass[size_t(i)] = 1;
    add({false, i, false});
    if (ok1({false, i, true})) {
      both[size_t(i)] = 1;
      add({false, i, true});
    }
  }
  for (int i = 0; i < int(s.a.size()); i++) {
    if (areas && !areas->count(i)) continue;
    if (!ok1({true, i, false})) continue;
    passA[size_t(i)] = 1;
    add({true, i, false});
  }
  const int N = int(g.n.size());
  std::vector<std::map<int, int>> rels(static_cast<size_t>(N));  // pairs that have some edge already
  auto put = [&](int c, int a, int b, int rel, double cost, int sure = 1) {
    if (!std::isfinite(cost)) return;
    if (cost < 0) g.negative = true;
    g.e[size_t(c)].push_back({a, b, rel, cost, sure});
    rels[size_t(a)][b] |= rel;
  };
  std::vector<double> len(static_cast<size_t>(N)), speed(static_cast<size_t>(N));
  for (int i = 0; i < N; i++) {
    len[size_t(i)] = lengthOf(s, g.n[size_t(i)]);
    speed[size_t(i)] = lib([&] {
      auto& n = g.n[size_t(i)];
      return (n.area ? rules.speedLimit(hd.a[size_t(n.i)]) : rules.speedLimit(hd.ll(n))).speedLimit.value();
    });
  }
  auto timeOf = [&](int i) {
    double v = speed[size_t(i)];
    return len[size_t(i)] / v;  // nothing moves where the limit is zero: infinite, no connection
  };
  auto succCost = [&](int c, int a, int b) {
    auto& k = cfg.costs[size_t(c)];
    if (k.kind == 0) return (len[size_t(a)] + len[size_t(b)]) / 2;
    if (k.kind == 1) return (timeOf(a) + timeOf(b)) / 2;
    return lib([&] { return costs[size_t(c)]->getCostSucceeding(rules, hd.la(g.n[size_t(a)]), hd.la(g.n[size_t(b)])); });
  };
  // successors
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++) {
      GNode x = g.n[size_t(a)], y = g.n[size_t(b)];
      if (x.area || y.area || !followsN(s, x, y) || !ok2(x, y)) continue;
      for (int c = 0; c < nc; c++) put(c, a, b, kSucc, succCost(c, a, b));
    }
  // neighbours
  std::map<std::pair<int, int>, int> change;  // lane changes: pair -> left/right
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++) {
      GNode x = g.n[size_t(a)], y = g.n[size_t(b)];
      if (a == b || x.area || y.area) continue;
      int adj = sameRef(rightOf(s, y), leftOf(s, x)) ? kAdjL : sameRef(leftOf(s, y), rightOf(s, x)) ? kAdjR : 0;
      if (!adj || rels[size_t(a)].count(b)) continue;
      if (lib([&] { return rules.canChangeLane(hd.ll(x), hd.ll(y)); })) change[{a, b}] = adj == kAdjL ? kLeft : kRight;
      else
        for (int c = 0; c < nc; c++) put(c, a, b, adj, 1);
    }
  std::vector<std::vector<int>> next(static_cast<size_t>(N));
  for (auto& e : g.e[0])
    if (e.rel == kSucc) next[size_t(e.from)].push_back(e.to);
  for (auto& ch : change) {
    std::vector<int> from{ch.first.first}, to{ch.first.second};
    std::set<std::pair<int, int>> seen{ch.first};
    while (true) {
      auto &nf = next[size_t(from.back())], &nt = next[size_t(to.back())];
      if (nf.size() != 1 || nt.size() != 1) break;
      auto it = change.find({nf[0], nt[0]});
      if (it == change.end() || it->second != ch.second || !seen.insert({nf[0], nt[0]}).second) break;
      from.push_back(nf[0]);
      to.push_back(nt[0]);
    }
    for (int c = 0; c < nc; c++) {
      auto& k = cfg.costs[size_t(c)];
      double cost;
      if (k.kind == 0 || k.kind == 1) {
        double total = 0;
        for (int i : from) total += k.kind == 0 ? len[size_t(i)] : timeOf(i);
        cost = k.minLen <= 0 || total >= k.minLen ? k.change : kInf;
        if (std::fabs(total - k.minLen) <= g.tol * 10 * (1 + total)) g.vague = true;
      } else {
        cost = lib([&] {
          ConstLanelets f, t;
          for (int i : from) f.push_back(hd.ll(g.n[size_t(i)]));
          for (int i : to) t.push_back(hd.ll(g.n[size_t(i)]));
          return costs[size_t(c)]->getCostLaneChange(rules, f, t);
        });
      }
      if (std::isfinite(cost)) put(c, ch.first.first, ch.first.second, ch.second, cost);
      else put(c, ch.first.first, ch.first.second, ch.second == kLeft ? kAdjL : kAdjR, 1);
    }
  }
  // conflicts
  auto conflict = [&](int a, int b, int sure) {
    for (int c = 0; c < nc; c++) put(c, a, b, kConf, 1, sure);
  };
  auto hit = [&](GNode x, GNode y) {
    int o = lltOverlap(s, x, y, tol);
    if (o == 1 && cfg.height == 2 && !(!x.area && !y.area && x.i == y.i)) o = -1;  // heights are not modelled
    return o;
  };
  for (int a = 0; a < N; a++)
    for (int b = a + 1; b < N; b++) {
      GNode x = g.n[size_t(a)], y = g.n[size_t(b)];
      if (x.area != y.area) {
        int ar = x.area ? a : b, ll = x.area ? b : a;
        if (g.n[size_t(ll)].inv) continue;
        GNode A = g.n[size_t(ar)], L = g.n[size_t(ll)], I = L;
        I.inv = true;
        if (tol > 1e-6 && cfg.rules == 8 && boxHit(boxOf(polyOf(s, A)), boxOf(polyOf(s, L)), tol) != boxHit(boxOf(polyOf(s, A)), boxOf(polyOf(s, L)), -tol)) g.vague = true;
        if (!boxHit(boxOf(polyOf(s, A)), boxOf(polyOf(s, L)), tol)) continue;
        int inv = g.find(fmt("T%lld-", (long long)s.t[size_t(L.i)].id));
        bool any = false;
        auto area = [&](int f, int t) {
          any = true;
          for (int c = 0; c < nc; c++) put(c, f, t, kArea, succCost(c, f, t));
        };
        if (ok2(A, L)) area(ar, ll);
        if (inv >= 0 && ok2(A, I)) area(ar, inv);
        if (ok2(L, A)) area(ll, ar);
        if (inv >= 0 && ok2(I, A)) area(inv, ar);
        if (!any) {
          int o = hit(A, L);
          if (o) conflict(ll, ar, o == 1);
        }
        continue;
      }
      if (x.area) {
        if (tol > 1e-6 && cfg.rules == 8 && boxHit(boxOf(polyOf(s, x)), boxOf(polyOf(s, y)), tol) != boxHit(boxOf(polyOf(s, x)), boxOf(polyOf(s, y)), -tol)) g.vague = true;
        if (!boxHit(boxOf(polyOf(s, x)), boxOf(polyOf(s, y)), tol)) continue;
        for (int d = 0; d < 2; d++) {
          int f = d ? b : a, t = d ? a : b;
          if (ok2(g.n[size_t(f)], g.n[size_t(t)])) {
            for (int c = 0; c < nc; c++) put(c, f, t, kArea, succCost(c, f, t));
          } else {
            int o = hit(x, y);
            if (o) conflict(t, f, o == 1);
          }
        }
        continue;
      }
      if (x.inv && y.inv) continue;  // only reported between a lanelet as drawn and another one
      if (x.i == y.i) {
        conflict(a, b, 1);
        conflict(b, a, 1);
        continue;
      }
      if (rels[size_t(a)].count(b) || rels[size_t(b)].count(a)) continue;
      int o = hit(x, y);
      if (o) {
        conflict(a, b, o == 1);
        conflict(b, a, o == 1);
      }
    }
  g.out.assign(size_t(nc), std::vector<std::vector<int>>(static_cast<size_t>(N)));
  g.in = g.out;
  for (int c = 0; c < nc; c++)
    for (int i = 0; i < int(g.e[size_t(c)].size()); i++) {
      auto& e = g.e[size_t(c)][size_t(i)];
      g.out[size_t(c)][size_t(e.from)].push_back(i);
      g.in[size_t(c)][size_t(e.to)].push_back(i);
    }
  return g;
}
std::vector<double> distances(const RefGraph& g, int cost, int mask, int start, bool backward, const std::function<bool(int, double)>& expand) {
  std::vector<double> d(g.n.size(), kInf);
  std::set<std::pair<double, int>> q;
  d[size_t(start)] = 0;
  q.insert({0, start});
  while (!q.empty()) {
    auto it = q.begin();
    int v = it->second;
    q.erase(it);
    if (expand && !expand(v, d[size_t(v)])) continue;
    for (int i : (backward ? g.in : g.out)[size_t(cost)][size_t(v)]) {
      auto& e = g.e[size_t(cost)][size_t(i)];
      if (!(e.rel & mask)) continue;
      int w = backward ? e.from : e.to;
      double nd = d[size_t(v)] + e.cost;
      if (nd < d[size_t(w)]) {
        q.erase({d[size_t(w)], w});
        d[size_t(w)] = nd;
        q.insert({nd, w});
      }
    }
  }
  return d;
}
// ------------------------------------------------------------------ asking
std::string nodeText(const ConstLaneletOrArea& la) {
  if (la.isArea()) return fmt("A%lld", (long long)la.id());
  return fmt("T%lld%c", (long long)la.id(), static_cast<const ConstLanelet&>(la).inverted() ? '-' : '+');
}
namespace {
struct Pick {
  GNode n;
  int ref;  // -1: not in the graph
};
Pick pickNode(const RefGraph& g, int sel, bool allowArea) {
  const int T = int(g.s->t.size()), A = allowArea ? int(g.s->a.size()) : 0;
  Pick p;
  // mostly nodes of the graph
  if (sel % 8 != 7 && !g.n.empty()) {
    for (int k = 0; k < int(g.n.size()); k++) {
      int i = (sel / 8 + k) % int(g.n.size());
      if (g.n[size_t(i)].area && !allowArea) continue;
      return {g.n[size_t(i)], i};
    }
  }
  if (2 * T + A == 0) return {{false, -1, false}, -1};
  int x = (sel / 8) % (2 * T + A);
  p.n = x < 2 * T ? GNode{false, x / 2, x % 2 == 1} : GNode{true, x - 2 * T, false};
  p.ref = g.find(p.n.area ? fmt("A%lld", (long long)g.s->a[size_t(p.n.i)].id) : fmt("T%lld%c", (long long)g.s->t[size_t(p.n.i)].id, p.n.inv ? '-' : '+'));
  return p;
}
int maskOf(bool lc, bool ar) { return kSucc | (lc ? kLeft | kRight : 0) | (ar ? kArea : 0); }
// parameters shared by asking and judging
struct QP {
  Pick a, b, v;
  int cost;
  bool lc, area;
  double limit = 0;
  int elements = 0;
  bool useCost = false, useLen = false, shorter = false;
  u64 stop = 0;
};
bool isArea(int kind) { return kind == 6 || kind == 9 || kind == 11 || kind == 13 || kind == 17 || kind == 20 || kind == 21; }
bool backwardKind(int kind) { return kind == 14 || kind == 16 || kind == 19 || kind == 21; }
QP params(const RefGraph& g, const GraphQuery& q) {
  QP p;
  p.area = isArea(q.kind);
  p.a = pickNode(g, q.a, p.area);
  p.b = pickNode(g, q.b, p.area);
  p.v = pickNode(g, q.c, p.area);
  p.cost = q.cost % g.numIds();
  Rng r(mix(q.seed, 5));
  p.lc = r.chance(2, 3);
  if (q.kind == 13) p.lc = true;
  if (p.a.ref >= 0) {
    auto d = distances(g, p.cost, maskOf(p.lc, p.area), p.a.ref, backwardKind(q.kind));
    std::vector<double> v;
    for (double x : d)
      if (std::isfinite(x)) v.push_back(x);
    double base = pickOf(r, v);
    p.limit = r.chance(1, 8) ? 0 : g.exact(p.cost) && r.chance(2, 3) ? base : base + (r.chance(1, 2) ? 0.01 : -0.01);
    if (r.chance(1, 8)) p.limit = 1e9;
    if (r.chance(1, 30)) p.limit = -1;
  }
  p.elements = int(r.range(0, 7));
  u64 m = r.below(3);
  p.useCost = m != 1;
  p.useLen = m != 0;
  p.shorter = r.chance(1, 2);
  p.stop = r.chance(1, 2) ? r.next() | 1 : 0;
  return p;
}
bool stopHere(u64 stop, const std::string& node) {
  if (!stop) return false;
  u64 x = stop;
  for (char c : node) x = mix(x, u64(c));
  return x % 5 == 0;
}
template <typename C>
void putNodes(std::vector<std::string>& o, const C& c) {
  Harness hm;
  for (auto& x : c) o.push_back(nodeText(x));
}
void sortNodes(GraphAnswer& a) { std::sort(a.nodes.begin(), a.nodes.end()); }
std::string relKey(const std::string& n, int r) { return fmt("%s:%d", n.c_str(), r); }
void askRoute(const lr::RoutingGraph& g, const RefGraph& ref, const Handles& hd, const GraphQuery& q, const QP& p, GraphAnswer& a) {
  Optional<lr::Route> ro;
  u64 how = q.seed % 3;
  if (how == 0 && p.v.n.i >= 0) ro = g.getRouteVia(hd.ll(p.a.n), {hd.ll(p.v.n)}, hd.ll(p.b.n), lr::RoutingCostId(p.cost), p.lc);
  else ro = g.getRoute(hd.ll(p.a.n), hd.ll(p.b.n), lr::RoutingCostId(p.cost), p.lc);
  a.has = !!ro;
  if (!ro) return;
  const lr::Route& r = *ro;
  auto list = [&](const std::string& k, const auto& c) {
    Harness hm;
    auto& v = a.m[k];
    for (auto& x : c) v.push_back(nodeText(x));
  };
  auto relations = [&](const std::string& k, const auto& c) {
    Harness hm;
    auto& v = a.m[k];
    for (auto& x : c) v.push_back(relKey(nodeText(x.lanelet), int(x.relationType)));
  };
  list("path", r.shortestPath());
  a.num = i64(r.size());
  a.d = r.length2d();
  {
    auto n = r.numLanes();
    Harness hm;
    a.m["lanes"] = {fmt("%zu", n)};
  }
  auto sub = r.laneletSubmap();
  list("submap", sub->laneletLayer);
  list("allconf", r.allConflictingInMap());
  auto errs = r.checkValidity(false);
  {
    Harness hm;
    for (auto& e : errs) a.m["errors"].push_back(e.c_str());
    std::sort(a.m["errors"].begin(), a.m["errors"].end());
  }
  auto dbg = r.getDebugLaneletMap();
  {
    std::vector<std::string> pts;
    for (auto& pt : dbg->pointLayer) {
      Harness hm;
      a.m["debugpoints"].push_back(fmt("%lld", (long long)pt.id()));
    }
  }
  for (size_t i = 0; i < ref.n.size(); i++) {
    GNode n;
    std::string k;
    {
      Harness hm;
      n = ref.n[i];
      k = ref.key(int(i));
    }
    if (n.area) continue;
    ConstLanelet l = hd.ll(n);
    bool in = r.contains(l);
    {
      Harness hm;
      if (in) a.m["contains"].push_back(k);
    }
    auto key = [&](const char* what) {
      Harness hm;
      return std::string(what) + " " + k;
    };
    if (!in && i % 5 != q.seed % 5) continue;  // some lanelets outside of the route, too
    list(key("following"), r.following(l));
    relations(key("followingRelations"), r.followingRelations(l));
    list(key("previous"), r.previous(l));
    relations(key("previousRelations"), r.previousRelations(l));
    list(key("conflictingInRoute"), r.conflictingInRoute(l));
    list(key("conflictingInMap"), r.conflictingInMap(l));
    list(key("fullLane"), r.fullLane(l).lanelets());
    list(key("remainingLane"), r.remainingLane(l).lanelets());
    list(key("remainingPath"), r.remainingShortestPath(l));
    auto one = [&](const std::string& k2, const Optional<lr::LaneletRelation>& x) {
      Harness hm;
      auto& v = a.m[k2];
      if (x) v.push_back(relKey(nodeText(x->lanelet), int(x->relationType)));
    };
    one(key("left"), r.leftRelation(l));
    one(key("right"), r.rightRelation(l));
    relations(key("lefts"), r.leftRelations(l));
    relations(key("rights"), r.rightRelations(l));
  }
  auto visit = [&](const lr::LaneletVisitInformation& i) {
    Harness hm;
    a.visits.push_back({nodeText(i.lanelet), nodeText(i.predecessor), i.cost, i.length, i.numLaneChanges});
    return true;
  };
  if (q.seed % 2) r.forEachSuccessor(hd.ll(p.a.n), visit);
  else r.forEachPredecessor(hd.ll(p.b.n), visit);
}
}  // namespace
GraphAnswer askGraph(const lr::RoutingGraph& g, const RefGraph& ref, const Handles& hd, const GraphQuery& q) {
  GraphAnswer a;
  QP p = params(ref, q);
  if (p.a.n.i < 0 || p.b.n.i < 0) return a;
  const lr::RoutingCostId cid = lr::RoutingCostId(p.cost);
  a.res = attempt([&] {
    auto rels = [&](const lr::LaneletRelations& v) {
      Harness hm;
      for (auto& x : v) a.rels.push_back({nodeText(x.lanelet), int(x.relationType)});
    };
    auto one = [&](const Optional<ConstLanelet>& l) {
      Harness hm;
      a.has = !!l;
      if (l) a.nodes.push_back(nodeText(*l));
    };
    auto path = [&](const auto& v) {
      Harness hm;
      std::vector<std::string> o;
      for (auto& x : v) o.push_back(nodeText(x));
      a.paths.push_back(std::move(o));
    };
    lr::PossiblePathsParams pp;
    if (p.useCost) pp.routingCostLimit = p.limit;
    if (p.useLen) pp.elementLimit = uint32_t(p.elements);
    pp.routingCostId = cid;
    pp.includeLaneChanges = p.lc;
    pp.includeShorterPaths = p.shorter;
    auto visit = [&](const lr::LaneletVisitInformation& i) {
      Harness hm;
      a.visits.push_back({nodeText(i.lanelet), nodeText(i.predecessor), i.cost, i.length, i.numLaneChanges});
      return !stopHere(p.stop, a.visits.back().node);
    };
    auto visitLa = [&](const lr::LaneletOrAreaVisitInformation& i) {
      Harness hm;
      a.visits.push_back({nodeText(i.laneletOrArea), nodeText(i.predecessor), i.cost, i.length, i.numLaneChanges});
      return !stopHere(p.stop, a.visits.back().node);
    };
    switch (q.kind) {
      case 0:
        if (q.seed % 2) putNodes(a.nodes, g.following(hd.ll(p.a.n), p.lc));
        else rels(g.followingRelations(hd.ll(p.a.n), p.lc));
        break;
      case 1:
        if (q.seed % 2) putNodes(a.nodes, g.previous(hd.ll(p.a.n), p.lc));
        else rels(g.previousRelations(hd.ll(p.a.n), p.lc));
        break;
      case 2:
        switch (q.seed % 4) {
          case 0: one(g.left(hd.ll(p.a.n), cid)); break;
          case 1: one(g.right(hd.ll(p.a.n), cid)); break;
          case 2: one(g.adjacentLeft(hd.ll(p.a.n), cid)); break;
          default: one(g.adjacentRight(hd.ll(p.a.n), cid));
        }
        break;
      case 3:
        switch (q.seed % 4) {
          case 0: putNodes(a.nodes, g.lefts(hd.ll(p.a.n), cid)); break;
          case 1: putNodes(a.nodes, g.rights(hd.ll(p.a.n), cid)); break;
          case 2: putNodes(a.nodes, g.adjacentLefts(hd.ll(p.a.n), cid)); break;
          default: putNodes(a.nodes, g.adjacentRights(hd.ll(p.a.n), cid));
        }
        break;
      case 4:
        if (q.seed % 2) rels(g.leftRelations(hd.ll(p.a.n), cid));
        else rels(g.rightRelations(hd.ll(p.a.n), cid));
        break;
      case 5: putNodes(a.nodes, g.besides(hd.ll(p.a.n), cid)); break;
      case 6: putNodes(a.nodes, g.conflicting(hd.la(p.a.n))); break;
      case 7: {
        auto x = g.routingRelation(hd.ll(p.a.n), hd.ll(p.b.n), q.seed % 2);
        a.has = !!x;
        if (x) a.num = i64(*x);
        break;
      }
      case 8: {
        auto x = g.shortestPath(hd.ll(p.a.n), hd.ll(p.b.n), cid, p.lc);
        a.has = !!x;
        if (x) path(*x);
        break;
      }
      case 9: {
        auto x = g.shortestPathIncludingAreas(hd.la(p.a.n), hd.la(p.b.n), cid, p.lc);
        a.has = !!x;
        if (x) path(*x);
        break;
      }
      case 10: {
        auto x = g.shortestPathVia(hd.ll(p.a.n), {hd.ll(p.v.n)}, hd.ll(p.b.n), cid, p.lc);
        a.has = !!x;
        if (x) path(*x);
        break;
      }
      case 11: {
        auto x = g.shortestPathIncludingAreasVia(hd.la(p.a.n), {hd.la(p.v.n)}, hd.la(p.b.n), cid, p.lc);
        a.has = !!x;
        if (x) path(*x);
        break;
      }
      case 12: putNodes(a.nodes, g.reachableSet(hd.ll(p.a.n), p.limit, cid, p.lc)); break;
      case 13: putNodes(a.nodes, g.reachableSetIncludingAreas(hd.la(p.a.n), p.limit, cid)); break;
      case 14: putNodes(a.nodes, g.reachableSetTowards(hd.ll(p.a.n), p.limit, cid, p.lc)); break;
      case 15:
        if (p.useCost && !p.useLen && !p.shorter && q.seed % 2)
          for (auto& x : g.possiblePaths(hd.ll(p.a.n), p.limit, cid, p.lc)) path(x);
        else if (!p.useCost && p.useLen && !p.shorter && q.seed % 2)
          for (auto& x : g.possiblePaths(hd.ll(p.a.n), uint32_t(p.elements), p.lc, cid)) path(x);
        else
          for (auto& x : g.possiblePaths(hd.ll(p.a.n), pp)) path(x);
        break;
      case 16:
        if (p.useCost && !p.useLen && !p.shorter && q.seed % 2)
          for (auto& x : g.possiblePathsTowards(hd.ll(p.a.n), p.limit, cid, p.lc)) path(x);
        else if (!p.useCost && p.useLen && !p.shorter && q.seed % 2)
          for (auto& x : g.possiblePathsTowards(hd.ll(p.a.n), uint32_t(p.elements), p.lc, cid)) path(x);
        else
          for (auto& x : g.possiblePathsTowards(hd.ll(p.a.n), pp)) path(x);
        break;
      case 17:
        if (p.useCost && !p.useLen && !p.shorter && q.seed % 2)
          for (auto& x : g.possiblePathsIncludingAreas(hd.la(p.a.n), p.limit, cid, p.lc)) path(x);
        else if (!p.useCost && p.useLen && !p.shorter && q.seed % 2)
          for (auto& x : g.possiblePathsIncludingAreas(hd.la(p.a.n), uint32_t(p.elements), p.lc, cid)) path(x);
        else
          for (auto& x : g.possiblePathsIncludingAreas(hd.la(p.a.n), pp)) path(x);
        break;
      case 18: g.forEachSuccessor(hd.ll(p.a.n), visit, p.lc, cid); break;
      case 19: g.forEachPredecessor(hd.ll(p.a.n), visit, p.lc, cid); break;
      case 20: g.forEachSuccessorIncludingAreas(hd.la(p.a.n), visitLa, p.lc, cid); break;
      case 21: g.forEachPredecessorIncludingAreas(hd.la(p.a.n), visitLa, p.lc, cid); break;
      case 22: askRoute(g, ref, hd, q, p, a); break;
      case 23: {
        auto sub = g.passableSubmap();
        putNodes(a.nodes, sub->laneletLayer);
        putNodes(a.nodes, sub->areaLayer);
        auto errs = g.checkValidity(false);
        {
          Harness hm;
          for (auto& e : errs) a.m["errors"].push_back(e.c_str());
          std::sort(a.m["errors"].begin(), a.m["errors"].end());
        }
        auto dbg = g.getDebugLaneletMap(cid, q.seed % 2, q.seed / 2 % 2);
        for (auto& pt : dbg->pointLayer) {
          Harness hm;
          a.m["debugpoints"].push_back(fmt("%lld", (long long)pt.id()));
        }
        for (auto& l : dbg->lineStringLayer) {
          Id f = l.front().id(), t = l.back().id();
          std::string rel = l.attributeOr("relation", std::string());
          double cost = l.attributeOr("routing_cost", -1.);
          Harness hm;
          a.m["debuglines"].push_back(fmt("%lld>%lld %s %.4f", (long long)f, (long long)t, rel.c_str(), cost));
        }
        {
          Harness hm;
          std::sort(a.m["debuglines"].begin(), a.m["debuglines"].end());
          std::sort(a.m["debugpoints"].begin(), a.m["debugpoints"].end());
        }
        break;
      }
      case 24: {
        lr::RoutingGraphContainer cont(std::vector<lr::RoutingGraphConstPtr>{lr::RoutingGraphConstPtr(&g, [](const lr::RoutingGraph*) {})});
        if (q.seed % 4 == 3) {
          cont.conflictingInGraph(hd.ll(p.a.n), 1);
        } else if (q.seed % 2) {
          putNodes(a.nodes, cont.conflictingInGraph(hd.ll(p.a.n), 0));
        } else {
          auto v = cont.conflictingInGraphs(hd.ll(p.a.n));
          if (v.size() == 1 && v[0].first == 0) putNodes(a.nodes, v[0].second);
          else a.num = 1;
        }
        break;
      }
      default: {
        lr::RoutingCostId bad = lr::RoutingCostId(ref.numIds() + int(q.seed / 16 % 3));
        lr::PossiblePathsParams none;
        switch (q.seed % 10) {
          case 0: g.shortestPath(hd.ll(p.a.n), hd.ll(p.b.n), bad, p.lc); break;
          case 1: g.reachableSet(hd.ll(p.a.n), 10, bad, p.lc); break;
          case 2: g.possiblePaths(hd.ll(p.a.n), none); break;
          case 3: g.left(hd.ll(p.a.n), bad); break;
          case 4: g.exportGraphML("", lr::RelationType::None, 0); break;
          case 5: g.exportGraphViz("/simdisk/x.gv", lr::RelationType::None, bad); break;
          case 6: g.getDebugLaneletMap(bad); break;
          case 7: g.getRoute(hd.ll(p.a.n), hd.ll(p.b.n), bad); break;
          case 8: g.forEachSuccessor(hd.ll(p.a.n), visit, p.lc, bad); break;
          default: g.possiblePathsTowards(hd.ll(p.a.n), none);
        }
      }
    }
  });
  return a;
}
// ------------------------------------------------------------------ judging
namespace {
bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
std::string join(const std::vector<std::string>& v) {
  std::string o = "[";
  for (auto& x : v) o += x + " ";
  return o + "]";
}
std::vector<const GEdge*> edges(const RefGraph& g, int c, int from, int to, int mask) {
  std::vector<const GEdge*> o;
  for (int i : g.out[size_t(c)][size_t(from)]) {
    auto& e = g.e[size_t(c)][size_t(i)];
    if (e.to == to && (e.rel & mask)) o.push_back(&e);
  }
  return o;
}
// required and allowed members of a list
std::string judgeList(std::vector<std::string> got, std::vector<std::string> must, std::vector<std::string> may, const char* what) {
  std::sort(got.begin(), got.end());
  std::vector<std::string> left = got;
  for (auto& x : must) {
    auto it = std::find(left.begin(), left.end(), x);
    if (it == left.end()) return fmt("%s: %s missing in %s", what, x.c_str(), join(got).c_str());
    left.erase(it);
  }
  for (auto& x : may) {
    auto it = std::find(left.begin(), left.end(), x);
    if (it != left.end()) left.erase(it);
  }
  if (!left.empty()) {
    std::sort(must.begin(), must.end());
    return fmt("%s: %s does not belong to %s, expected %s", what, left[0].c_str(), join(got).c_str(), join(must).c_str());
  }
  return {};
}
struct Split {
  std::vector<std::string> must, may;
};
Split targets(const RefGraph& g, int c, int node, int mask, bool backward, bool withRel, const std::function<bool(int)>& keep = {}) {
  Split s;
  if (node < 0) return s;
  for (int i : (backward ? g.in : g.out)[size_t(c)][size_t(node)]) {
    auto& e = g.e[size_t(c)][size_t(i)];
    if (!(e.rel & mask)) continue;
    int o = backward ? e.from : e.to;
    if (keep && !keep(o)) continue;
    std::string k = withRel ? relKey(g.key(o), e.rel) : g.key(o);
    (e.sure ? s.must : s.may).push_back(k);
  }
  return s;
}
// cost of a path, -1 if it uses an edge that does not exist
double pathCost(const RefGraph& g, int c, int mask, const std::vector<std::string>& p, std::string* err) {
  double d = 0;
  for (size_t i = 0; i < p.size(); i++)
    if (g.find(p[i]) < 0) {
      *err = p[i] + " is not in the graph";
      return -1;
    }
  for (size_t i = 0; i + 1 < p.size(); i++) {
    auto e = edges(g, c, g.find(p[i]), g.find(p[i + 1]), mask);
    if (e.empty()) {
      *err = "no usable connection " + p[i] + " -> " + p[i + 1] + " in " + join(p);
      return -1;
    }
    double best = kInf;
    for (auto* x : e) best = std::min(best, x->cost);
    d += best;
  }
  return d;
}
std::string judgeVisits(const RefGraph& g, int c, int mask, int start, bool backward, u64 stop, const std::vector<Visit>& v,
                        const std::function<bool(int)>& keep = {}) {
  if (start < 0) return v.empty() ? "" : "visited something from an element that is not in the graph";
  const double tol = g.tol;
  auto d = distances(g, c, mask, start, backward, [&](int n, double) { return !stopHere(stop, g.key(n)); });
  if (keep) {
    // restricted graph
    std::vector<double> dd(g.n.size(), kInf);
    dd[size_t(start)] = 0;
    for (size_t round = 0; round < g.n.size(); round++)
      for (auto& e : g.e[size_t(c)]) {
        if (!(e.rel & mask) || !keep(e.from) || !keep(e.to)) continue;
        int f = backward ? e.to : e.from, t = backward ? e.from : e.to;
        if (stopHere(stop, g.key(f))) continue;
        dd[size_t(t)] = std::min(dd[size_t(t)], dd[size_t(f)] + e.cost);
      }
    d = dd;
  }
  std::map<std::string, const Visit*> seen;
  double last = 0;
  for (auto& x : v) {
    int n = g.find(x.node);
    if (n < 0) return x.node + " visited but not in the graph";
    if (!std::isfinite(d[size_t(n)])) return x.node + " visited but not reachable";
    if (!seen.emplace(x.node, &x).second) return x.node + " visited twice";
    if (!close(x.cost, d[size_t(n)], tol)) return fmt("%s visited at cost %.12g, cheapest is %.12g", x.node.c_str(), x.cost, d[size_t(n)]);
    if (x.cost < last - tol * (1 + last)) return fmt("%s visited at cost %.12g after an element at cost %.12g", x.node.c_str(), x.cost, last);
    last = std::max(last, x.cost);
    if (n == start) {
      if (&x != &v[0]) return "the start was not visited first";
      if (x.pred != x.node || x.cost != 0 || x.len != 1 || x.lc != 0) return "wrong information at the start";
      continue;
    }
    auto pr = seen.find(x.pred);
    if (pr == seen.end()) return x.node + " visited before its predecessor " + x.pred;
    if (stopHere(stop, x.pred)) return x.pred + " was expanded although the callback returned false";
    int p = g.find(x.pred);
    if (x.len != pr->second->len + 1) return fmt("length of %s is %zu, of its predecessor %zu", x.node.c_str(), x.len, pr->second->len);
    bool ok = false;
    for (auto* e : edges(g, c, backward ? n : p, backward ? p : n, mask))
      ok |= close(pr->second->cost + e->cost, x.cost, tol) && x.lc == pr->second->lc + (e->rel != kSucc);
    if (!ok) return fmt("no edge explains the step from %s (cost %.12g, changes %zu) to %s (cost %.12g, changes %zu)", x.pred.c_str(), pr->second->cost, pr->second->lc, x.node.c_str(), x.cost, x.lc);
  }
  for (size_t i = 0; i < d.size(); i++)
    if (std::isfinite(d[i]) && !seen.count(g.key(int(i)))) return g.key(int(i)) + " is reachable but was not visited";
  return {};
}
std::string judgePossible(const RefGraph& g, const QP& p, int mask, bool backward, const GraphAnswer& a) {
  if (p.a.ref < 0) return a.paths.empty() ? "" : "paths from an element that is not in the graph";
  const int c = p.cost;
  const double eps = g.exact(c) ? 0 : g.eps;
  auto pred = [&](double cost, size_t len) { return (!p.useCost || cost < p.limit) && (!p.useLen || len < size_t(p.elements)); };
  // search tree on the pruned graph
  struct St {
    double d = kInf;
    int pred = -1;
    size_t len = 0;
    bool done = false, ok = false;
    int kids = 0;
  };
  std::vector<St> st(g.n.size());
  bool vague = false;
  std::set<std::pair<double, int>> qu;
  st[size_t(p.a.ref)].d = 0;
  st[size_t(p.a.ref)].len = 1;
  st[size_t(p.a.ref)].pred = p.a.ref;
  qu.insert({0, p.a.ref});
  while (!qu.empty()) {
    int v = qu.begin()->second;
    qu.erase(qu.begin());
    auto& s = st[size_t(v)];
    s.done = true;
    s.ok = pred(s.d, s.len);
    if (p.useCost && !g.exact(c) && std::fabs(s.d - p.limit) < g.eps) vague = true;
    if (!s.ok) continue;
    for (int i : (backward ? g.in : g.out)[size_t(c)][size_t(v)]) {
      auto& e = g.e[size_t(c)][size_t(i)];
      if (!(e.rel & mask)) continue;
      int w = backward ? e.from : e.to;
      double nd = s.d + e.cost;
      auto& t = st[size_t(w)];
      if (w != p.a.ref && std::isfinite(t.d) && t.pred != v && std::fabs(nd - t.d) <= g.tol * (1 + nd) + eps) vague = true;
      if (nd < t.d) {
        qu.erase({t.d, w});
        t.d = nd;
        t.pred = v;
        t.len = s.len + 1;
        qu.insert({nd, w});
      }
    }
  }
  auto startOf = [&](const std::vector<std::string>& x) { return backward ? x.back() : x.front(); };
  auto endOf = [&](const std::vector<std::string>& x) { return backward ? x.front() : x.back(); };
  std::set<std::string> ends;
  for (auto& x : a.paths) {
    if (x.empty()) return "empty path";
    if (startOf(x) != g.key(p.a.ref)) return "path does not begin at the start: " + join(x);
    if (!ends.insert(endOf(x)).second) return "two paths end at " + endOf(x);
    std::set<std::string> once(x.begin(), x.end());
    if (once.size() != x.size()) return "path visits an element twice: " + join(x);
    std::string err;
    double cost = pathCost(g, c, mask, x, &err);
    if (!err.empty()) return err;
    auto y = x;
    if (backward) std::reverse(y.begin(), y.end());
    double d = 0;
    for (size_t i = 0; i < y.size(); i++) {
      if (i) {
        double best = kInf;
        for (auto* e : backward ? edges(g, c, g.find(y[i]), g.find(y[i - 1]), mask) : edges(g, c, g.find(y[i - 1]), g.find(y[i]), mask)) best = std::min(best, e->cost);
        d += best;
      }
      bool lastEl = i + 1 == y.size();
      if (!lastEl && ((p.useCost && d >= p.limit + g.eps) || (p.useLen && i + 1 >= size_t(p.elements)))) return "path goes beyond the limit: " + join(x);
    }
    if (!p.shorter && !(p.useCost && cost >= p.limit - g.eps) && !(p.useLen && x.size() >= size_t(p.elements))) return "path is shorter than asked for: " + join(x);
  }
  if (vague) {
    count("probe.possible_paths_with_ties");
    return {};
  }
  for (size_t i = 0; i < st.size(); i++)
    if (std::isfinite(st[i].d) && int(i) != p.a.ref) st[size_t(st[i].pred)].kids++;
  std::set<std::vector<std::string>> want;
  for (size_t i = 0; i < st.size(); i++) {
    if (!std::isfinite(st[i].d) || st[i].kids || (!p.shorter && st[i].ok)) continue;
    std::vector<std::string> x;
    for (int v = int(i);; v = st[size_t(v)].pred) {
      x.push_back(g.key(v));
      if (v == p.a.ref) break;
    }
    if (!backward) std::reverse(x.begin(), x.end());
    want.insert(x);
  }
  std::set<std::vector<std::string>> got(a.paths.begin(), a.paths.end());
  for (auto& x : want)
    if (!got.count(x)) return fmt("path %s missing among %zu (expected %zu)", join(x).c_str(), got.size(), want.size());
  for (auto& x : got)
    if (!want.count(x)) return fmt("unexpected path %s (expected %zu paths)", join(x).c_str(), want.size());
  return {};
}
std::string judgeShortest(const RefGraph& g, int c, int mask, const std::vector<int>& legs, bool has, const std::vector<std::string>& path) {
  double want = 0;
  for (size_t i = 0; i + 1 < legs.size(); i++) {
    if (legs[i] < 0 || legs[i + 1] < 0) {
      want = kInf;
      break;
    }
    want += distances(g, c, mask, legs[i], false)[size_t(legs[i + 1])];
  }
  if (!std::isfinite(want)) return has ? "a path was found although there is none" : "";
  if (!has) return fmt("no path found, the cheapest costs %.12g", want);
  if (path.empty() || path.front() != g.key(legs.front()) || path.back() != g.key(legs.back())) return "path does not connect start and end: " + join(path);
  std::string err;
  double cost = pathCost(g, c, mask, path, &err);
  if (!err.empty()) return err;
  if (!close(cost, want, g.tol)) return fmt("path %s costs %.12g, the cheapest %.12g", join(path).c_str(), cost, want);
  size_t at = 0;
  for (int l : legs) {
    while (at < path.size() && path[at] != g.key(l)) at++;
    if (at == path.size()) return "path misses the via point " + g.key(l);
  }
  return {};
}
// greedy walk of neighbours; false if ambiguous
bool walk(const RefGraph& g, int c, int node, int rel, std::vector<std::string>* out, int* endNode) {
  std::set<int> seen;
  while (seen.insert(node).second) {
    auto t = targets(g, c, node, rel, false, false);
    if (t.must.size() > 1) return false;
    if (t.must.empty()) {
      *endNode = node;
      return true;
    }
    out->push_back(t.must[0]);
    node = g.find(t.must[0]);
  }
  return false;
}
std::string judgeRoute(const RefGraph& g, const GraphQuery& q, const QP& p, const GraphAnswer& a) {
  const int c = p.cost, mask = maskOf(p.lc, false);
  std::vector<int> legs{p.a.ref};
  if (q.seed % 3 == 0 && p.v.n.i >= 0) legs.push_back(p.v.ref);
  legs.push_back(p.b.ref);
  static const std::vector<std::string> none;
  auto M = [&](const std::string& k) -> const std::vector<std::string>& {
    auto it = a.m.find(k);
    return it == a.m.end() ? none : it->second;
  };
  std::string e = judgeShortest(g, c, mask, legs, a.has, M("path"));
  if (!e.empty() || !a.has) return e;
  auto& path = M("path");
  std::set<std::string> R(M("contains").begin(), M("contains").end());
  for (auto& x : path)
    if (!R.count(x)) return "lanelet " + x + " of the shortest path is not in the route";
  if (size_t(a.num) != R.size()) return fmt("route has size %lld but contains %zu lanelets", (long long)a.num, R.size());
  auto in = [&](int n) { return R.count(g.key(n)) > 0; };
  // lanelets of the submap
  std::set<std::string> ids, ids2, ids3;
  auto idPart = [](const std::string& k) { return k.substr(1, k.size() - 2); };
  for (auto& x : R) ids.insert(idPart(x));
  for (auto& x : M("submap")) ids2.insert(idPart(x));
  if (ids != ids2) return "the submap of the route has other lanelets than the route";
  for (auto& x : M("debugpoints")) ids3.insert(x);
  if (ids != ids3) return "the debug map of the route has other points than the route lanelets";
  // every lanelet of the route can be reached from its begin within the route and leads to its end
  const int full = kSucc | (p.lc ? kLeft | kRight : 0);
  auto closureOf = [&](int start, bool backward, int msk) {
    std::set<int> seen{start};
    std::vector<int> todo{start};
    while (!todo.empty()) {
      int v = todo.back();
      todo.pop_back();
      for (int i : (backward ? g.in : g.out)[size_t(c)][size_t(v)]) {
        auto& x = g.e[size_t(c)][size_t(i)];
        int w = backward ? x.from : x.to;
        if ((x.rel & msk) && in(w) && seen.insert(w).second) todo.push_back(w);
      }
    }
    return seen;
  };
  auto reach = closureOf(g.find(path.front()), false, full), lead = closureOf(g.find(path.back()), true, full);
  for (auto& x : R) {
    if (!reach.count(g.find(x))) return "lanelet " + x + " of the route cannot be reached within the route";
    if (!lead.count(g.find(x))) return "lanelet " + x + " of the route does not lead to its end";
  }
  // relations
  const int seenMask = kSucc | kConf | (p.lc ? kLeft | kRight | kAdjL | kAdjR : 0);
  std::map<int, std::vector<int>> nxt, prv;
  for (auto& e2 : g.e[size_t(c)])
    if (e2.rel == kSucc && in(e2.from) && in(e2.to)) {
      nxt[e2.from].push_back(e2.to);
      prv[e2.to].push_back(e2.from);
    }
  std::map<int, int> comp;
  std::function<int(int)> root = [&](int x) { return comp.count(x) && comp[x] != x ? comp[x] = root(comp[x]) : x; };
  for (auto& x : R) comp[g.find(x)] = g.find(x);
  for (auto& x : nxt)
    if (x.second.size() == 1 && prv[x.second[0]].size() == 1) comp[root(x.first)] = root(x.second[0]);
  std::set<int> lanes;
  for (auto& x : R) lanes.insert(root(g.find(x)));
  if (M("lanes") != std::vector<std::string>{fmt("%zu", lanes.size())}) return fmt("numLanes is %s, there are %zu", join(M("lanes")).c_str(), lanes.size());
  Split allConf;
  for (size_t i = 0; i < g.n.size(); i++) {
    std::string k = g.key(int(i));
    if (g.n[i].area || !a.m.count("following " + k)) continue;
    const bool inR = R.count(k) > 0;
    auto check = [&](const char* what, Split s) {
      if (!inR) s = Split{};
      return judgeList(M(std::string(what) + " " + k), s.must, s.may, (std::string(what) + "(" + k + ") in route").c_str());
    };
    auto T = [&](int msk, bool back, bool withRel, bool onlyRoute) {
      std::function<bool(int)> keep = in;
      if (!onlyRoute) keep = nullptr;
      return targets(g, c, int(i), msk & seenMask, back, withRel, keep);
    };
    if (!(e = check("following", T(kSucc, false, false, true))).empty()) return e;
    if (!(e = check("followingRelations", T(kSucc, false, true, true))).empty()) return e;
    if (!(e = check("previous", T(kSucc, true, false, true))).empty()) return e;
    if (!(e = check("previousRelations", T(kSucc, true, true, true))).empty()) return e;
    if (!(e = check("conflictingInRoute", T(kConf, false, false, true))).empty()) return e;
    auto conf = T(kConf, false, false, false);
    if (!(e = check("conflictingInMap", conf)).empty()) return e;
    if (inR) {
      allConf.must.insert(allConf.must.end(), conf.must.begin(), conf.must.end());
      allConf.may.insert(allConf.may.end(), conf.may.begin(), conf.may.end());
    }
    for (int side = 0; side < 2; side++) {
      int m = (side ? kRight | kAdjR : kLeft | kAdjL);
      auto one = T(m, false, true, true);
      if (!inR) one = Split{};
      if (one.must.size() <= 1 && !(e = judgeList(M(std::string(side ? "right " : "left ") + k), one.must, {}, "left/right relation in route")).empty()) return k + " " + e;
      std::vector<std::string> chain;
      bool clear = true;
      std::set<int> seen;
      for (int v = int(i); inR && clear;) {
        if (!seen.insert(v).second) clear = false;
        auto t = targets(g, c, v, m & seenMask, false, true, in);
        if (t.must.size() > 1) clear = false;
        if (t.must.size() != 1) break;
        chain.push_back(t.must[0]);
        v = g.find(t.must[0].substr(0, t.must[0].find(':')));
      }
      if (clear && M(std::string(side ? "rights " : "lefts ") + k) != chain) return fmt("%s relations of %s in route: %s expected %s", side ? "right" : "left", k.c_str(), join(M(std::string(side ? "rights " : "lefts ") + k)).c_str(), join(chain).c_str());
    }
    // lanes
    auto remaining = [&](int v) {
      std::vector<std::string> o;
      int start = v;
      while (true) {
        o.push_back(g.key(v));
        auto it = nxt.find(v);
        if (it == nxt.end() || it->second.size() != 1) break;
        v = it->second[0];
        if (prv[v].size() != 1 || v == start) break;
      }
      return o;
    };
    std::vector<std::string> rem, fullL;
    if (inR) {
      rem = remaining(int(i));
      int v = int(i), begin = v;
      while (true) {
        auto it = prv.find(v);
        if (it == prv.end() || it->second.size() != 1) break;
        int n = it->second[0];
        if (nxt[n].size() != 1) break;
        v = n;
        if (v == begin) break;
      }
      fullL = remaining(v);
    }
    if (M("remainingLane " + k) != rem) return fmt("remainingLane(%s) is %s expected %s", k.c_str(), join(M("remainingLane " + k)).c_str(), join(rem).c_str());
    if (M("fullLane " + k) != fullL) return fmt("fullLane(%s) is %s expected %s", k.c_str(), join(M("fullLane " + k)).c_str(), join(fullL).c_str());
    std::vector<std::string> rp;
    auto at = std::find(path.begin(), path.end(), k);
    if (at != path.end()) {
      if (path.front() == path.back()) {
        rp.assign(path.begin(), path.end() - 1);
        if (!rp.empty()) std::rotate(rp.begin(), rp.begin() + (at - path.begin()), rp.end());
      } else rp.assign(at, path.end());
    }
    if (M("remainingPath " + k) != rp) return fmt("remainingShortestPath(%s) is %s expected %s", k.c_str(), join(M("remainingPath " + k)).c_str(), join(rp).c_str());
  }
  if (!(e = judgeList(M("allconf"), allConf.must, allConf.may, "allConflictingInMap")).empty()) return e;
  const bool succ = q.seed % 2;
  return judgeVisits(g, c, full, succ ? p.a.ref : p.b.ref, !succ, 0, a.visits, in);
}
}  // namespace
std::string describe(const RefGraph& g, const GraphQuery& q) {
  static const char* names[] = {"following", "previous", "left/right", "lefts/rights", "left/rightRelations", "besides", "conflicting", "routingRelation",
                                "shortestPath", "shortestPathIncludingAreas", "shortestPathVia", "shortestPathIncludingAreasVia", "reachableSet",
                                "reachableSetIncludingAreas", "reachableSetTowards", "possiblePaths", "possiblePathsTowards", "possiblePathsIncludingAreas",
                                "forEachSuccessor", "forEachPredecessor", "forEachSuccessorIncludingAreas", "forEachPredecessorIncludingAreas", "getRoute",
                                "passableSubmap/debug map", "conflictingInGraph", "invalid input"};
  QP p = params(g, q);
  auto nm = [&](const Pick& k) { return k.n.i < 0 ? std::string("-") : k.n.area ? fmt("A%lld", (long long)g.s->a[size_t(k.n.i)].id) : fmt("T%lld%c%s", (long long)g.s->t[size_t(k.n.i)].id, k.n.inv ? '-' : '+', k.ref < 0 ? "(not passable)" : ""); };
  return fmt("%s from %s to %s via %s cost id %d laneChanges=%d limit=%.12g(%d) elements=%d(%d) shorter=%d variant=%llu", names[q.kind], nm(p.a).c_str(), nm(p.b).c_str(), nm(p.v).c_str(), p.cost,
             int(p.lc), p.limit, int(p.useCost), p.elements, int(p.useLen), int(p.shorter), (unsigned long long)(q.seed % 240));
}
std::string judgeGraph(const RefGraph& g, const GraphQuery& q, const GraphAnswer& a) {
  QP p = params(g, q);
  if (p.a.n.i < 0 || p.b.n.i < 0) return {};
  const int c = p.cost, mask = maskOf(p.lc, p.area);
  const bool back = backwardKind(q.kind);
  if (q.kind == 25) {
    bool known = p.a.ref >= 0 && p.b.ref >= 0;
    bool must = q.seed % 10 == 4 || q.seed % 10 == 5 || q.seed % 10 == 6 || known;
    if (must && a.res.ex != Ex::Lanelet) return "invalid input was not refused: " + a.res.text();
    if (!must && !a.res.ok() && a.res.ex != Ex::Lanelet) return a.res.text();
    return {};
  }
  if (q.kind == 24 && q.seed % 4 == 3) return a.res.ex == Ex::Lanelet ? "" : "invalid graph id was not refused: " + a.res.text();
  if (!a.res.ok()) return "threw " + a.res.text();
  auto listOf = [&](const Split& s, const char* what) { return judgeList(a.nodes, s.must, s.may, what); };
  auto relsOf = [&](const Split& s, const char* what) {
    std::vector<std::string> v;
    for (auto& x : a.rels) v.push_back(relKey(x.first, x.second));
    return judgeList(v, s.must, s.may, what);
  };
  switch (q.kind) {
    case 0:
    case 1:
      if (q.seed % 2) return listOf(targets(g, 0, p.a.ref, mask, q.kind == 1, false), "neighbours");
      return relsOf(targets(g, 0, p.a.ref, mask, q.kind == 1, true), "relations");
    case 2: {
      static const int rel[] = {kLeft, kRight, kAdjL, kAdjR};
      auto t = targets(g, c, p.a.ref, rel[q.seed % 4], false, false);
      if (t.must.empty()) return a.has ? "unexpected neighbour " + join(a.nodes) : "";
      if (!a.has) return "no neighbour, expected " + join(t.must);
      return std::find(t.must.begin(), t.must.end(), a.nodes[0]) == t.must.end() ? "neighbour " + join(a.nodes) + " expected " + join(t.must) : "";
    }
    case 3: {
      static const int rel[] = {kLeft, kRight, kAdjL, kAdjR};
      if (p.a.ref < 0) return a.nodes.empty() ? "" : "neighbours of an unknown lanelet";
      std::vector<std::string> w;
      int end;
      if (!walk(g, c, p.a.ref, rel[q.seed % 4], &w, &end)) return {};
      return w == a.nodes ? "" : "got " + join(a.nodes) + " expected " + join(w);
    }
    case 4: {
      if (p.a.ref < 0) return a.rels.empty() ? "" : "neighbours of an unknown lanelet";
      const bool left = q.seed % 2;
      std::vector<std::string> want, got;
      int cur = p.a.ref;
      for (int guard = 0; guard < 200; guard++) {
        std::vector<std::string> l1, l2;
        int e1, e2;
        if (!walk(g, c, cur, left ? kLeft : kRight, &l1, &e1)) return {};
        if (!walk(g, c, e1, left ? kAdjL : kAdjR, &l2, &e2)) return {};
        for (auto& x : l1) want.push_back(relKey(x, left ? kLeft : kRight));
        for (auto& x : l2) want.push_back(relKey(x, left ? kAdjL : kAdjR));
        cur = e2;
        if (l1.empty() && l2.empty()) break;
      }
      for (auto& x : a.rels) got.push_back(relKey(x.first, x.second));
      return want == got ? "" : "got " + join(got) + " expected " + join(want);
    }
    case 5: {
      std::vector<std::string> l, r;
      int end;
      std::string self = fmt("T%lld%c", (long long)g.s->t[size_t(p.a.n.i)].id, p.a.n.inv ? '-' : '+');
      if (p.a.ref >= 0 && (!walk(g, c, p.a.ref, kLeft, &l, &end) || !walk(g, c, p.a.ref, kRight, &r, &end))) return {};
      std::reverse(l.begin(), l.end());
      l.push_back(self);
      l.insert(l.end(), r.begin(), r.end());
      return l == a.nodes ? "" : "got " + join(a.nodes) + " expected " + join(l);
    }
    case 6: return listOf(targets(g, 0, p.a.ref, kConf, false, false), "conflicts");
    case 7: {
      std::set<int> may;
      bool must = false;
      if (p.a.ref >= 0 && p.b.ref >= 0)
        for (int k = 0; k < g.numIds(); k++)
          for (auto* e : edges(g, k, p.a.ref, p.b.ref, q.seed % 2 ? 127 : 127 & ~kConf)) {
            if (!(q.seed % 2) && k != 0) continue;
            may.insert(e->rel);
            must |= e->sure;
          }
      if (!a.has) return must ? fmt("no relation, expected %d", *may.begin()) : "";
      return may.count(int(a.num)) ? "" : fmt("relation %lld, expected %s", (long long)a.num, may.empty() ? "none" : std::to_string(*may.begin()).c_str());
    }
    case 8:
    case 9: return judgeShortest(g, c, mask, {p.a.ref, p.b.ref}, a.has, a.has ? a.paths[0] : std::vector<std::string>{});
    case 10:
    case 11: return judgeShortest(g, c, mask, {p.a.ref, p.v.ref, p.b.ref}, a.has, a.has ? a.paths[0] : std::vector<std::string>{});
    case 12:
    case 13:
    case 14: {
      Split s;
      if (p.a.ref >= 0) {
        auto d = distances(g, c, mask, p.a.ref, back);
        const double tol = g.exact(c) ? 0 : g.eps;
        for (size_t i = 0; i < d.size(); i++) {
          if (d[i] <= p.limit - tol) s.must.push_back(g.key(int(i)));
          else if (d[i] <= p.limit + tol) s.may.push_back(g.key(int(i)));
        }
      }
      return listOf(s, "reachable set");
    }
    case 15:
    case 16:
    case 17: return judgePossible(g, p, mask, back, a);
    case 18:
    case 19:
    case 20:
    case 21: return judgeVisits(g, c, mask, p.a.ref, back, p.stop, a.visits);
    case 22: return judgeRoute(g, q, p, a);
    case 23: {
      Split s;
      std::set<std::string> ids, got;
      for (size_t i = 0; i < g.n.size(); i++) {
        if (!g.n[i].inv) s.must.push_back(g.key(int(i)));
        ids.insert(fmt("%lld", (long long)(g.n[i].area ? g.s->a[size_t(g.n[i].i)].id : g.s->t[size_t(g.n[i].i)].id)));
      }
      std::string e = listOf(s, "passable submap");
      if (!e.empty()) return e;
      auto it = a.m.find("debugpoints");
      if (it != a.m.end()) got.insert(it->second.begin(), it->second.end());
      if (got != ids) return "the debug map has other points than the graph has elements";
      const int m = kSucc | kLeft | kRight | kArea | (q.seed % 2 ? kAdjL | kAdjR : 0) | (q.seed / 2 % 2 ? kConf : 0);
      std::set<std::pair<std::string, std::string>> pairs, lines;
      auto id = [&](int n) { return fmt("%lld", (long long)(g.n[size_t(n)].area ? g.s->a[size_t(g.n[size_t(n)].i)].id : g.s->t[size_t(g.n[size_t(n)].i)].id)); };
      for (auto& ed : g.e[size_t(c)])
        if ((ed.rel & m) && ed.sure) pairs.insert(std::minmax(id(ed.from), id(ed.to)));
      it = a.m.find("debuglines");
      if (it != a.m.end())
        for (auto& l : it->second) {
          long long f, t;
          char rel[40] = "";
          double cost;
          if (sscanf(l.c_str(), "%lld>%lld %39s %lf", &f, &t, rel, &cost) != 4) return "debug map line without relation or cost: " + l;
          static const std::map<std::string, int> byName{{"Successor", kSucc}, {"Left", kLeft}, {"Right", kRight}, {"AdjacentLeft", kAdjL}, {"AdjacentRight", kAdjR}, {"Conflicting", kConf}, {"Area", kArea}};
          auto r = byName.find(rel);
          if (r == byName.end() || !(r->second & m)) return "debug map line with unexpected relation: " + l;
          bool ok = false;
          std::string sf = fmt("%lld", f), stt = fmt("%lld", t);
          for (auto& ed : g.e[size_t(c)]) ok |= ed.rel == r->second && id(ed.from) == sf && id(ed.to) == stt && std::fabs(ed.cost - cost) < 1e-3 * (1 + ed.cost);
          if (!ok) return "debug map line without a relation in the graph: " + l;
          lines.insert(std::minmax(sf, stt));
        }
      for (auto& x : pairs)
        if (!lines.count(x)) return "relation between " + x.first + " and " + x.second + " missing in the debug map";
      return {};
    }
    default: {
      if (a.num) return "conflictingInGraphs has the wrong number of entries";
      Split s;
      for (size_t i = 0; i < g.n.size(); i++) {
        auto& x = g.n[i];
        if (x.area || x.inv) continue;
        if (x.i == p.a.n.i && !p.a.n.inv) continue;
        int o = lltOverlap(*g.s, p.a.n, x, g.polyTol);
        if (o == 1) s.must.push_back(g.key(int(i)));
        else if (o < 0) s.may.push_back(g.key(int(i)));
      }
      return listOf(s, "conflictingInGraph");
    }
  }
}
std::string checkWholeGraph(const lr::RoutingGraph& g, const RefGraph& ref, const Handles& hd, u64 seed, int extra) {
  Rng r(seed);
  auto ask = [&](GraphQuery q) -> std::string {
    auto a = askGraph(g, ref, hd, q);
    std::string e = judgeGraph(ref, q, a);
    return e.empty() ? e : describe(ref, q) + "\n  " + e;
  };
  std::string e;
  for (int i = 0; i < int(ref.n.size()); i++) {
    GraphQuery q;
    q.a = i * 8;
    q.b = int(r.below(1000)) * 8;
    for (int c = 0; c < ref.numIds(); c++) {
      q.cost = c;
      for (u64 v = 0; v < 4; v++) {
        if (ref.n[size_t(i)].area) break;
        q.kind = 2;
        q.seed = v;
        if (!(e = ask(q)).empty()) return e;
      }
      // one hop searches see every edge of this cost id with its cost
      q.kind = 20;
      q.seed = r.below(1000);
      if (!(e = ask(q)).empty()) return e;
    }
    q.kind = 6;
    if (!(e = ask(q)).empty()) return e;
    if (ref.n[size_t(i)].area) continue;
    for (int k = 0; k < 2; k++)
      for (u64 v = 0; v < 2; v++) {
        q.kind = k;
        q.seed = r.below(1000) * 2 + v;
        if (!(e = ask(q)).empty()) return e;
      }
  }
  for (int i = 0; i < extra; i++) {
    GraphQuery q{int(r.below(kNumGraphQueries)), int(r.below(100000)), int(r.below(100000)), int(r.below(100000)), int(r.below(3)), r.below(100000)};
    if (!(e = ask(q)).empty()) return e;
  }
  GraphQuery q;
  q.kind = 23;
  q.seed = seed % 4;
  return ref.n.empty() ? "" : ask(q);
}
}  // namespace h
