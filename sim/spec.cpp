// Generator of map models and the independent rendering of what a faithful map must contain.
#include <cstdio>
#include <cmath>
#include <cstring>
#include <algorithm>

#include "h.h"

namespace h {
std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n < int(sizeof b)) return std::string(b, size_t(n < 0 ? 0 : n));
  std::string s(size_t(n) + 1, 0);
  va_start(ap, f);
  vsnprintf(&s[0], s.size(), f, ap);
  va_end(ap);
  s.resize(size_t(n));
  return s;
}
std::string num(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
std::string coarse(double d) {
  double r = std::floor(d * 1000 + 0.5) / 1000;
  char b[64];
  if (std::fabs(r) < 1e-9) r = 0;
  if (std::fabs(d - r) < 5e-5) snprintf(b, sizeof b, "%.3f", r);
  else snprintf(b, sizeof b, "%.9f", d);
  return b;
}
std::vector<int> permutation(Rng& r, int n) {
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(i);
  for (int i = n - 1; i > 0; i--) std::swap(v[size_t(i)], v[r.below(u64(i + 1))]);
  return v;
}

void genNetCfg(Plan& p, Rng& r, int size, const std::string& pre) {
  auto set = [&](const char* k, i64 v) { p.cfg[pre + k] = v; };
  set("_ms", i64(r.below(1000000)));
  if (size == 0) {
    set("lanes", r.range(1, 2));
    set("segs", r.range(1, 2));
    set("div", r.range(0, 1));
    set("xw", r.chance(1, 3));
    set("areas", r.range(0, 1));
    set("regs", r.range(0, 2));
    set("loose", r.range(0, 2));
  } else if (size == 1) {
    set("lanes", r.range(1, 3));
    set("segs", r.range(1, 3));
    set("div", r.range(0, 2));
    set("xw", r.range(0, 1));
    set("areas", r.range(0, 2));
    set("regs", r.range(0, 4));
    set("loose", r.range(0, 3));
  } else {
    set("lanes", r.range(2, 4));
    set("segs", r.range(2, 5));
    set("div", r.range(0, 4));
    set("xw", r.range(0, 2));
    set("areas", r.range(0, 4));
    set("regs", r.range(0, 8));
    set("loose", r.range(0, 5));
  }
  set("npts", r.range(2, 4));
  set("odd", r.range(0, 3));
  set("cl", r.chance(1, 3) ? r.range(1, 2) : 0);
  set("opp", r.range(0, 2));
  set("miss", r.chance(1, 3));
  set("ids", r.range(0, 4));
  set("overlap", r.chance(1, 4) ? r.range(1, 2) : 0);
}

Spec genNet(const Plan& p, const std::string& pre) {
  auto C = [&](const char* k, i64 d) { return p.c(pre + k, d); };
  const u64 ms = u64(C("_ms", 1));
  auto rngOf = [&](u64 tag, u64 a = 0, u64 b = 0) { return Rng(mix(mix(ms, tag), a * 1000003 + b)); };
  const int K = int(std::min<i64>(6, std::max<i64>(0, C("lanes", 2))));
  const int S = int(std::min<i64>(8, std::max<i64>(0, C("segs", 2))));
  const int N = int(std::min<i64>(6, std::max<i64>(2, C("npts", 2))));
  const int odd = int(C("odd", 0));
  Spec s;
  auto J125 = [](double v) { return std::floor(v * 8 + 0.5) / 8; };
  auto newPt = [&](double x, double y, double z) {
    s.p.push_back(PtS{0, J125(x), J125(y), J125(z), {}});
    return int(s.p.size()) - 1;
  };
  std::map<std::pair<int, int>, int> jp;
  auto junction = [&](int k, int c) {
    auto it = jp.find({k, c});
    if (it != jp.end()) return it->second;
    Rng r = rngOf(1, u64(k), u64(c));
    int i = newPt(c * 10 + r.unit() - 0.5, k * 3 + 0.5 * r.unit(), 0.25 * double(r.below(3)));
    jp[{k, c}] = i;
    return i;
  };
  auto newLs = [&](std::vector<int> pts, Attrs a) {
    s.l.push_back(LsS{0, std::move(pts), std::move(a)});
    return int(s.l.size()) - 1;
  };
  static const char* kBound[][2] = {{"line_thin", "solid"},        {"line_thin", "dashed"},       {"line_thin", "dashed"},
                                    {"line_thin", "solid_dashed"}, {"line_thin", "dashed_solid"}, {"line_thin", "solid_solid"},
                                    {"line_thick", "dashed"},      {"virtual", ""},               {"curbstone", "low"},
                                    {"curbstone", "high"},         {"road_border", ""},           {"line_thin", "dashed"}};
  auto boundAttrs = [&](Rng& r) {
    auto& b = kBound[C("dash", 0) && r.chance(7, 8) ? 1 : r.below(12)];
    Attrs a;
    a["type"] = b[0];
    if (*b[1]) a["subtype"] = b[1];
    if (r.chance(1, 12)) a["lane_change"] = r.chance(1, 2) ? "yes" : "no";
    if (r.chance(1, 16)) a["lane_change:left"] = "yes";
    return a;
  };
  std::map<std::pair<int, int>, int> bnd;
  auto bound = [&](int k, int c) {
    auto it = bnd.find({k, c});
    if (it != bnd.end()) return it->second;
    Rng r = rngOf(2, u64(k), u64(c));
    std::vector<int> pts{junction(k, c)};
    for (int i = 1; i + 1 < N; i++) {
      double f = double(i) / (N - 1);
      pts.push_back(newPt(c * 10 + 10 * f, k * 3 + 0.25 + 0.25 * r.unit(), 0.25));
    }
    pts.push_back(junction(k, c + 1));
    int l = newLs(pts, boundAttrs(r));
    bnd[{k, c}] = l;
    return l;
  };
  static const char* kSub[] = {"road", "road", "road", "road", "road", "highway", "play_street", "bicycle_lane", "bus_lane", "road"};
  auto laneAttrs = [&](Rng& r) {
    Attrs a;
    a["subtype"] = kSub[r.below(10)];
    a["location"] = r.chance(1, 2) ? "urban" : "nonurban";
    a["region"] = "de";
    if (r.chance(1, 6)) a["one_way"] = r.chance(1, 2) ? "yes" : "no";
    if (r.chance(1, 8)) a["speed_limit"] = r.chance(1, 2) ? "50 km/h" : "13.5 mps";
    if (r.chance(1, 10)) a["participant:vehicle"] = r.chance(1, 2) ? "yes" : "no";
    if (r.chance(1, 12)) a["participant:pedestrian"] = "yes";
    if (r.chance(1, 12)) a["one_way:bicycle"] = "no";
    return a;
  };
  const i64 opp = C("opp", 0);
  std::vector<bool> back;
  for (int k = 0; k < K; k++) {
    Rng r = rngOf(3, u64(k));
    back.push_back(opp == 1 ? k < K / 2 : opp == 2 ? r.chance(1, 2) : false);
  }
  auto newLl = [&](Ref left, Ref right, Attrs a) {
    LlS t{};
    t.left = left;
    t.right = right;
    t.a = std::move(a);
    s.t.push_back(std::move(t));
    return int(s.t.size()) - 1;
  };
  std::map<std::pair<int, int>, int> lane;
  for (int k = 0; k < K; k++)
    for (int c = 0; c < S; c++) {
      Rng r = rngOf(4, u64(k), u64(c));
      if (C("miss", 0) && r.chance(1, 5)) continue;
      int lo = bound(k, c), hi = bound(k + 1, c);
      lane[{k, c}] = back[size_t(k)] ? newLl({lo, true}, {hi, true}, laneAttrs(r)) : newLl({hi, false}, {lo, false}, laneAttrs(r));
    }
  for (i64 d = 0; d < C("div", 0) && K >= 2 && S >= 1; d++) {
    Rng r = rngOf(5, u64(d));
    int k = int(r.below(u64(K - 1))), c = int(r.below(u64(S)));
    int k2 = k + 1;
    if (r.chance(1, 2)) std::swap(k, k2);
    if (back[size_t(k)] != back[size_t(k2)]) continue;
    bool b = back[size_t(k)];
    auto conn = [&](int ka, int kb) {
      std::vector<int> pts{junction(ka, c)};
      pts.push_back(newPt(c * 10 + 5, 1.5 * (ka + kb) + 0.5 * r.unit(), 0));
      pts.push_back(junction(kb, c + 1));
      Attrs a;
      a["type"] = "virtual";
      return newLs(pts, a);
    };
    int hi = conn(k + 1, k2 + 1), lo = conn(k, k2);
    if (b) newLl({lo, true}, {hi, true}, laneAttrs(r));
    else newLl({hi, false}, {lo, false}, laneAttrs(r));
  }
  // the road leads back to its begin (all rows that go forward)
  if (C("loop", 0) && S >= 1 && K >= 1) {
    std::map<int, int> ring;
    auto ringLs = [&](int k) {
      if (ring.count(k)) return ring[k];
      Rng r = rngOf(12, u64(k));
      double d = 3 + 3 * (K - k), x1 = S * 10 + d, x0 = -d, y = K * 3 + d;
      std::vector<int> pts{junction(k, S), newPt(x1, k * 3, 0), newPt(x1, y, 0), newPt(x0, y, 0), newPt(x0, k * 3, 0), junction(k, 0)};
      return ring[k] = newLs(pts, boundAttrs(r));
    };
    for (int k = 0; k < K; k++) {
      Rng r = rngOf(13, u64(k));
      if (back[size_t(k)] || (C("loop", 0) > 1 && r.chance(1, 3))) continue;
      int lo = ringLs(k), hi = ringLs(k + 1);
      newLl({hi, false}, {lo, false}, laneAttrs(r));
    }
  }
  // further lanelets that use the bound of another one
  for (i64 d = 0; d < C("dup", 0) && !lane.empty(); d++) {
    Rng r = rngOf(14, u64(d));
    auto it = lane.begin();
    std::advance(it, long(r.below(lane.size())));
    int k = it->first.first, c = it->first.second;
    bool upper = r.chance(1, 2);  // which bound is shared
    int o = upper ? k : k + 1;
    std::vector<int> pts{junction(o, c), newPt(c * 10 + 5, o * 3 + (upper ? 0.75 : -0.75) + 0.5 * r.unit(), 0), junction(o, c + 1)};
    int other = newLs(pts, boundAttrs(r));
    int hi = upper ? bound(k + 1, c) : other, lo = upper ? other : bound(k, c);
    if (back[size_t(k)]) newLl({lo, true}, {hi, true}, laneAttrs(r));
    else newLl({hi, false}, {lo, false}, laneAttrs(r));
  }
  std::vector<int> xws;
  for (i64 d = 0; d < C("xw", 0) && S >= 1; d++) {
    Rng r = rngOf(6, u64(d));
    double x = 10.0 * double(r.below(u64(S))) + 3 + double(r.below(3));
    auto line = [&](double xx) {
      Attrs a;
      a["type"] = "pedestrian_marking";
      return newLs({newPt(xx, -1, 0), newPt(xx, K * 3 + 1.5, 0)}, a);
    };
    int l = line(x), rr = line(x + 2);
    Attrs a;
    a["subtype"] = "crosswalk";
    a["location"] = "urban";
    xws.push_back(newLl({l, false}, {rr, false}, a));
  }
  // areas below row 0
  std::map<int, int> side, corner;
  auto qCorner = [&](int c) {
    if (corner.count(c)) return corner[c];
    return corner[c] = newPt(c * 10, -6, 0.5);
  };
  static const char* kCurb[][2] = {{"curbstone", "low"}, {"curbstone", "high"}, {"virtual", ""}, {"line_thin", "dashed"}, {"wall", ""}};
  auto curb = [&](Rng& r) {
    auto& b = kCurb[r.below(5)];
    Attrs a;
    a["type"] = b[0];
    if (*b[1]) a["subtype"] = b[1];
    return a;
  };
  auto sideLs = [&](int c) {
    if (side.count(c)) return side[c];
    Rng r = rngOf(7, u64(c));
    return side[c] = newLs({junction(0, c), qCorner(c)}, curb(r));
  };
  int nAreas = int(std::min<i64>(C("areas", 0), S));
  for (int c = 0; c < nAreas; c++) {
    Rng r = rngOf(8, u64(c));
    ArS a{};
    int top = bound(0, c), bot = newLs({qCorner(c), qCorner(c + 1)}, curb(r));
    a.outer = {{top, false}, {sideLs(c + 1), false}, {bot, true}, {sideLs(c), true}};
    std::rotate(a.outer.begin(), a.outer.begin() + long(r.below(4)), a.outer.end());
    static const char* sub[] = {"parking", "walkway", "freespace", "traffic_island", "building", "exit"};
    a.a["subtype"] = sub[r.below(6)];
    if (r.chance(1, 3)) a.a["participant:pedestrian"] = "yes";
    if (r.chance(1, 4)) a.a["participant:vehicle"] = "yes";
    a.a["location"] = "urban";
    for (i64 holes = r.chance(1, 3) ? r.range(1, 3) : 0, h = 0; h < holes; h++) {
      double x = c * 10 + 3 + 2 * double(h), y = -4;
      int p0 = newPt(x, y, 0.5), p1 = newPt(x, y + 1, 0.5), p2 = newPt(x + 1, y + 1, 0.5), p3 = newPt(x + 1, y, 0.5);
      if (r.chance(1, 3)) {  // a ring that is one closed line string
        a.inner.push_back({{newLs({p0, p1, p2, p3, p0}, curb(r)), false}});
        continue;
      }
      int l0 = newLs({p0, p1, p2}, curb(r));
      if (r.chance(1, 2)) a.inner.push_back({{l0, false}, {newLs({p2, p3, p0}, curb(r)), false}});
      else a.inner.push_back({{l0, false}, {newLs({p0, p3, p2}, curb(r)), true}});
    }
    s.a.push_back(a);
    if (c >= i64(nAreas) - C("overlap", 0)) {
      // another one over the same ground, with some of the line strings of the first
      ArS b{};
      b.outer = {{top, false}, {sideLs(c + 1), false}, {r.chance(1, 2) ? bot : newLs({qCorner(c), qCorner(c + 1)}, curb(r)), true}, {sideLs(c), true}};
      std::rotate(b.outer.begin(), b.outer.begin() + long(r.below(4)), b.outer.end());
      b.a["subtype"] = sub[r.below(6)];
      b.a["location"] = "urban";
      if (r.chance(1, 2)) b.a["participant:pedestrian"] = "yes";
      if (!a.inner.empty() && r.chance(1, 2)) b.inner = a.inner;
      s.a.push_back(b);
    }
  }
  // custom centerlines
  for (i64 d = 0; d < C("cl", 0); d++) {
    Rng r = rngOf(9, u64(d));
    if (s.t.empty()) break;
    auto& t = s.t[r.below(s.t.size())];
    if (t.center.i >= 0) continue;
    auto ptOf = [&](Ref b, bool front) {
      auto& v = s.l[size_t(b.i)].pts;
      return s.p[size_t(front != b.inv ? v.front() : v.back())];
    };
    PtS a = ptOf(t.left, true), b = ptOf(t.right, true), c = ptOf(t.left, false), e = ptOf(t.right, false);
    int p0 = newPt((a.x + b.x) / 2, (a.y + b.y) / 2, 0.25), p1 = newPt((c.x + e.x) / 2, (c.y + e.y) / 2, 0.25);
    Attrs at;
    at["type"] = "centerline";
    t.center = {newLs({p0, p1}, at), false};
  }
  // loose elements
  for (i64 d = 0; d < C("loose", 0); d++) {
    Rng r = rngOf(10, u64(d));
    double x = 4 * double(r.below(8)), y = -10 - 2 * double(r.below(5));
    switch (r.below(3)) {
      case 0: {
        int i = newPt(x, y, 1.5);
        s.p[size_t(i)].a["type"] = "pole";
        break;
      }
      case 1: {
        std::vector<int> pts;
        i64 n = r.range(1, 4);
        for (i64 i = 0; i < n; i++) pts.push_back(newPt(x + double(i), y + 0.5 * r.unit(), 0.5));
        if (n >= 3 && r.chance(1, 3)) pts.push_back(pts[0]);
        Attrs a;
        a["type"] = "fence";
        newLs(pts, a);
        break;
      }
      default: {
        int p0 = newPt(x, y, 0), p1 = newPt(x, y + 2, 0), p2 = newPt(x + 2, y + 2, 0), p3 = newPt(x + 2, y, 0);
        Attrs a;
        a["type"] = "traffic_light";
        s.g.push_back(LsS{0, r.chance(1, 3) ? std::vector<int>{p0, p1, p2} : std::vector<int>{p0, p1, p2, p3}, a});
      }
    }
  }
  // regulatory elements
  auto newPlate = [&](double x, double y, const char* type, const char* sub) {
    Attrs a;
    a["type"] = type;
    if (*sub) a["subtype"] = sub;
    return newLs({newPt(x, y, 2), newPt(x + 0.5, y, 2.5)}, a);
  };
  auto stopLine = [&](double x, double y) {
    Attrs a;
    a["type"] = "stop_line";
    return newLs({newPt(x, y, 0), newPt(x, y + 3, 0)}, a);
  };
  for (i64 d = 0; d < C("regs", 0); d++) {
    Rng r = rngOf(11, u64(d));
    ReS e{};
    double x = 10.0 * double(r.below(u64(S + 1))), y = 3.0 * double(r.below(u64(K + 1)));
    u64 kind = r.below(6);
    if (C("limits", 0) && r.chance(2, 3)) kind = 0;
    if (s.t.empty() && kind <= 3) kind = 5;
    auto anyLl = [&] { return int(r.below(s.t.size())); };
    std::vector<int> att;
    if (kind == 0) {
      e.rule = "speed_limit";
      e.params["refers"].push_back({kL, newPlate(x, y, "traffic_sign", "de274"), false});
      // the sign's subtype counts; some give the velocity itself
      if (r.chance(1, 3)) e.a["sign_type"] = "de274-60";
      else if (r.chance(1, 2)) s.l.back().a["subtype"] = "de274-60";
      else s.l.back().a["subtype"] = fmt("%d %s", int(5 + r.below(90)), r.chance(2, 3) ? "kmh" : "mph");
      if (r.chance(1, 3)) e.params["cancels"].push_back({kL, newPlate(x + 5, y, "traffic_sign", "de282"), false});
      att = {anyLl(), anyLl()};
    } else if (kind == 1) {
      e.rule = "traffic_light";
      e.params["refers"].push_back({kL, newPlate(x, y, "traffic_light", "red_yellow_green"), false});
      if (!s.g.empty() && r.chance(1, 3)) e.params["refers"].push_back({kG, int(r.below(s.g.size())), false});
      if (r.chance(1, 2)) e.params["ref_line"].push_back({kL, stopLine(x, y), false});
      att = {anyLl()};
    } else if (kind == 2) {
      e.rule = "right_of_way";
      for (const char* role : {"right_of_way", "yield"})
        for (i64 i = r.chance(1, 3) ? r.range(2, 3) : 1; i > 0; i--) {
          att.push_back(anyLl());
          e.params[role].push_back({kT, att.back(), false});
        }
      if (r.chance(1, 3)) e.params["ref_line"].push_back({kL, stopLine(x, y), false});
    } else if (kind == 3) {
      e.rule = "all_way_stop";
      int n = int(r.range(1, 3));
      bool stops = r.chance(1, 2);
      for (int i = 0; i < n; i++) {
        int t = anyLl();
        e.params["yield"].push_back({kT, t, false});
        if (stops) e.params["ref_line"].push_back({kL, stopLine(x + i, y), false});
        att.push_back(t);
      }
      if (r.chance(1, 3)) e.params["refers"].push_back({kL, newPlate(x, y, "traffic_sign", "de206"), false});
    } else if (kind == 4) {
      e.rule = "traffic_sign";
      e.params["refers"].push_back({kL, newPlate(x, y, "traffic_sign", "de205"), false});
      if (r.chance(1, 2)) e.params["ref_line"].push_back({kL, stopLine(x, y), false});
      if (r.chance(1, 3)) e.params["cancels"].push_back({kL, newPlate(x + 5, y, "traffic_sign", "de206"), false});
      if (!s.t.empty()) att = {anyLl()};
    } else {
      e.rule = "regulatory_element";
      i64 n = r.range(0, 4);
      static const char* roles[] = {"refers", "ref_line", "foo", "my role"};
      for (i64 i = 0; i < n; i++) {
        const char* role = roles[r.below(4)];
        switch (r.below(5)) {
          case 0:
            if (!s.p.empty()) e.params[role].push_back({kP, int(r.below(s.p.size())), false});
            break;
          case 1:
            if (!s.l.empty()) e.params[role].push_back({kL, int(r.below(s.l.size())), C("invpar", 0) && r.chance(1, 2)});
            break;
          case 2:
            if (!s.g.empty()) e.params[role].push_back({kG, int(r.below(s.g.size())), false});
            break;
          case 3:
            if (!s.t.empty()) e.params[role].push_back({kT, anyLl(), C("invpar", 0) && r.chance(1, 2)});
            break;
          default:
            if (!s.a.empty()) e.params[role].push_back({kA, int(r.below(s.a.size())), false});
        }
      }
      if (!s.t.empty() && r.chance(1, 2)) att = {anyLl()};
    }
    if (r.chance(1, 4)) e.a["fallback"] = "yes";
    s.r.push_back(e);
    int id = int(s.r.size()) - 1;
    for (int t : att) {
      auto& v = s.t[size_t(t)].regs;
      if (std::find(v.begin(), v.end(), id) == v.end()) v.push_back(id);
    }
    if (!s.a.empty() && r.chance(1, 4)) s.a[r.below(s.a.size())].regs.push_back(id);
  }
  // unusual attributes
  static const char* kKey[] = {"name", "note<&>\"'", "a b", "Stra\xc3\x9f" "e", "turn_direction", "x", "1", "source:url"};
  static const char* kVal[] = {"", "yes", "1.5", "<tag a=\"b\">&amp;'", "\xe6\xbc\xa2\xe5\xad\x97", " lead", "a\nb\tc", "30 kmh", "-7", "1e3",
                               "a very long value that does not fit into any small string optimisation buffer whatsoever"};
  for (int d = 0; d < odd; d++) {
    Rng r = rngOf(12, u64(d));
    auto put = [&](Attrs& a) { a[kKey[r.below(8)]] = kVal[r.below(11)]; };
    for (int rep = 0; rep < 4; rep++) switch (r.below(6)) {
        case 0:
          if (!s.p.empty()) put(s.p[r.below(s.p.size())].a);
          break;
        case 1:
          if (!s.l.empty()) put(s.l[r.below(s.l.size())].a);
          break;
        case 2:
          if (!s.g.empty()) put(s.g[r.below(s.g.size())].a);
          break;
        case 3:
          if (!s.t.empty()) put(s.t[r.below(s.t.size())].a);
          break;
        case 4:
          if (!s.a.empty()) put(s.a[r.below(s.a.size())].a);
          break;
        default:
          if (!s.r.empty()) put(s.r[r.below(s.r.size())].a);
      }
  }
  // ids
  std::vector<Id*> ids;
  for (auto& e : s.p) ids.push_back(&e.id);
  for (auto& e : s.l) ids.push_back(&e.id);
  for (auto& e : s.g) ids.push_back(&e.id);
  for (auto& e : s.t) ids.push_back(&e.id);
  for (auto& e : s.a) ids.push_back(&e.id);
  for (auto& e : s.r) ids.push_back(&e.id);
  Rng r = rngOf(13);
  std::set<Id> used{0};
  const i64 mode = C("ids", 0);
  Id seq = mode == 3 ? 1 : mode == 1 ? 990 : 50000;
  std::vector<int> order = permutation(r, int(ids.size()));
  for (int i : order) {
    Id id = 0;
    do {
      if (mode == 2) id = Id(r.below(1ull << 40)) + 1;
      else if (mode == 4) id = r.chance(1, 2) ? -Id(r.below(100000)) - 1 : Id(r.below(100000)) + 1;
      else id = seq++;
    } while (!used.insert(id).second);
    *ids[size_t(i)] = id;
  }
  return s;
}
void shiftIds(Spec& s, Id by) {
  for (auto& e : s.p) e.id += by;
  for (auto& e : s.l) e.id += by;
  for (auto& e : s.g) e.id += by;
  for (auto& e : s.t) e.id += by;
  for (auto& e : s.a) e.id += by;
  for (auto& e : s.r) e.id += by;
}

// ------------------------------------------------------------------ expected text
std::string attrText(const Attrs& a) {
  std::string o = "{";
  for (auto& x : a) o += x.first + "=" + x.second + ";";
  return o + "}";
}
static std::string refOf(const Spec& s, Ref r) { return fmt("%lld%c", (long long)s.l[size_t(r.i)].id, r.inv ? '-' : '+'); }
std::string ringText(std::vector<std::string> v, bool canonical) {
  if (canonical && v.size() > 1) {
    std::vector<std::string> best = v;
    for (size_t i = 1; i < v.size(); i++) {
      std::rotate(v.begin(), v.begin() + 1, v.end());
      if (v < best) best = v;
    }
    v = best;
  }
  std::string o = "[";
  for (auto& x : v) o += x + " ";
  return o + "]";
}
Dump dumpSpec(const Spec& s, int opt) {
  Dump d;
  const bool osm = opt == kOsm;
  auto ll = [](Id i) { return (long long)i; };
  for (auto& p : s.p)
    d[fmt("P %lld", ll(p.id))] = osm ? coarse(p.x) + "," + coarse(p.y) + "," + coarse(p.z) + " " + attrText(p.a)
                                     : num(p.x) + "," + num(p.y) + "," + num(p.z) + " " + attrText(p.a);
  auto pts = [&](const std::vector<int>& v) {
    std::string o = "[";
    for (int i : v) o += fmt("%lld ", ll(s.p[size_t(i)].id));
    return o + "]";
  };
  for (auto& l : s.l) d[fmt("L %lld", ll(l.id))] = pts(l.pts) + " " + attrText(l.a);
  for (auto& g : s.g) {
    Attrs a = g.a;
    if (osm) a["area"] = "true";
    d[fmt("G %lld", ll(g.id))] = pts(g.pts) + " " + attrText(a);
  }
  auto regs = [&](const std::vector<int>& v) {
    std::string o = " regs=";
    for (int i : v) o += fmt("%lld ", ll(s.r[size_t(i)].id));
    return o;
  };
  for (auto& t : s.t) {
    Attrs a = t.a;
    if (osm) a.emplace("type", "lanelet");
    d[fmt("T %lld", ll(t.id))] = "left=" + refOf(s, t.left) + " right=" + refOf(s, t.right) +
                                 " center=" + (t.center.i < 0 ? std::string("-") : refOf(s, t.center)) + " " + attrText(a) + regs(t.regs);
  }
  for (auto& ar : s.a) {
    Attrs a = ar.a;
    if (osm) a.emplace("type", "multipolygon");
    auto ring = [&](const std::vector<Ref>& r) {
      std::vector<std::string> v;
      for (auto& x : r) v.push_back(refOf(s, x));
      return ringText(v, osm);
    };
    std::string o = "outer=" + ring(ar.outer) + " inner=";
    for (auto& i : ar.inner) o += ring(i);
    d[fmt("A %lld", ll(ar.id))] = o + " " + attrText(a) + regs(ar.regs);
  }
  for (auto& r : s.r) {
    Attrs a = r.a;
    a["subtype"] = r.rule;
    a["type"] = "regulatory_element";
    std::string o = r.rule + " ";
    if (!osm && !r.a.count("type")) a.erase("type");
    o += attrText(a);
    for (auto& role : r.params) {
      if (role.second.empty()) continue;
      o += " " + role.first + ":";
      for (auto& q : role.second) {
        switch (q.kind) {
          case kP: o += fmt(" P%lld", ll(s.p[size_t(q.i)].id)); break;
          case kL: o += fmt(" L%lld%c", ll(s.l[size_t(q.i)].id), q.inv && !osm ? '-' : '+'); break;
          case kG: o += fmt(" G%lld", ll(s.g[size_t(q.i)].id)); break;
          case kT: o += fmt(" T%lld%s", ll(s.t[size_t(q.i)].id), q.inv && !osm ? "-" : ""); break;
          default: o += fmt(" A%lld", ll(s.a[size_t(q.i)].id)); break;
        }
      }
    }
    d[fmt("R %lld", ll(r.id))] = o;
  }
  return d;
}
std::string dumpText(const Dump& d) {
  std::string o;
  for (auto& e : d) o += e.first + " " + e.second + "\n";
  return o;
}
std::string diff(const Dump& w, const Dump& g, size_t maxLines) {
  std::string o;
  size_t n = 0;
  auto add = [&](const std::string& s) {
    if (n++ < maxLines) o += s + "\n";
  };
  for (auto& e : w) {
    auto it = g.find(e.first);
    if (it == g.end()) add("missing " + e.first + " " + e.second);
    else if (it->second != e.second) add("differs " + e.first + "\n   want " + e.second + "\n   got  " + it->second);
  }
  for (auto& e : g)
    if (!w.count(e.first)) add("extra " + e.first + " " + e.second);
  if (n > maxLines) o += fmt("... %zu differences\n", n);
  return o;
}
}  // namespace h
