// C16: the validator (library entry points and the command line's exit status) on intact, torn, damaged, unreadable and missing files.
#include <lanelet2_validation/Cli.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_validation/BasicValidator.h>
#include <lanelet2_validation/Validation.h>
#include <lanelet2_validation/ValidatorFactory.h>

#include <cmath>

#include "io_util.h"

using namespace lanelet;
namespace h {
namespace {
const char* kFilters[] = {"", "mapping.*", "routing.*", "mapping.bool_tags,mapping.mandatory_tags", "MAPPING.UNKNOWN.*", "mapping.duplicated_points,routing.*",
                          "mapping.points_too_close,,mapping.curvature_too_big", "mapping.*tag.*,mapping.mandatory_tags"};
const char* kChecks[] = {"mapping.bool_tags", "mapping.unknown_tags", "mapping.unknown_tag_value", "mapping.mandatory_tags", "mapping.curvature_too_big",
                         "mapping.duplicated_points", "mapping.points_too_close"};
// which of kChecks each filter selects (bit mask)
const unsigned kSelected[] = {0x7f, 0x7f, 0, 0x09, 0x06, 0x20, 0x50, 0x0f};
// checks of the user's own
struct SimRules : validation::TrafficRuleValidator {
  constexpr static const char* name() { return "rules.sim"; }
  validation::Issues operator()(const LaneletMap& map, const std::vector<traffic_rules::TrafficRulesUPtr>& rules) override {
    validation::Issues is;
    for (auto t : map.laneletLayer)
      if (t.hasAttribute("temporary"))
        for (auto& r : rules) is.emplace_back(validation::Severity::Warning, validation::Primitive::Lanelet, t.id(), "is temporary for " + r->participant());
    return is;
  }
};
struct SimGraph : validation::RoutingGraphValidator {
  constexpr static const char* name() { return "routing.sim"; }
  validation::Issues operator()(const routing::RoutingGraph& graph, const traffic_rules::TrafficRules& rules) override {
    validation::Issues is;
    for (auto t : graph.passableSubmap()->laneletLayer)
      if (t.hasAttribute("speed_limit")) is.emplace_back(validation::Severity::Error, validation::Primitive::Lanelet, t.id(), "can be passed by " + rules.participant());
    return is;
  }
};
validation::RegisterTrafficRuleValidator<SimRules> regRules;
validation::RegisterRoutingGraphValidator<SimGraph> regGraph;
enum { kGraphValid = 1, kSimGraph = 2, kSimRules = 4 };
struct Filter {
  std::string text;
  unsigned sel = 0;
  int more = 0;
};
// codes from 8 on are seeds of lists put together from names, expressions, empty entries and entries that select nothing
Filter filterOf(i64 code) {
  Filter f;
  if (code < 8) {
    int k = int(code & 7);
    f.text = kFilters[k];
    f.sel = kSelected[k];
    f.more = k == 0 ? 7 : k == 2 || k == 5 ? kGraphValid | kSimGraph : 0;
    return f;
  }
  Rng r{u64(code)};
  struct Piece {
    const char* text;
    unsigned sel;
    int more;
  };
  static const Piece kPieces[] = {{"mapping.bool_tags", 1, 0}, {"mapping.unknown_tags", 2, 0}, {"mapping.unknown_tag_value", 4, 0}, {"mapping.mandatory_tags", 8, 0},
                                  {"mapping.curvature_too_big", 16, 0}, {"mapping.duplicated_points", 32, 0}, {"mapping.points_too_close", 64, 0}, {"routing.graph_is_valid", 0, kGraphValid},
                                  {"", 0, 0}, {"nothing", 0, 0}, {"routing.sim", 0, kSimGraph}, {"rules.*", 0, kSimRules}, {".*", 0x7f, 7}, {"Mapping.B.*", 1, 0}, {"map", 0, 0}, {".*TAGS", 0x0b, 0}, {"mapping.[dp].*", 0x60, 0}};
  bool any = false;
  for (i64 i = 0, n = r.range(1, 9); i < n; i++) {
    const Piece& q = kPieces[r.below(r.chance(1, 8) ? 17 : 12)];
    f.text += (i ? "," : "") + std::string(q.text);
    f.sel |= q.sel;
    f.more |= q.more;
    any |= *q.text != 0;
  }
  if (!any) {
    f.sel = 0x7f;
    f.more = 7;
  }
  return f;
}
enum FileKind { kGood, kCut, kDamaged, kMissing, kNumFileKinds };
// ops: val kind fmt filter parts how(0 report,1 cli) variant  | fault opk kind permille arg (applies to the next val of the same client; single client only)
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(2)));
  p.cfg["proj"] = 1;
  p.cfg["how"] = i64(r.below(3));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_issues"] = i64(r.below(100000));
  p.cfg["issues"] = i64(r.below(8));
  p.cfg["limits"] = r.chance(1, 3);
  if (p.cfg["limits"]) p.cfg["regs"] = r.range(1, 5);
  const bool bad = r.chance(1, 4);
  if (bad) p.cfg["regs"] = r.range(2, 6), p.cfg["limits"] = 1;
  p.cfg["badsign"] = bad ? i64(1 + r.below(1000)) : 0;  // a sign nobody can read a velocity from
  // the number of issues is made a multiple of 256, what an exit status cannot tell from none (1 unknown tags, 2 bool tags)
  p.cfg["wrap"] = r.chance(1, 6) ? i64(1 + r.below(2)) : 0;
  int n = r.chance(1, 3) ? int(r.range(2, 3)) : 1;
  p.cfg["clients"] = n;
  if (n > 1) {
    schedFrom(p, r, 400000);
    if (r.chance(1, 3)) p.io(0, kIoRead, r.below(3), r.chance(1, 2) ? kShort : kEINTR, i64(1 + r.below(3000)));
  }
  for (int c = 0; c < n; c++) {
    int k = int(r.range(1, n > 1 ? 2 : 5));
    for (int i = 0; i < k; i++) {
      if (n == 1 && r.chance(1, 2)) {
        static const int kReadKinds[] = {kErrEIO, kEof};
        static const int kOpenKinds[] = {kErrEACCES, kErrEMFILE, kErrENOENT, kErrEIO};
        int opk = r.chance(1, 5) ? kIoOpen : r.chance(1, 5) ? kIoStat : r.chance(1, 10) ? kIoSeek : kIoRead;
        p.op(c, "fault", {opk, opk == kIoRead ? kReadKinds[r.below(2)] : opk == kIoSeek ? int(kErrEIO) : kOpenKinds[r.below(4)], i64(r.below(1001)), 0});
      }
      int kind = r.chance(2, 5) ? kGood : int(r.below(kNumFileKinds));
      p.op(c, "val", {kind, i64(r.below(2)), bad && r.chance(1, 2) ? 2 * i64(r.below(2)) : r.chance(1, 2) ? i64(r.below(8)) : i64(8 + r.below(1000000)), bad && r.chance(2, 3) ? 2 + 2 * i64(r.below(2)) : i64(r.below(6)), i64(r.below(2)), i64(r.below(100000))});
    }
  }
}
void spoilSign(Spec& s, u64 seed) {
  Rng r(seed);
  std::vector<ReS*> cand;
  for (auto& e : s.r)
    if (e.rule == "speed_limit") cand.push_back(&e);
  if (cand.empty()) return;
  const size_t sure = r.below(cand.size());
  for (size_t k = 0; k < cand.size(); k++)
    if (k == sure || r.chance(2, 3))
      for (auto& m : cand[k]->params["refers"])
        if (m.kind == kL) {
          s.l[size_t(m.i)].a["subtype"] = r.chance(1, 2) ? "unreadable" : "de274-35";
          count("probe.unreadable_sign");
        }
}
void spice(Spec& s, u64 seed, int n) {
  Rng r(seed);
  for (int i = 0; i < n; i++) {
    auto anyAttrs = [&]() -> Attrs* {
      switch (r.below(5)) {
        case 0: return s.p.empty() ? nullptr : &s.p[r.below(s.p.size())].a;
        case 1: return s.l.empty() ? nullptr : &s.l[r.below(s.l.size())].a;
        case 2: return s.t.empty() ? nullptr : &s.t[r.below(s.t.size())].a;
        case 3: return s.a.empty() ? nullptr : &s.a[r.below(s.a.size())].a;
        default: return s.r.empty() ? nullptr : &s.r[r.below(s.r.size())].a;
      }
    };
    switch (r.below(6)) {
      case 0:
        if (auto* a = anyAttrs()) (*a)[r.chance(1, 2) ? "one_way" : "participant:vehicle"] = r.chance(1, 2) ? "maybe" : "yes";
        break;
      case 1:
        if (auto* a = anyAttrs()) (*a)[r.chance(1, 2) ? "strange" : "temporary"] = "3";
        break;
      case 2:
        if (auto* a = anyAttrs()) a->erase("location");
        break;
      case 3:  // point repeated in succession, in a line used by nothing else
        if (s.p.size() >= 2) {
          int a = int(r.below(s.p.size())), b = int(r.below(s.p.size()));
          s.l.push_back(LsS{Id(6000000000ll + i), {a, b, b}, {{"type", "line_thin"}, {"subtype", "solid"}}});
        }
        break;
      case 4:
        if (!s.p.empty()) {
          auto q = s.p[r.below(s.p.size())];
          s.p.push_back(PtS{Id(6500000000ll + i), q.x + 0.02, q.y, q.z + (r.chance(1, 2) ? 0.0 : 0.5), {}});
        }
        break;
      default:
        if (!s.l.empty()) s.l[r.below(s.l.size())].a.erase("type");
    }
  }
}
using Report = std::multiset<std::string>;
struct Got {
  Res r;
  int rc = 0;
  bool any = false, error = false;
  Report rep;
  std::string formatted;  // what is wrong with the report made of these issues
};
Got take(std::vector<validation::DetectedIssues>& is) {
  Got g;
  g.any = !is.empty();
  for (auto& d : is)
    for (auto& i : d.issues) {
      if (i.severity == validation::Severity::Error) g.error = true;
      g.rep.insert(d.checkName + "|" + validation::toString(i.severity) + "|" + i.buildReport());
    }
  lib([&] {
    auto all = validation::buildReport(is);
    std::multiset<std::string> want[2], got[2] = {{all.errors.begin(), all.errors.end()}, {all.warnings.begin(), all.warnings.end()}};
    for (auto& d : is)
      for (auto& i : d.issues)
        if (i.severity != validation::Severity::Info) want[i.severity == validation::Severity::Warning].insert(i.buildReport() + " [" + d.checkName + "]");
    for (int k = 0; k < 2; k++)
      if (want[k] != got[k]) g.formatted = fmt("%zu %s found, the report has %zu", want[k].size(), k ? "warnings" : "errors", got[k].size());
    return 0;
  });
  return g;
}
std::vector<std::string> partsOf(int parts) {
  switch (parts) {
    case 1: return {Participants::Pedestrian};
    case 2: return {Participants::Vehicle, Participants::Bicycle};
    case 3: return {};
    case 4: return {Participants::Vehicle, Participants::Bicycle, Participants::Vehicle};
    case 5: return {Participants::Vehicle, Participants::Pedestrian};
    default: return {Participants::Vehicle};
  }
}
validation::CommandLineConfig* config(const std::string& file, const std::string& filter, const std::vector<std::string>& parts) {
  sim::Lib l;
  auto* c = new validation::CommandLineConfig();
  c->mapFile = file;
  c->validationConfig.checksFilter = filter;
  c->validationConfig.origin = {49.01, 8.42};
  c->validationConfig.participants = parts;
  return c;
}
Got validate(const std::string& file, const std::string& filter, const std::vector<std::string>& parts, int how, LaneletMap* map = nullptr) {
  auto* cfg = config(file, filter, parts);
  auto* is = lib([] { return new std::vector<validation::DetectedIssues>(); });
  int rc = 0;
  Res r = attempt([&] {
    if (map) *is = validation::validateMap(*map, cfg->validationConfig);
    else if (how) rc = validation::runFromConfig(*cfg);
    else *is = validation::validateMap(file, cfg->validationConfig);
  });
  Got g = take(*is);
  g.r = r;
  g.rc = rc;
  lib([&] {
    delete is;
    delete cfg;
    return 0;
  });
  return g;
}
// Independent implementation of the mapping checks: "check|Primitive id" -> must be reported / must not
struct Want {
  std::set<std::string> yes, open;  // open: too close to a threshold to judge
};
bool has(const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
Want reference(const LaneletMap& m, unsigned sel) {
  Want w;
  auto prefix = [](const std::string& s, std::initializer_list<const char*> known) {
    for (auto* k : known)
      if (s.compare(0, strlen(k), k) == 0) return true;
    return false;
  };
  auto add = [&](int c, const char* prim, Id id, const std::string& extra) {
    if (sel & (1u << c)) w.yes.insert(fmt("%s|%s %lld ", kChecks[c], prim, (long long)id) + extra);
  };
  auto attrsOf = [](const AttributeMap& a) {
    Attrs o;
    for (auto& x : a) o[x.first] = x.second.value();
    return o;
  };
  auto boolOk = [](const std::string& v) { return v == "true" || v == "false" || v == "yes" || v == "no" || v == "0" || v == "1"; };
  auto boolTags = [&](const char* prim, Id id, const Attrs& a) {
    for (auto& x : a)
      if (prefix(x.first, {"one_way", "dynamic", "lane_change", "participant", "fallback", "temporary"}) && !boolOk(x.second)) add(0, prim, id, "attribute " + x.first + ":");
  };
  auto mandatory = [&](const char* prim, Id id, const Attrs& a, std::initializer_list<const char*> tags) {
    for (auto* t : tags)
      if (!a.count(t)) add(3, prim, id, std::string("should have a ") + t);
  };
  auto unknown = [&](const char* prim, Id id, const Attrs& a, std::initializer_list<const char*> tags) {
    for (auto& x : a)
      if (!prefix(x.first, tags)) add(1, prim, id, "attribute " + x.first + " is not");
  };
  auto value = [&](const char* prim, Id id, const Attrs& a, const char* key, std::vector<std::string> ok) {
    auto it = a.find(key);
    if (it != a.end() && !has(ok, it->second)) add(2, prim, id, std::string("value ") + it->second + " is not a known value for " + key);
  };
  struct P { Id id; double x, y, z; };
  std::vector<P> pts;
  for (auto p : m.pointLayer) {
    pts.push_back({p.id(), p.x(), p.y(), p.z()});
    Attrs a = attrsOf(p.attributes());
    unknown("point", p.id(), a, {"ele", "type", "subtype"});
    value("point", p.id(), a, "type", {"dot", "end", "pole", "post", "start"});
  }
  for (auto& p : pts) {
    double best = 1e300, second = 1e300;
    const P* bp = nullptr;
    for (auto& q : pts) {
      if (q.id == p.id) continue;
      double d = std::hypot(q.x - p.x, q.y - p.y);
      if (d < best) {
        second = best;
        best = d;
        bp = &q;
      } else if (d < second) second = d;
    }
    if (!bp) continue;
    double d3 = std::sqrt(best * best + (bp->z - p.z) * (bp->z - p.z));
    if (second - best < 1e-6 || std::fabs(d3 - 0.05) < 1e-6) w.open.insert(fmt("%s|point %lld ", kChecks[6], (long long)p.id));
    else if (d3 < 0.05) add(6, "point", p.id, fmt("Point is very close to point %lld", (long long)bp->id));
  }
  auto dup = [&](const char* prim, Id id, const std::vector<Id>& ids) {
    for (size_t i = 1; i < ids.size(); i++)
      if (ids[i] == ids[i - 1]) {
        add(5, prim, id, fmt("contains the point %lld", (long long)ids[i]));
        return;
      }
  };
  auto idsOf = [](const auto& ls) {
    std::vector<Id> v;
    for (auto p : ls) v.push_back(p.id());
    return v;
  };
  for (auto l : m.lineStringLayer) {
    Attrs a = attrsOf(l.attributes());
    boolTags("linestring", l.id(), a);
    unknown("linestring", l.id(), a, {"type", "subtype", "lane_change", "width", "height", "temporary", "color"});
    mandatory("linestring", l.id(), a, {"type"});
    value("linestring", l.id(), a, "type",
          {"arrow", "bike_marking", "bump", "curbstone", "door", "fence", "gate", "guard_rail", "jersey_barrier", "keepout", "lift_gate", "line_thick", "line_thin", "pedestrian_marking", "rail", "road_border",
           "stop_line", "symbol", "traffic_light", "traffic_sign", "trajectory", "virtual", "visualization", "wall", "zebra_marking", "zig-zag"});
    dup("linestring", l.id(), idsOf(l));
  }
  for (auto g : m.polygonLayer) dup("polygon", g.id(), idsOf(g));
  for (auto t : m.laneletLayer) {
    Attrs a = attrsOf(t.attributes());
    boolTags("lanelet", t.id(), a);
    unknown("lanelet", t.id(), a, {"type", "subtype", "one_way", "name", "region", "speed_limit", "location", "participant"});
    mandatory("lanelet", t.id(), a, {"type", "subtype", "location"});
    value("lanelet", t.id(), a, "location", {"nonurban", "private", "urban"});
    value("lanelet", t.id(), a, "subtype", {"bicycle_lane", "bus_lane", "crosswalk", "emergency_lane", "highway", "play_street", "rail", "road", "shared_walkway", "stairs", "walkway"});
    value("lanelet", t.id(), a, "type", {"lanelet"});
    for (auto bound : {t.leftBound(), t.rightBound()}) {
      std::vector<P> b;
      for (auto p : bound) b.push_back({p.id(), p.x(), p.y(), 0});
      for (size_t i = 1; i + 1 < b.size(); i++) {
        double s1 = std::hypot(b[i].x - b[i - 1].x, b[i].y - b[i - 1].y), s2 = std::hypot(b[i + 1].x - b[i - 1].x, b[i + 1].y - b[i - 1].y),
               s3 = std::hypot(b[i + 1].x - b[i].x, b[i + 1].y - b[i].y);
        double area2 = std::fabs((b[i].x - b[i - 1].x) * (b[i + 1].y - b[i - 1].y) - (b[i].y - b[i - 1].y) * (b[i + 1].x - b[i - 1].x));
        double k = s1 * s2 * s3 < 1e-12 ? 1e9 : 2 * area2 / (s1 * s2 * s3);
        if (std::fabs(k - 0.5) < 1e-6 || s1 * s2 * s3 < 1e-12) w.open.insert(fmt("%s|lanelet %lld ", kChecks[4], (long long)t.id()));
        else if (k > 0.5) add(4, "lanelet", t.id(), fmt("Curvature at point %lld", (long long)b[i].id));
      }
    }
  }
  for (auto ar : m.areaLayer) {
    Attrs a = attrsOf(ar.attributes());
    boolTags("area", ar.id(), a);
    unknown("area", ar.id(), a, {"type", "subtype", "speed_limit", "location", "region", "name"});
    mandatory("area", ar.id(), a, {"type", "subtype", "location"});
    value("area", ar.id(), a, "location", {"nonurban", "private", "urban"});
    value("area", ar.id(), a, "type", {"multipolygon"});
    value("area", ar.id(), a, "subtype", {"bicycle_lane", "building", "bus_lane", "crosswalk", "emergency_lane", "exit", "freespace", "highway", "keepout", "parking", "play_street", "road", "shared_walkway", "stairs",
                                         "traffic_island", "vegetation", "walkway"});
  }
  for (auto& re : m.regulatoryElementLayer) {
    Attrs a = attrsOf(re->attributes());
    boolTags("regulatory element", re->id(), a);
    unknown("regulatory element", re->id(), a, {"dynamic", "fallback", "sign_type", "speed_limit", "subtype", "type"});
    mandatory("regulatory element", re->id(), a, {"type", "subtype"});
    value("regulatory element", re->id(), a, "type", {"regulatory_element"});
  }
  return w;
}
// every wanted issue reported, nothing else reported by the mapping checks
std::string compare(const Want& w, const Report& rep) {
  std::set<std::string> used;
  std::string o;
  for (auto& want : w.yes) {
    size_t bar = want.find('|');
    std::string check = want.substr(0, bar);
    // "Primitive id rest": the report has the primitive with its id and later the detail
    std::string detail = want.substr(bar + 1);
    size_t sp = 0;
    std::string head;
    for (auto* prim : {"regulatory element ", "linestring ", "polygon ", "lanelet ", "point ", "area "})
      if (detail.compare(0, strlen(prim), prim) == 0) {
        sp = detail.find(' ', strlen(prim)) + 1;
        break;
      }
    head = detail.substr(0, sp);
    std::string rest = detail.substr(sp);
    bool open = false;
    for (auto& x : w.open) open |= x == check + "|" + head;
    bool found = false;
    for (auto& r : rep)
      if (r.compare(0, check.size() + 1, check + "|") == 0 && r.find(": " + head) != std::string::npos && r.find(rest) != std::string::npos) {
        found = true;
        used.insert(r);
      }
    if (!found && !open) o += "not reported: " + want + "\n";
  }
  for (auto& r : rep) {
    if (used.count(r) || r.compare(0, 8, "mapping.") != 0) continue;
    bool open = false;
    for (auto& x : w.open) {
      size_t bar = x.find('|');
      open |= r.compare(0, bar, x.substr(0, bar)) == 0 && r.find(": " + x.substr(bar + 1)) != std::string::npos;
    }
    if (!open) o += "reported without reason: " + r + "\n";
  }
  return o;
}
// what is said about the routing graph of each participant, wherever else it is mentioned
std::string compareRouting(LaneletMap& m, const Filter& f, const std::vector<std::string>& parts, const Report& rep) {
  Report got, want;
  for (auto& x : rep)
    if (x.compare(0, 8, "mapping.") != 0) got.insert(x);
  auto all = [&](const char* check, const validation::Issues& is) {
    for (auto& i : is) want.insert(std::string(check) + "|" + validation::toString(i.severity) + "|" + i.buildReport());
  };
  if (f.more & kSimRules) {
    sim::Lib l;
    std::vector<traffic_rules::TrafficRulesUPtr> rules;
    for (auto& part : parts) rules.push_back(traffic_rules::TrafficRulesFactory::create(Locations::Germany, part));
    all("rules.sim", SimRules()(m, rules));
  }
  if (f.more & (kGraphValid | kSimGraph)) {
    for (auto& part : parts) {
      sim::Lib l;
      try {
        auto rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, part);
        auto graph = routing::RoutingGraph::build(m, *rules);
        if (f.more & kSimGraph) all("routing.sim", SimGraph()(*graph, *rules));
        if (f.more & kGraphValid)
          for (auto& e : graph->checkValidity(false)) want.insert("routing.graph_is_valid|Error|Error: " + e);
      } catch (LaneletError& e) {
        want.insert("general|Error|Error: Failed to create routing graph for location: de, participant: " + part + ": " + e.what());
        count("probe.graph_impossible");
      }
    }
  }
  if (got == want) return "";
  std::string o;
  for (auto& x : want)
    if (got.count(x) != want.count(x)) o += "expected: " + x + "\n";
  for (auto& x : got)
    if (got.count(x) != want.count(x)) o += "reported: " + x + "\n";
  return o;
}
std::string reportText(const Report& r) {
  std::string o;
  size_t n = 0;
  for (auto& x : r)
    if (n++ < 8) o += x + "\n";
  return o + fmt("(%zu issues)", r.size());
}
void run(Ctx& c) {
  auto proj = makeProjector(1);
  Spec s = genNet(c.plan);
  spice(s, u64(c.plan.c("_issues")), int(c.plan.c("issues")));
  if (c.plan.c("badsign", 0)) spoilSign(s, u64(c.plan.c("badsign")));
  Built b = build(s, int(c.plan.c("how")), u64(c.plan.c("_order")));
  clearIoFaults();
  const int wrap = int(c.plan.c("wrap", 0));
  const int wrapFilter = wrap == 1 ? 4 : 3;
  if (wrap && s.p.size() >= 2) {
    Got now = validate("", kFilters[wrapFilter], partsOf(0), 0, b.map.get());
    size_t more = (256 - now.rep.size() % 256) % 256;
    for (size_t i = 0; i < more; i++)
      s.l.push_back(LsS{Id(6700000000ll + i64(i)), {0, 1}, {{"type", "line_thin"}, {"subtype", "solid"}, {wrap == 1 ? "strange" : "temporary", "3"}}});
    b = build(s, int(c.plan.c("how")), u64(c.plan.c("_order")));
    count("probe.issue_count_multiple_of_256");
  }
  std::string golden[2];
  for (int f = 0; f < 2; f++) {
    IoOut o = doWrite("/simdisk/good" + extOf(f), f, *b.map, *proj, 0);
    if (!o.silentOk()) fail("refused", o.text());
    golden[f] = diskContent("/simdisk/good" + extOf(f));
  }
  // prepare all files first
  int n = 0;
  struct Job {
    int client, kind, f, parts, how;
    Filter filter;
    std::string file, note;
    const Op* fault = nullptr;
    bool faulty = false, broken = false;
    Got got;
  };
  std::vector<Job> jobs;
  const Op* pending = nullptr;
  const int clients = std::max(1, int(c.plan.c("clients", 1)));
  for (auto& op : c.plan.ops) {
    if (op.name == "fault") {
      pending = &op;
      continue;
    }
    Job j;
    j.client = op.client % clients;
    j.kind = int(op.arg(0));
    j.f = int(op.arg(1)) & 1;
    j.filter = filterOf(op.arg(2));
    j.parts = int(op.arg(3)) % 6;
    j.how = int(op.arg(4)) & 1;
    if (wrap && op.arg(5) % 3) {
      j.filter = filterOf(wrapFilter);
      j.parts = 0;
      j.how = 1;
    }
    j.fault = clients == 1 ? pending : nullptr;
    pending = nullptr;
    Rng r{u64(op.arg(5))};
    j.file = "/simdisk/good" + extOf(j.f);
    const std::string& g = golden[j.f];
    n++;
    if (j.kind == kCut) {
      j.file = fmt("/simdisk/cut%d%s", n, extOf(j.f).c_str());
      u64 cut = r.chance(1, 3) ? g.size() - std::min<u64>(g.size(), 1 + r.below(60)) : r.below(g.size());
      if (n < 8) diskPut(j.file.c_str(), g.data(), cut);
      j.broken = true;
      // whitespace behind the root element carries no content
      if (j.f == 0 && g.compare(0, cut, g.substr(0, cut)) == 0 && g.substr(0, cut).find("</osm>") != std::string::npos) j.broken = false;
      j.note = fmt("cut to %llu of %zu bytes", (unsigned long long)cut, g.size());
      count("fault.truncated_file");
    } else if (j.kind == kDamaged && j.f == 0) {
      OsmText t = splitOsm(g);
      // drop an element that another one refers to
      std::vector<int> cand;
      std::string refs;
      for (auto& e : t.e)
        if (e.kind != 'n') refs += e.text;
      for (size_t i = 0; i < t.e.size(); i++)
        if (refs.find(fmt("ref=\"%lld\"", (long long)t.e[i].id)) != std::string::npos) cand.push_back(int(i));
      if (!cand.empty()) {
        int k = cand[r.below(cand.size())];
        j.note = fmt("%c %lld lost", t.e[size_t(k)].kind, (long long)t.e[size_t(k)].id);
        t.e.erase(t.e.begin() + k);
        std::string text = t.str();
        j.file = fmt("/simdisk/damaged%d.osm", n);
        if (n < 8) diskPut(j.file.c_str(), text.data(), text.size());
        j.broken = true;
        count("fault.lost_element");
      }
    } else if (j.kind == kMissing) {
      j.file = fmt("/simdisk/missing%d%s", n, extOf(j.f).c_str());
      j.broken = true;
      count("fault.missing_file");
    }
    if (n < 8) jobs.push_back(j);
  }
  auto runJob = [&](Job& j) {
    if (j.fault) {
      IoFault q{int(j.fault->arg(0)), 0, int(j.fault->arg(1)), u64(j.fault->arg(3)), 0, -1};
      if (q.op == kIoRead) {
        u64 size = diskContent(j.file).size();
        q.nth = size ? std::min<u64>(size - 1, size * u64(j.fault->arg(2)) / 1000) : 0;
        q.byByte = 1;
      } else q.nth = u64(j.fault->arg(2)) % 2;
      setIoFaults(&q, 1);
    }
    j.got = validate(j.file, j.filter.text, partsOf(j.parts), j.how);
    if (j.fault) {
      j.faulty = ioFaultsFiredHard() > 0;
      clearIoFaults();
    }
  };
  if (clients == 1) {
    for (auto& j : jobs) runJob(j);
  } else {
    armIo(c, 0);
    runClients(clients, [&](int me) {
      for (auto& j : jobs)
        if (j.client == me) runJob(j);
    });
    clearIoFaults();
  }
  // judge
  for (auto& j : jobs) {
    markNontrivial();
    std::string ctx = fmt("%s (%s%s) filter '%s': ", j.file.c_str(), j.note.c_str(), j.faulty ? ", failing I/O" : "", j.filter.text.c_str());
    if (!j.got.r.ok()) fail("validator-threw", ctx + j.got.r.text());
    if (j.broken || j.faulty) {
      bool passed = j.how ? (j.got.rc & 0xff) == 0 : !j.got.error;
      if (passed) fail("broken-passed", ctx + (j.how ? "exit status 0 (only its low byte reaches the caller)" : "no error in the report\n" + reportText(j.got.rep)));
      count("probe.broken_reported");
      continue;
    }
    LoadOut o = doLoad(j.file, j.f, *proj, 0);
    if (!o.silentOk()) fail("refused", o.text());
    Got mem = validate("", j.filter.text, partsOf(j.parts), 0, o.map.get());
    if (!mem.r.ok()) fail("validator-threw", "in memory: " + mem.r.text());
    if (j.how) {
      if (((j.got.rc & 0xff) != 0) != mem.any) fail("exit-status", ctx + fmt("exit status %d, but %zu issues", j.got.rc, mem.rep.size()));
    } else if (j.got.rep != mem.rep) {
      fail("report-differs", ctx + "report from the file\n" + reportText(j.got.rep) + "\nreport from memory\n" + reportText(mem.rep));
    }
    if (!mem.formatted.empty()) fail("report-differs", ctx + mem.formatted);
    std::string cmp = lib([&] {
      std::set<std::string> checks, got;
      for (int k = 0; k < 7; k++)
        if (j.filter.sel & (1u << k)) checks.insert(kChecks[k]);
      if (j.filter.more & kGraphValid) checks.insert("routing.graph_is_valid");
      if (j.filter.more & kSimGraph) checks.insert("routing.sim");
      if (j.filter.more & kSimRules) checks.insert("rules.sim");
      for (auto& x : validation::availabeChecks(j.filter.text)) got.insert(x);
      if (got != checks) return fmt("%zu checks selected, expected %zu", got.size(), checks.size());
      Want w = reference(*o.map, j.filter.sel);
      return compare(w, mem.rep);
    });
    if (!cmp.empty()) fail("wrong-issues", ctx + "\n" + cmp);
    cmp = compareRouting(*o.map, j.filter, partsOf(j.parts), mem.rep);
    if (!cmp.empty()) fail("wrong-issues", ctx + "\n" + cmp);
    count("probe.intact_judged");
    dropMap(o.map);
  }
  sample(fmt("elements=%zu jobs=%zu clients=%d", s.total(), jobs.size(), clients));
}
RegisterScenario reg("C16", gen, run);
}  // namespace
}  // namespace h
