// C04: element-level damage (lost, deleted, duplicated, reordered elements, missing partners, failing conversions and factories)
// is reported and stays local, for loading and for writing.
#include <algorithm>

#include "io_util.h"

using namespace lanelet;
namespace h {
namespace {
// ---------------------------------------------------------------- plug-ins that fail for chosen elements
struct Choice {
  std::set<Id> regs, points;
  std::set<std::string> coords;
  int how = 0, calls = 0;
};
Choice g_choice;
struct FragileProjector : Projector {
  const Projector& real;
  explicit FragileProjector(const Projector& r) : Projector(r.origin()), real(r) {}
  static std::string key(double lat, double lon, double ele) { return fmt("%.9f %.9f %.4f", lat, lon, ele); }
  BasicPoint3d forward(const GPSPoint& p) const override {
    bool bad = false;
    {
      Harness hm;
      bad = !g_choice.coords.empty() && g_choice.coords.count(key(p.lat, p.lon, p.ele));
      g_choice.calls += bad;
    }
    if (bad) throw ForwardProjectionError("chosen to fail");
    return real.forward(p);
  }
  GPSPoint reverse(const BasicPoint3d& p) const override {
    bool bad = false;
    {
      Harness hm;
      bad = !g_choice.coords.empty() && g_choice.coords.count(key(p.x(), p.y(), p.z()));
      g_choice.calls += bad;
    }
    if (bad) throw ReverseProjectionError("chosen to fail");
    return real.reverse(p);
  }
};
class FragileReg : public RegulatoryElement {
 public:
  static constexpr char RuleName[] = "sim_fragile";
  explicit FragileReg(const RegulatoryElementDataPtr& d) : RegulatoryElement(d) {
    bool bad = false;
    {
      Harness hm;
      bad = g_choice.regs.count(d->id);
      g_choice.calls += bad;
    }
    if (!bad) return;
    switch (g_choice.how % 3) {
      case 0: throw InvalidInputError("chosen to fail");
      case 1: throw std::out_of_range("chosen to fail");
      default: throw std::runtime_error("chosen to fail");
    }
  }
};
#if __cplusplus < 201703L
constexpr char FragileReg::RuleName[];
#endif
RegisterRegulatoryElement<FragileReg> regFragile;

// ops: lose|del|dup|dupdiff|nd|member|twice|tag|perm|proj|reg trial a b      omit|unconv trial a b
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  p.cfg["proj"] = i64(r.below(3));
  p.cfg["how"] = i64(r.below(3));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["_fragile"] = i64(r.below(1000));
  int trials = int(r.range(1, 4));
  p.cfg["trials"] = trials;
  for (int t = 0; t < trials; t++) {
    bool w = r.chance(1, 3);
    int n = r.chance(1, 3) ? 1 : r.chance(1, 2) ? int(r.range(1, 4)) : int(r.range(2, 12));
    for (int k = 0; k < n; k++) {
      i64 a = i64(r.below(100000)), b = i64(r.below(100000)), cls = i64(r.below(4));
      if (w) {
        p.op(0, r.chance(1, 4) ? "unconv" : "omit", {t, a, b, cls});
        continue;
      }
      static const char* const kN[] = {"lose", "lose", "lose", "del", "dup", "dupdiff", "nd", "member", "member", "proj", "reg", "twice", "tag"};
      p.op(0, kN[r.below(13)], {t, a, b, cls});
    }
    p.op(0, w ? "mode" : "perm", {t, i64(r.below(100000)), i64(r.below(4)), 0});
  }
}
// ---------------------------------------------------------------- dependencies between the elements of a spec
std::string key(char k, Id i) { return fmt("%c %lld", k, (long long)i); }
std::map<std::string, std::vector<std::string>> dependencies(const Spec& s) {
  std::map<std::string, std::vector<std::string>> d;
  auto P = [&](int i) { return key('P', s.p[size_t(i)].id); };
  auto L = [&](int i) { return key('L', s.l[size_t(i)].id); };
  for (auto& e : s.p) d[key('P', e.id)];
  for (auto& e : s.l)
    for (int i : e.pts) d[key('L', e.id)].push_back(P(i));
  for (auto& e : s.g)
    for (int i : e.pts) d[key('G', e.id)].push_back(P(i));
  for (auto& e : s.t) {
    auto& v = d[key('T', e.id)];
    for (auto* q : {&e.left, &e.right, &e.center})
      if (q->i >= 0) v.push_back(L(q->i));
    for (int i : e.regs) v.push_back(key('R', s.r[size_t(i)].id));
  }
  for (auto& e : s.a) {
    auto& v = d[key('A', e.id)];
    for (auto& q : e.outer) v.push_back(L(q.i));
    for (auto& in : e.inner)
      for (auto& q : in) v.push_back(L(q.i));
    for (int i : e.regs) v.push_back(key('R', s.r[size_t(i)].id));
  }
  for (auto& e : s.r) {
    auto& v = d[key('R', e.id)];
    for (auto& role : e.params)
      for (auto& q : role.second) switch (q.kind) {
          case kP: v.push_back(P(q.i)); break;
          case kL: v.push_back(L(q.i)); break;
          case kG: v.push_back(key('G', s.g[size_t(q.i)].id)); break;
          case kT: v.push_back(key('T', s.t[size_t(q.i)].id)); break;
          default: v.push_back(key('A', s.a[size_t(q.i)].id)); break;
        }
  }
  return d;
}
std::set<std::string> affectedBy(const std::map<std::string, std::vector<std::string>>& dep, std::set<std::string> bad) {
  for (bool more = true; more;) {
    more = false;
    for (auto& e : dep)
      if (!bad.count(e.first))
        for (auto& q : e.second)
          if (bad.count(q)) {
            bad.insert(e.first);
            more = true;
            break;
          }
  }
  return bad;
}
// ---------------------------------------------------------------- reading a file's text
std::string unescape(const std::string& t) {
  std::string o;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] != '&') {
      o += t[i];
      continue;
    }
    size_t e = t.find(';', i);
    std::string n = t.substr(i + 1, e - i - 1);
    if (n == "amp") o += '&';
    else if (n == "lt") o += '<';
    else if (n == "gt") o += '>';
    else if (n == "quot") o += '"';
    else if (n == "apos") o += '\'';
    else if (n.size() > 1 && n[0] == '#') o += char(n[1] == 'x' ? strtol(n.c_str() + 2, nullptr, 16) : strtol(n.c_str() + 1, nullptr, 10));
    i = e;
  }
  return o;
}
std::string attrOf(const std::string& line, const char* name) {
  std::string n = std::string(" ") + name + "=\"";
  size_t p = line.find(n);
  if (p == std::string::npos) return "";
  p += n.size();
  return unescape(line.substr(p, line.find('"', p) - p));
}
std::vector<std::string> linesOf(const std::string& t) {
  std::vector<std::string> v;
  for (size_t b = 0; b < t.size();) {
    size_t e = t.find('\n', b);
    if (e == std::string::npos) e = t.size();
    v.push_back(t.substr(b, e - b));
    b = e + 1;
  }
  return v;
}
struct Parsed {
  std::map<std::string, std::string> tags;
  std::vector<Id> nd;
  std::map<std::string, std::vector<Id>> roles;
  bool deleted = false;
  char layer = 0;  // P L G T A R, 0: not an element of the map
};
Parsed parse(const OsmElem& e) {
  Parsed o;
  for (auto& l : linesOf(e.text)) {
    if (l.find("<nd ") != std::string::npos) o.nd.push_back(strtoll(attrOf(l, "ref").c_str(), nullptr, 10));
    else if (l.find("<tag ") != std::string::npos) o.tags[attrOf(l, "k")] = attrOf(l, "v");
    else if (l.find("<member ") != std::string::npos) o.roles[attrOf(l, "role")].push_back(strtoll(attrOf(l, "ref").c_str(), nullptr, 10));
    else if (attrOf(l, "action") == "delete") o.deleted = true;
  }
  if (e.kind == 'n') o.layer = 'P';
  if (e.kind == 'w') o.layer = o.tags.count("area") && (o.tags["area"] == "true" || o.tags["area"] == "yes" || o.tags["area"] == "1") ? 'G' : 'L';
  if (e.kind == 'r') {
    auto& t = o.tags["type"];
    o.layer = t == "lanelet" ? 'T' : t == "multipolygon" ? 'A' : t == "regulatory_element" ? 'R' : 0;
  }
  for (auto& r : o.roles) std::sort(r.second.begin(), r.second.end());
  return o;
}
std::set<Id> namedIn(const std::vector<std::string>& errs) {
  std::set<Id> o;
  for (auto& e : errs)
    for (size_t i = 0; i < e.size(); i++)
      if (isdigit(e[i]) && (i == 0 || !isdigit(e[i - 1]))) {
        Id v = strtoll(e.c_str() + i, nullptr, 10);
        if (i > 0 && e[i - 1] == '-') v = -v;
        o.insert(v);
      }
  return o;
}
std::string idList(std::vector<Id> v) {
  std::sort(v.begin(), v.end());
  std::string o;
  for (auto i : v) o += fmt(" %lld", (long long)i);
  return o;
}
std::string roleText(const Parsed& p) {
  std::string o;
  for (auto& r : p.roles) o += r.first + ":" + idList(r.second) + ";";
  return o;
}
// what a loaded element refers to, in the form of roleText
std::string rolesOf(const ConstLanelet& l) {
  Parsed p;
  p.roles["left"].push_back(l.leftBound().id());
  p.roles["right"].push_back(l.rightBound().id());
  if (l.hasCustomCenterline()) p.roles["centerline"].push_back(l.centerline().id());
  for (auto& r : l.regulatoryElements()) p.roles["regulatory_element"].push_back(r->id());
  return roleText(p);
}
std::string rolesOf(const ConstArea& a) {
  Parsed p;
  for (auto& l : a.outerBound()) p.roles["outer"].push_back(l.id());
  for (auto& in : a.innerBounds())
    for (auto& l : in) p.roles["inner"].push_back(l.id());
  for (auto& r : a.regulatoryElements()) p.roles["regulatory_element"].push_back(r->id());
  return roleText(p);
}
std::string rolesOf(const RegulatoryElement& r) {
  Parsed p;
  struct V : RuleParameterVisitor {
    Parsed* p;
    void put(Id i) { p->roles[role].push_back(i); }
    void operator()(const ConstPoint3d& q) override { put(q.id()); }
    void operator()(const ConstLineString3d& q) override { put(q.id()); }
    void operator()(const ConstPolygon3d& q) override { put(q.id()); }
    void operator()(const ConstWeakLanelet& q) override {
      auto l = q.tryLock();
      put(l ? l->id() : 0);
    }
    void operator()(const ConstWeakArea& q) override {
      auto l = q.tryLock();
      put(l ? l->id() : 0);
    }
  } v;
  v.p = &p;
  r.applyVisitor(v);
  return roleText(p);
}
std::string ptIds(const ConstLineString3d& l) {
  std::string f, b;
  for (auto& p : l) f += fmt(" %lld", (long long)p.id());
  return f;
}
std::string joined(const std::vector<Id>& v) {
  std::string o;
  for (auto i : v) o += fmt(" %lld", (long long)i);
  return o;
}
std::string tagText(const std::map<std::string, std::string>& t, const char* skip1, const char* skip2) {
  std::string o;
  for (auto& q : t)
    if (q.first != skip1 && q.first != skip2) o += q.first + "=" + q.second + "\n";
  return o;
}
std::string tagsOf(const AttributeMap& a, const char* skip1, const char* skip2) {
  std::map<std::string, std::string> m;
  for (auto& q : a) m[q.first] = q.second.value();
  return tagText(m, skip1, skip2);
}
// compares what the file says about an element with the loaded one; empty if they agree
std::string compare(const LaneletMap& m, Id id, const Parsed& f) {
  auto two = [](const char* what, const std::string& want, const std::string& got) { return want == got ? std::string() : std::string(what) + ": file has " + want + ", loaded " + got; };
  switch (f.layer) {
    case 'P': {
      auto it = m.pointLayer.find(id);
      if (it == m.pointLayer.end()) return "not in the map";
      return two("tags", tagText(f.tags, "ele", "ele"), tagsOf(it->attributes(), "ele", "ele"));
    }
    case 'L': {
      auto it = m.lineStringLayer.find(id);
      if (it == m.lineStringLayer.end()) return "not in the map";
      ConstLineString3d l = *it;
      if (l.inverted()) l = l.invert();
      return two("points", joined(f.nd), ptIds(l)) + two("tags", tagText(f.tags, "", ""), tagsOf(l.attributes(), "", ""));
    }
    case 'G': {
      auto it = m.polygonLayer.find(id);
      if (it == m.polygonLayer.end()) return "not in the map";
      std::string g;
      for (auto& p : ConstPolygon3d(*it)) g += fmt(" %lld", (long long)p.id());
      return two("points", joined(f.nd), g) + two("tags", tagText(f.tags, "", ""), tagsOf(it->attributes(), "", ""));
    }
    case 'T': {
      auto it = m.laneletLayer.find(id);
      if (it == m.laneletLayer.end()) return "not in the map";
      return two("members", roleText(f), rolesOf(ConstLanelet(*it))) + two("tags", tagText(f.tags, "", ""), tagsOf(it->attributes(), "", ""));
    }
    case 'A': {
      auto it = m.areaLayer.find(id);
      if (it == m.areaLayer.end()) return "not in the map";
      return two("members", roleText(f), rolesOf(ConstArea(*it))) + two("tags", tagText(f.tags, "", ""), tagsOf(it->attributes(), "", ""));
    }
    case 'R': {
      auto it = m.regulatoryElementLayer.find(id);
      if (it == m.regulatoryElementLayer.end()) return "not in the map";
      return two("members", roleText(f), rolesOf(**it)) + two("tags", tagText(f.tags, "", ""), tagsOf((*it)->attributes(), "", ""));
    }
    default: return "";
  }
}
std::string replaceRef(const std::string& text, const char* tag, u64 which, Id to) {  // retargets one reference
  auto ls = linesOf(text);
  std::vector<size_t> at;
  for (size_t i = 0; i < ls.size(); i++)
    if (ls[i].find(tag) != std::string::npos) at.push_back(i);
  if (at.empty()) return text;
  auto& l = ls[at[which % at.size()]];
  size_t p = l.find(" ref=\"") + 6;
  l = l.substr(0, p) + fmt("%lld", (long long)to) + l.substr(l.find('"', p));
  std::string o;
  for (auto& x : ls) o += x + "\n";
  return o;
}
std::string retype(const std::string& text, u64 which, u64 to) {  // one member claims to be of another kind
  auto ls = linesOf(text);
  std::vector<size_t> at;
  for (size_t i = 0; i < ls.size(); i++)
    if (ls[i].find("<member ") != std::string::npos) at.push_back(i);
  if (at.empty()) return text;
  auto& l = ls[at[which % at.size()]];
  size_t p = l.find(" type=\"") + 7, e = l.find('"', p);
  static const char* const kT[] = {"node", "way", "relation"};
  std::string was = l.substr(p, e - p), now = kT[to % 3];
  if (was == now) now = kT[(to + 1) % 3];
  l = l.substr(0, p) + now + l.substr(e);
  std::string o;
  for (auto& x : ls) o += x + "\n";
  return o;
}
std::string twice(const std::string& text, u64 which) {  // one member is there twice, the second one sometimes in the role of the first
  auto ls = linesOf(text);
  std::vector<size_t> at;
  for (size_t i = 0; i < ls.size(); i++)
    if (ls[i].find("<member ") != std::string::npos) at.push_back(i);
  if (at.empty()) return text;
  std::string l = ls[at[which % at.size()]];
  const std::string other = ls[at[(which / at.size()) % at.size()]];
  if ((which / 128) % 3 == 0) {  // or it plays the role of another one instead
    size_t p = l.find(" role=\"") + 7;
    ls[at[which % at.size()]] = l.substr(0, p) + attrOf(other, "role") + l.substr(l.find('"', p));
    std::string o;
    for (auto& x : ls) o += x + "\n";
    return o;
  }
  if (attrOf(l, "type") == attrOf(other, "type")) {
    size_t p = l.find(" ref=\"") + 6;
    l = l.substr(0, p) + attrOf(other, "ref") + l.substr(l.find('"', p));
  }
  ls.insert(ls.begin() + long(at[which % at.size()] + (which / 64) % 2), l);
  std::string o;
  for (auto& x : ls) o += x + "\n";
  return o;
}
std::string withoutTag(const std::string& text, u64 which) {  // one tag is lost (except the one that makes a polygon of a line string)
  auto ls = linesOf(text);
  std::vector<size_t> at;
  for (size_t i = 0; i < ls.size(); i++)
    if (ls[i].find("<tag ") != std::string::npos && attrOf(ls[i], "k") != "area") at.push_back(i);
  if (at.empty()) return text;
  ls.erase(ls.begin() + long(at[which % at.size()]));
  std::string o;
  for (auto& x : ls) o += x + "\n";
  return o;
}
char layerOf(const Spec& s, char kind, Id id) {
  if (kind == 'n') return 'P';
  if (kind == 'w') {
    for (auto& e : s.g)
      if (e.id == id) return 'G';
    return 'L';
  }
  for (auto& e : s.t)
    if (e.id == id) return 'T';
  for (auto& e : s.a)
    if (e.id == id) return 'A';
  return 'R';
}
std::string sortedLines(const std::vector<std::string>& v) {
  std::multiset<std::string> l(v.begin(), v.end());
  std::string o;
  for (auto& x : l) o += x + "\n";
  return o;
}
struct World {
  Spec s;
  Dump want;
  std::map<std::string, std::vector<std::string>> dep;
  std::string golden;
  std::unique_ptr<Projector> real, proj;
};
void loadTrial(Ctx& c, World& w, int trial) {
  OsmText t = splitOsm(w.golden);
  std::set<std::string> bad;   // directly damaged
  std::set<Id> gone, mustName;
  std::string what;
  bool ordered = true;  // the result may not depend on the order
  u64 permSeed = 1;
  int mode = 0;
  g_choice = Choice();
  std::set<size_t> touched;
  auto clsKind = [](i64 cls) { return "nwrr"[cls & 3]; };
  auto pick = [&](const Op& op) -> int {
    std::vector<int> v;
    for (size_t i = 0; i < t.e.size(); i++)
      if (t.e[i].kind == clsKind(op.arg(3)) && !touched.count(i)) v.push_back(int(i));
    return v.empty() ? -1 : v[size_t(op.arg(1)) % v.size()];
  };
  std::vector<OsmElem> extra;
  for (auto& op : c.plan.ops) {
    if (op.arg(0) != trial) continue;
    if (op.name == "perm") {
      permSeed = u64(op.arg(1)) + 1;
      mode = int(op.arg(2));
      continue;
    }
    if (op.name == "proj") {
      if (w.s.p.empty()) continue;
      auto& e = t.e;
      std::vector<size_t> ns;
      for (size_t i = 0; i < e.size(); i++)
        if (e[i].kind == 'n' && !touched.count(i)) ns.push_back(i);
      if (ns.empty()) continue;
      auto coordOf = [&](const OsmElem& x) {
        auto l = linesOf(x.text);
        double ele = 0;
        for (auto& q : l)
          if (q.find("<tag ") != std::string::npos && attrOf(q, "k") == "ele") ele = strtod(attrOf(q, "v").c_str(), nullptr);
        return FragileProjector::key(strtod(attrOf(l[0], "lat").c_str(), nullptr), strtod(attrOf(l[0], "lon").c_str(), nullptr), ele);
      };
      std::string k = coordOf(e[ns[size_t(op.arg(1)) % ns.size()]]);
      g_choice.coords.insert(k);
      for (size_t i = 0; i < e.size(); i++)
        if (e[i].kind == 'n' && !e[i].text.empty() && coordOf(e[i]) == k) {
          bad.insert(key('P', e[i].id));
          touched.insert(i);
          if (!gone.count(e[i].id)) mustName.insert(e[i].id);
        }
      what += "proj ";
      continue;
    }
    if (op.name == "reg") {
      std::vector<Id> v;
      for (auto& r : w.s.r)
        if (r.rule == "sim_fragile") v.push_back(r.id);
      if (v.empty()) continue;
      Id i = v[size_t(op.arg(1)) % v.size()];
      int at = t.find('r', i);
      if (at < 0 || touched.count(size_t(at))) continue;
      touched.insert(size_t(at));
      g_choice.regs.insert(i);
      g_choice.how = int(op.arg(2));
      bad.insert(key('R', i));
      mustName.insert(i);
      what += fmt("reg(%lld) ", (long long)i);
      continue;
    }
    int i = pick(op);
    if (i < 0) continue;
    OsmElem& e = t.e[size_t(i)];
    const std::string k = key(layerOf(w.s, e.kind, e.id), e.id);
    if (op.name == "nd" || op.name == "member") {
      const char* tag = e.kind == 'w' ? "<nd " : "<member ";
      if (e.kind == 'n') continue;
      std::string n = e.kind == 'r' && (op.arg(2) & 3) == 3 ? retype(e.text, u64(op.arg(2)) >> 2, u64(op.arg(1))) : replaceRef(e.text, tag, u64(op.arg(2)), 777000000 + op.arg(2));
      if (n == e.text) continue;
      e.text = n;
      mustName.insert(e.id);
    } else if (op.name == "twice" || op.name == "tag") {
      if (op.name == "twice" && e.kind != 'r') continue;
      std::string n = op.name == "tag" ? withoutTag(e.text, u64(op.arg(2))) : twice(e.text, u64(op.arg(2)));
      if (n == e.text) continue;
      e.text = n;
    } else if (op.name == "lose") {
      gone.insert(e.id);
      e.text.clear();
    } else if (op.name == "del") {
      gone.insert(e.id);
      size_t p = e.text.find(" id=");
      e.text = e.text.substr(0, p) + " action=\"delete\"" + e.text.substr(p);
    } else {
      OsmElem x = e;
      if (op.name == "dupdiff") {
        auto l = linesOf(x.text);
        if (x.kind == 'n') {  // elsewhere
          size_t p = x.text.find(" lat=\"") + 6;
          x.text = x.text.substr(0, p) + "48.9" + x.text.substr(x.text.find('"', p));
        } else {
          size_t dropped = 0;
          std::string o;
          for (size_t q = 0; q < l.size(); q++) {
            bool ref = l[q].find("<nd ") != std::string::npos || l[q].find("<member ") != std::string::npos;
            if (ref && dropped++ == 0) continue;
            o += l[q] + "\n";
          }
          if (!dropped) continue;
          x.text = o;
        }
        mustName.insert(e.id);
        ordered = false;
      }
      extra.push_back(x);
    }
    touched.insert(size_t(i));
    bad.insert(k);
    what += op.name + "(" + k + ") ";
    count(("fault.element_" + op.name).c_str());
  }
  if (bad.empty()) return;
  markNontrivial();
  Rng r(permSeed);
  for (auto& x : extra) t.e.insert(t.e.begin() + long(r.below(t.e.size() + 1)), x);
  t.e.erase(std::remove_if(t.e.begin(), t.e.end(), [](const OsmElem& e) { return e.text.empty(); }), t.e.end());
  auto load = [&](const OsmText& f, const char* name, int md) {
    std::string s = f.str();
    diskPut(name, s.data(), s.size());
    return doLoad(name, 0, *w.proj, md);
  };
  const std::string ctx = "damaged: " + what + "\n";
  LoadOut o = load(t, "/simdisk/damaged.osm", 1 | (mode & 2));
  if (!o.r.ok() || !o.map) fail("refused", ctx + "loading with an error list ended with " + o.text());
  const std::set<Id> named = namedIn(o.errs);
  const std::set<std::string> affected = affectedBy(w.dep, bad);
  Dump got = dumpMap(*o.map, kOsm);
  // 1. what does not depend on anything damaged is there, exactly
  for (auto& e : w.want)
    if (!affected.count(e.first)) {
      if (!got.count(e.first)) fail("leaked-lost", ctx + e.first + " does not depend on that but is missing\n" + o.text());
      if (got[e.first] != e.second) fail("leaked-changed", ctx + e.first + " does not depend on that but changed\n want " + e.second + "\n got  " + got[e.first] + "\n" + o.text());
      count("probe.unaffected_exact");
    }
  // 2. everything in the file is either loaded as the file says or named by an error
  std::map<std::string, int> copies;
  for (auto& e : t.e)
    if (!parse(e).deleted) copies[fmt("%c %lld", e.kind, (long long)e.id)]++;
  for (auto& e : t.e) {
    Parsed f = parse(e);
    if (f.deleted || named.count(e.id)) continue;
    std::string d = compare(*o.map, e.id, f);
    if (!d.empty()) fail("unreported", ctx + fmt("%c %lld is not named by any error but ", f.layer, (long long)e.id) + d + "\n" + o.text());
    count("probe.as_in_file");
  }
  for (auto i : mustName)
    if (!named.count(i)) fail("damage-unreported", ctx + fmt("%lld is damaged but not named by any error\n", (long long)i) + o.text());
  // 3. nothing else appeared
  for (auto& e : got)
    if (!w.want.count(e.first) && !named.count(strtoll(e.first.c_str() + 2, nullptr, 10))) fail("invented", ctx + e.first + " is not from the file: " + e.second + "\n" + o.text());
  std::string cl = closure(*o.map);
  if (!cl.empty()) count("probe.dummies_left");
  // 4. the order of the elements does not matter
  if (ordered) {
    OsmText q = t;
    for (size_t i = q.e.size(); i > 1; i--) std::swap(q.e[i - 1], q.e[r.below(i)]);
    LoadOut x = load(q, "/simdisk/shuffled.osm", 1);
    if (!x.r.ok()) fail("refused", ctx + "shuffled: " + x.text());
    expectEq("order-dependent", ctx + "shuffled file", got, dumpMap(*x.map, kOsm));
    if (sortedLines(o.errs) != sortedLines(x.errs)) fail("order-dependent-errors", ctx + sortedLines(o.errs) + "shuffled:\n" + sortedLines(x.errs));
    dropMap(x.map);
    count("fault.shuffled_elements");
  }
  // 5. without an error list the same errors end the load
  if (mode & 1) {
    LoadOut x = load(t, "/simdisk/damaged.osm", mode & 2);
    if (x.r.ok() != o.errs.empty()) fail("modes-disagree", ctx + "with an error list:\n" + o.text() + "\nwithout: " + x.text());
    if (!x.r.ok() && x.r.ex != Ex::Io) fail("strange-exception", ctx + x.text());
    dropMap(x.map);
  }
  dropMap(o.map);
}
void writeTrial(Ctx& c, World& w, int trial) {
  g_choice = Choice();
  std::set<std::string> out;  // left out of the layers (and not alive for lanelets and areas, sometimes)
  std::set<std::string> bad, dead;
  std::string what;
  int mode = 1;
  std::vector<std::string> all[4];
  for (auto& e : w.s.p) all[0].push_back(key('P', e.id));
  for (auto& e : w.s.l) all[1].push_back(key('L', e.id));
  for (auto& e : w.s.g) all[1].push_back(key('G', e.id));
  for (auto& e : w.s.t) all[2].push_back(key('T', e.id));
  for (auto& e : w.s.a) all[2].push_back(key('A', e.id));
  for (auto& e : w.s.r) all[3].push_back(key('R', e.id));
  std::set<Id> unconv;
  for (auto& op : c.plan.ops) {
    if (op.arg(0) != trial) continue;
    if (op.name == "mode") mode = int(op.arg(2));
    else if (op.name == "omit") {
      auto& v = all[op.arg(3) & 3];
      if (v.empty()) continue;
      auto& k = v[size_t(op.arg(1)) % v.size()];
      out.insert(k);
      bad.insert(k);
      if (op.arg(2) & 1) dead.insert(k);
      what += "omit(" + k + ") ";
      count("fault.omitted_element");
    } else if (op.name == "unconv" && !w.s.p.empty()) {
      auto& q = w.s.p[size_t(op.arg(1)) % w.s.p.size()];
      std::string k = FragileProjector::key(q.x, q.y, q.z);
      g_choice.coords.insert(k);
      for (auto& x : w.s.p)
        if (FragileProjector::key(x.x, x.y, x.z) == k) {
          bad.insert(key('P', x.id));
          unconv.insert(x.id);
        }
      what += fmt("unconvertible(P %lld) ", (long long)q.id);
      count("fault.reverse_projection");
    }
  }
  if (bad.empty()) return;
  markNontrivial();
  Built b = buildObjects(w.s, u64(c.plan.c("_order")));
  lib([&] {
    LaneletLayer::Map lm;
    AreaLayer::Map am;
    RegulatoryElementLayer::Map rm;
    PolygonLayer::Map gm;
    LineStringLayer::Map sm;
    PointLayer::Map pm;
    auto in = [&](char k, Id i) {
      Harness hm;
      return !out.count(key(k, i));
    };
    for (auto& e : b.p)
      if (in('P', e.id())) pm.emplace(e.id(), e);
    for (auto& e : b.l)
      if (in('L', e.id())) sm.emplace(e.id(), e);
    for (auto& e : b.g)
      if (in('G', e.id())) gm.emplace(e.id(), e);
    for (auto& e : b.t)
      if (in('T', e.id())) lm.emplace(e.id(), e);
    for (auto& e : b.a)
      if (in('A', e.id())) am.emplace(e.id(), e);
    for (auto& e : b.r)
      if (in('R', e->id())) rm.emplace(e->id(), e);
    b.map = std::make_shared<LaneletMap>(lm, am, rm, gm, sm, pm);
    for (size_t i = 0; i < b.t.size(); i++)
      if (dead.count(key('T', w.s.t[i].id))) b.t[i] = Lanelet();
    for (size_t i = 0; i < b.a.size(); i++)
      if (dead.count(key('A', w.s.a[i].id))) b.a[i] = Area();
    return 0;
  });
  const std::string ctx = "writing without: " + what + "\n";
  IoOut o = doWrite("/simdisk/part.osm", 0, *b.map, *w.proj, 1 | (mode & 2));
  if (!o.r.ok()) fail("refused", ctx + "writing with an error list ended with " + o.text());
  const std::set<Id> named = namedIn(o.errs);
  const std::set<std::string> affected = affectedBy(w.dep, bad);
  OsmText was = splitOsm(w.golden), is = splitOsm(diskContent("/simdisk/part.osm"));
  for (auto& e : was.e) {
    const std::string k = key(layerOf(w.s, e.kind, e.id), e.id);
    int at = is.find(e.kind, e.id);
    if (out.count(k)) {
      if (at >= 0) fail("invented", ctx + k + " is not in the map but in the file");
      continue;
    }
    const std::string now = at < 0 ? "" : is.e[size_t(at)].text;
    const bool same = sortedLines(linesOf(now)) == sortedLines(linesOf(e.text));
    if (!affected.count(k) && !same) fail("leaked-changed", ctx + k + " does not depend on that but is written as\n" + now + "instead of\n" + e.text + o.text());
    if (!same && !named.count(e.id)) fail("unreported", ctx + k + " is not named by any error but is written as\n" + now + "instead of\n" + e.text + o.text());
    count(same ? "probe.written_exact" : "probe.written_reported");
  }
  for (auto& e : is.e)
    if (was.find(e.kind, e.id) < 0) fail("invented", ctx + fmt("%c %lld is in the file", e.kind, (long long)e.id));
  for (auto i : unconv)
    if (!out.count(key('P', i)) && !named.count(i)) fail("damage-unreported", ctx + fmt("point %lld could not be converted but is not named\n", (long long)i) + o.text());
  if (mode & 1) {
    IoOut x = doWrite("/simdisk/part2.osm", 0, *b.map, *w.proj, mode & 2);
    if (x.reported() == o.errs.empty()) fail("modes-disagree", ctx + "with an error list:\n" + o.text() + "\nwithout: " + x.text());
  }
  // the written part is a readable file, and reading it says what is missing
  g_choice = Choice();
  LoadOut l = doLoad("/simdisk/part.osm", 0, *w.proj, 1);
  if (!l.r.ok()) fail("refused", ctx + "loading what was written ended with " + l.text());
  Dump got = dumpMap(*l.map, kOsm);
  for (auto& e : w.want)
    if (!affected.count(e.first) && got[e.first] != e.second) fail("leaked-changed", ctx + e.first + " does not depend on that but comes back as " + got[e.first] + " instead of " + e.second);
  dropMap(l.map);
  lib([&] {
    b = Built();
    return 0;
  });
}
void run(Ctx& c) {
  World w;
  w.s = genNet(c.plan);
  Rng fr(u64(c.plan.c("_fragile")) + 1);
  for (auto& r : w.s.r)
    if (r.rule == "regulatory_element" || fr.chance(1, 4)) {
      r.rule = "sim_fragile";
      r.a["subtype"] = "sim_fragile";
    }
  w.want = dumpSpec(w.s, kOsm);
  for (auto& e : w.want)  // dumps name the classes of the library
    if (e.second.compare(0, 12, "sim_fragile ") == 0) e.second = "other" + e.second.substr(11);
  w.dep = dependencies(w.s);
  w.real = makeProjector(int(c.plan.c("proj")));
  w.proj = lib([&]() -> std::unique_ptr<Projector> { return std::make_unique<FragileProjector>(*w.real); });
  g_choice = Choice();
  {
    Built b = build(w.s, int(c.plan.c("how")), u64(c.plan.c("_order")));
    IoOut o = doWrite("/simdisk/golden.osm", 0, *b.map, *w.proj, 1);
    if (!o.silentOk()) fail("refused", o.text());
    lib([&] {
      b = Built();
      return 0;
    });
  }
  w.golden = diskContent("/simdisk/golden.osm");
  auto intact = [&](const char* when) {
    g_choice = Choice();
    LoadOut o = doLoad("/simdisk/golden.osm", 0, *w.proj, 1);
    if (!o.silentOk()) fail("intact-refused", std::string(when) + ": " + o.text());
    expectEq("intact-differs", when, w.want, dumpMap(*o.map, kOsm));
    dropMap(o.map);
  };
  intact("undamaged file");
  for (int t = 0; t < std::max(1, int(c.plan.c("trials"))); t++) {
    bool wr = false;
    for (auto& op : c.plan.ops)
      if (op.arg(0) == t && (op.name == "mode" || op.name == "omit" || op.name == "unconv")) wr = true;
    LeakScope own;
    if (wr) writeTrial(c, w, t);
    else loadTrial(c, w, t);
    g_choice = Choice();
    own.check("after loading or writing with damage");
  }
  intact("undamaged file afterwards");
  lib([&] {
    w.proj.reset();
    w.real.reset();
    return 0;
  });
  sample(fmt("elements=%zu trials=%lld", w.s.total(), (long long)c.plan.c("trials")));
}
RegisterScenario reg("C04", gen, run);
}  // namespace
}  // namespace h
