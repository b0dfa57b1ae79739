#include "plan.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

namespace sim {
namespace {
Scenario g_sc[32];
int g_nsc = 0;
}
void registerScenario(const Scenario& s) { g_sc[g_nsc++] = s; }
const Scenario* findScenario(const std::string& prop) {
  for (int i = 0; i < g_nsc; i++)
    if (prop == g_sc[i].prop) return &g_sc[i];
  return nullptr;
}
std::string planText(const Plan& p) {
  std::ostringstream o;
  o << "prop " << p.prop << "\nseed " << p.seed << "\narena " << p.arena << "\nlives " << p.lives << "\n";
  o << "sched " << p.sched.strategy << " " << p.sched.seed << " " << p.sched.gap << " " << p.sched.length << " "
    << p.sched.maxSteps << "\n";
  for (auto& c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
  for (auto& op : p.ops) {
    o << "op " << op.client << " " << op.name;
    for (auto v : op.a) o << " " << v;
    o << "\n";
  }
  for (auto& f : p.faults) {
    o << "fault " << f.life << " " << f.name;
    for (auto v : f.a) o << " " << v;
    o << "\n";
  }
  for (auto& s : p.sw)
    o << "sw " << s.pad << " " << s.tid << " " << s.step << " " << s.next << " " << s.forced << "\n";
  return o.str();
}
bool parsePlan(const std::string& text, Plan& p, std::string* err) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "prop") l >> p.prop;
    else if (k == "seed") l >> p.seed;
    else if (k == "arena") l >> p.arena;
    else if (k == "lives") l >> p.lives;
    else if (k == "sched") l >> p.sched.strategy >> p.sched.seed >> p.sched.gap >> p.sched.length >> p.sched.maxSteps;
    else if (k == "cfg") {
      std::string n;
      i64 v = 0;
      l >> n >> v;
      p.cfg[n] = v;
    } else if (k == "op") {
      Op o;
      l >> o.client >> o.name;
      i64 v;
      while (l >> v) o.a.push_back(v);
      p.ops.push_back(std::move(o));
    } else if (k == "fault") {
      Fault f;
      l >> f.life >> f.name;
      i64 v;
      while (l >> v) f.a.push_back(v);
      p.faults.push_back(std::move(f));
    } else if (k == "sw") {
      Switch s;
      memset(&s, 0, sizeof s);
      l >> s.pad >> s.tid >> s.step >> s.next >> s.forced;
      p.sw.push_back(s);
    } else {
      if (err) *err = "bad line: " + line;
      return false;
    }
  }
  return true;
}
}  // namespace sim
