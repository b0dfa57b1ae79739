// A plan is the complete, textual description of one simulated execution: what clients do, which faults strike,
// and how the scheduler decides. Executing a plan is a pure function of its text and the code under test.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "rt.h"

namespace sim {
struct Op {
  int client = 0;
  std::string name;
  std::vector<i64> a;
  i64 arg(size_t i, i64 def = 0) const { return i < a.size() ? a[i] : def; }
};
struct Fault {
  int life = 0;
  std::string name;  // io: op nth kind arg byByte client; alloc: client op nth len; others are scenario specific
  std::vector<i64> a;
  i64 arg(size_t i, i64 def = 0) const { return i < a.size() ? a[i] : def; }
};
struct Plan {
  std::string prop;
  u64 seed = 1;
  u64 arena = 0;
  int lives = 1;
  std::map<std::string, i64> cfg;
  std::vector<Op> ops;
  std::vector<Fault> faults;
  SchedCfg sched;
  std::vector<Switch> sw;  // recorded schedule (strategy replay)
  i64 c(const std::string& k, i64 def = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? def : it->second;
  }
  void op(int client, const std::string& n, std::vector<i64> a = {}) { ops.push_back(Op{client, n, std::move(a)}); }
  void fault(int life, const std::string& n, std::vector<i64> a) { faults.push_back(Fault{life, n, std::move(a)}); }
  void io(int life, int opk, u64 nth, int kind, i64 arg = 0, int byByte = 0, int client = -1) {
    fault(life, "io", {opk, i64(nth), kind, arg, byByte, client});
  }
};
std::string planText(const Plan& p);
bool parsePlan(const std::string& text, Plan& p, std::string* err = nullptr);

struct Ctx;
struct Scenario {
  const char* prop;
  void (*gen)(Plan&, Rng&);
  void (*run)(Ctx&);
};
void registerScenario(const Scenario& s);
const Scenario* findScenario(const std::string& prop);
struct RegisterScenario {
  RegisterScenario(const char* p, void (*g)(Plan&, Rng&), void (*r)(Ctx&)) { registerScenario(Scenario{p, g, r}); }
};
struct Ctx {
  Plan plan;
  int life = 0;
};
}  // namespace sim
