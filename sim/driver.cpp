// Search driver: master process, pristine zygotes, minimiser, replay, evidence.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "plan.h"

namespace sim {
void runLife(Ctx& ctx);  // defined in harness (instrumented)
}
using namespace sim;

namespace {
double wall() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}
struct Zyg {
  pid_t pid = 0;
  int cmd[2], rsp[2];
  Shm* shm = nullptr;
  char* disk = nullptr;
  bool busy = false;
  u64 idx = 0;
  int kind = 0;  // what the master asked for
};

void resetShm(Shm* s) {
  s->status = 0;
  s->life = 0;
  s->livesPlanned = 1;
  s->crashed = 0;
  s->category[0] = s->message[0] = 0;
  s->hash = 0x1234;
  s->sig = 0;
  s->steps = s->switches = s->conflicts = s->accesses = s->allocs = s->simNs = 0;
  s->nontrivial = 0;
  s->nsw = 0;
  s->swOverflow = 0;
  s->nctr = 0;
  s->sample[0] = 0;
  memset(s->blobLen, 0, sizeof s->blobLen);
  memset(s->files, 0, sizeof s->files);
  s->diskUsed = 0;
}

[[noreturn]] void lifeChild(Shm* s) {
  alarm(u32(60));
  Ctx ctx;
  std::string err;
  if (!parsePlan(std::string(s->plan, s->planLen), ctx.plan, &err)) internalError("plan: %s", err.c_str());
  ctx.life = int(s->life);
  std::vector<Switch> sw;
  for (auto& x : ctx.plan.sw)
    if (x.pad == s->life) sw.push_back(x);
  enableTerminateReport();
  beginLife(mix(ctx.plan.arena, s->life));
  enterHarness();
  setSched(ctx.plan.sched, sw.empty() ? nullptr : sw.data(), u32(sw.size()));
  runLife(ctx);
  finish(1);
}
[[noreturn]] void genChild(Shm* s) {
  // shm->plan holds "prop seed"
  char prop[32];
  unsigned long long seed = 0;
  sscanf(s->plan, "%31s %llu", prop, &seed);
  const Scenario* sc = findScenario(prop);
  if (!sc) internalError("unknown property %s", prop);
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  sc->gen(p, r);
  std::string t = planText(p);
  if (t.size() >= sizeof s->plan) internalError("plan too long");
  memcpy(s->plan, t.data(), t.size());
  s->planLen = u32(t.size());
  s->plan[t.size()] = 0;
  s->status = 1;
  _exit(0);
}
void waitChild(Shm* s, pid_t pid, const char* what) {
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (s->status == 0 && *what == 'l' && !(WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM))) {
    // the code under test took the process down in a way the runtime could not intercept
    s->status = 2;
    snprintf(s->category, sizeof s->category, "process-died");
    snprintf(s->message, sizeof s->message, "the process ended by itself (wait status 0x%x)", unsigned(st));
  }
  if (s->status == 0) {
    s->status = 3;
    snprintf(s->category, sizeof s->category, "internal");
    snprintf(s->message, sizeof s->message, "%s process ended without a report (wait status 0x%x)", what, unsigned(st));
  }
}
[[noreturn]] void zygoteLoop(Zyg& z) {
  Shm* s = z.shm;
  int nul = open("/dev/null", O_RDWR);
  if (!getenv("SIM_STDERR")) {
    dup2(nul, 1);
    dup2(nul, 2);
  }
  char c;
  while (::read(z.cmd[0], &c, 1) == 1) {
    if (c == 'Q') break;
    if (c == 'X') {
      pid_t p = fork();
      if (p == 0) genChild(s);
      waitChild(s, p, "generator");
      if (s->status != 1) {
        (void)!::write(z.rsp[1], &c, 1);
        continue;
      }
      s->status = 0;
    }
    // run lives
    u32 lives = 1;
    if (char* l = strstr(s->plan, "\nlives ")) lives = u32(atoi(l + 7));
    s->livesPlanned = lives;
    for (u32 i = 0; i < lives; i++) {
      s->life = i;
      s->crashed = 0;
      s->status = 0;
      pid_t p = fork();
      if (p == 0) lifeChild(s);
      waitChild(s, p, "life");
      if (s->status != 1) break;
    }
    (void)!::write(z.rsp[1], &c, 1);
  }
  _exit(0);
}

std::vector<Zyg> g_z;
void startZygotes(int n) {
  g_z.resize(size_t(n));
  for (int i = 0; i < n; i++) {
    Zyg& z = g_z[size_t(i)];
    if (pipe(z.cmd) || pipe(z.rsp)) exit(5);
    z.shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    z.disk = static_cast<char*>(mmap(nullptr, kDiskBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    resetShm(z.shm);
  }
  for (int i = 0; i < n; i++) {
    Zyg& z = g_z[size_t(i)];
    z.pid = fork();
    if (z.pid == 0) {
      attachShm(z.shm, z.disk);
      signal(SIGPIPE, SIG_DFL);
      for (int k = 0; k < n; k++) {  // keep only own ends
        ::close(g_z[size_t(k)].cmd[1]);
        ::close(g_z[size_t(k)].rsp[0]);
      }
      zygoteLoop(z);
    }
  }
  for (auto& z : g_z) {
    ::close(z.cmd[0]);
    ::close(z.rsp[1]);
  }
}
void stopZygotes() {
  for (auto& z : g_z) ::close(z.cmd[1]);
  for (auto& z : g_z) {
    kill(z.pid, SIGKILL);
    waitpid(z.pid, nullptr, 0);
  }
}
void send(Zyg& z, char c) {
  z.busy = true;
  if (::write(z.cmd[1], &c, 1) != 1) {
    fprintf(stderr, "zygote gone\n");
    exit(5);
  }
}
void recv(Zyg& z) {
  char c;
  if (::read(z.rsp[0], &c, 1) != 1) {
    fprintf(stderr, "zygote died\n");
    exit(5);
  }
  z.busy = false;
}
int waitAny() {
  std::vector<struct pollfd> p;
  std::vector<int> id;
  for (size_t i = 0; i < g_z.size(); i++)
    if (g_z[i].busy) {
      p.push_back({g_z[i].rsp[0], POLLIN, 0});
      id.push_back(int(i));
    }
  if (p.empty()) return -1;
  while (true) {
    int r = int(syscall(SYS_poll, p.data(), p.size(), -1));
    if (r > 0) break;
  }
  for (size_t i = 0; i < p.size(); i++)
    if (p[i].revents) {
      recv(g_z[size_t(id[i])]);
      return id[i];
    }
  return -1;
}
struct Outcome {
  u32 status = 0;
  std::string cat, msg;
  u64 hash = 0, sig = 0;
  std::vector<Switch> sw;
  bool overflow = false;
};
Outcome take(Shm* s) {
  Outcome o;
  o.status = s->status;
  o.cat = s->category;
  o.msg = s->message;
  o.hash = s->hash;
  o.sig = s->sig;
  o.sw.assign(s->sw, s->sw + s->nsw);
  o.overflow = s->swOverflow;
  return o;
}
void startPlan(Zyg& z, const std::string& text) {
  resetShm(z.shm);
  memcpy(z.shm->plan, text.data(), text.size());
  z.shm->planLen = u32(text.size());
  z.shm->plan[text.size()] = 0;
  send(z, 'R');
}
Outcome runPlan(const std::string& text, int zi = 0) {
  Zyg& z = g_z[size_t(zi)];
  startPlan(z, text);
  recv(z);
  return take(z.shm);
}
Outcome runPlan(const Plan& p, int zi = 0) { return runPlan(planText(p), zi); }

std::string exePath() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  b[n > 0 ? n : 0] = 0;
  return b;
}
std::string symbolise(const std::string& msg) {
  std::string out = msg;
  size_t pos = 0;
  std::set<std::string> seen;
  while ((pos = msg.find("pc=0x", pos)) != std::string::npos) {
    std::string a = msg.substr(pos + 3);
    a = a.substr(0, a.find_first_not_of("0123456789abcdefx"));
    pos += 5;
    if (!seen.insert(a).second) continue;
    char cmd[4600];
    unsigned long long v = strtoull(a.c_str(), nullptr, 16);
    snprintf(cmd, sizeof cmd, "llvm-symbolizer-18 -e '%s' -C 0x%llx 2>/dev/null || addr2line -Cfie '%s' 0x%llx 2>/dev/null", exePath().c_str(), v - 1,
             exePath().c_str(), v - 1);
    if (FILE* f = popen(cmd, "r")) {
      char l[1024];
      out += "\n#   " + a + ":";
      int n = 0;
      while (fgets(l, sizeof l, f) && n++ < 12) {
        std::string s = l;
        while (!s.empty() && s.back() == '\n') s.pop_back();
        if (s.empty()) continue;
        if (s.size() > 160) s = s.substr(0, 160);
        out += (n % 2 ? "\n#     " : " @ ") + s;
      }
      pclose(f);
    }
  }
  return out;
}

// ------------------------------------------------------------------ minimiser
struct Minimiser {
  Plan best;
  std::string cat;
  int runs = 0, budget = 400;
  double deadline = 0;
  bool left() const { return runs < budget && wall() < deadline; }
  bool fails(const Plan& p, std::vector<Switch>* sw = nullptr) {
    runs++;
    Outcome o = runPlan(p);
    if (o.status == 2 && o.cat == cat) {
      if (sw) *sw = o.sw;
      return true;
    }
    return false;
  }
  template <typename T>
  void ddmin(std::vector<T> Plan::*field) {
    size_t n = (best.*field).size();
    if (n == 0) return;
    size_t chunk = n;
    while (chunk >= 1 && left()) {
      bool any = false;
      for (size_t i = 0; i < (best.*field).size() && left();) {
        Plan c = best;
        auto& v = c.*field;
        size_t e = std::min(v.size(), i + chunk);
        v.erase(v.begin() + long(i), v.begin() + long(e));
        if (fails(c)) {
          best = c;
          any = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1 && !any) break;
      if (chunk == 1) continue;
      chunk /= 2;
    }
  }
  void cfgs() {
    std::vector<std::string> keys;
    for (auto& k : best.cfg)
      if (k.first[0] != '_') keys.push_back(k.first);
    for (auto& k : keys) {
      for (int it = 0; it < 4 && left(); it++) {
        i64 v = best.cfg[k];
        if (v <= 0) break;
        bool ok = false;
        for (i64 nv : {i64(0), i64(1), v / 2, v - 1}) {
          if (nv >= v || nv < 0 || !left()) continue;
          Plan c = best;
          c.cfg[k] = nv;
          if (fails(c)) {
            best = c;
            ok = true;
            break;
          }
        }
        if (!ok) break;
      }
    }
  }
  // With free scheduling, removals change the interleaving; keep the strategy for these passes, then fix the schedule.
  void run() {
    Plan orig = best;
    ddmin(&Plan::faults);
    ddmin(&Plan::ops);
    cfgs();
    ddmin(&Plan::ops);
    if (best.arena) {
      Plan c = best;
      c.arena = 0;
      if (fails(c)) best = c;
    }
    if (best.lives > 1 && left()) {
      Plan c = best;
      c.lives--;
      if (fails(c)) best = c;
    }
    {
      Plan c = best;
      c.sched.strategy = kSeq;
      if (fails(c)) {
        best = c;
        return;
      }
    }
    std::vector<Switch> sw;
    if (!fails(best, &sw)) return;
    Plan c = best;
    c.sched.strategy = kReplay;
    c.sw = sw;
    if (sw.size() > 20000 || !fails(c)) return;  // keep the seeded strategy
    best = c;
    ddmin(&Plan::sw);
    ddmin(&Plan::ops);
    ddmin(&Plan::faults);
  }
};

struct Known {
  std::string prop, cat, msg, desc;
  u64 hits = 0;
};
std::vector<Known> loadKnown(const char* path) {
  std::vector<Known> v;
  FILE* f = path ? fopen(path, "r") : nullptr;
  if (!f) return v;
  char l[4096];
  while (fgets(l, sizeof l, f)) {
    // finding|property|category|message substring|description
    std::string s = l;
    while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    if (s.compare(0, 8, "finding|") != 0) continue;
    std::vector<std::string> p;
    size_t b = 0;
    while (true) {
      size_t e = s.find('|', b);
      p.push_back(s.substr(b, e == std::string::npos ? e : e - b));
      if (e == std::string::npos) break;
      b = e + 1;
    }
    if (p.size() >= 5) v.push_back(Known{p[1], p[2], p[3], p[4]});
  }
  fclose(f);
  return v;
}
std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else o += char(c);
  }
  return o;
}
u64 hashStr(const std::string& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
std::string slurp(const char* p) {
  std::string s;
  FILE* f = fopen(p, "r");
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
void spit(const std::string& p, const std::string& d) {
  FILE* f = fopen(p.c_str(), "w");
  if (!f) return;
  fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}
int freshReplay(const std::string& file) {
  std::string exe = exePath();
  pid_t p = fork();
  if (p == 0) {
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 1);
    dup2(nul, 2);
    execl(exe.c_str(), exe.c_str(), "replay", file.c_str(), static_cast<char*>(nullptr));
    _exit(9);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}
std::string stripComments(const std::string& t) {
  std::string o;
  size_t b = 0;
  while (b < t.size()) {
    size_t e = t.find('\n', b);
    if (e == std::string::npos) e = t.size();
    if (t[b] != '#') o += t.substr(b, e - b) + "\n";
    b = e + 1;
  }
  return o;
}
std::string commentValue(const std::string& t, const char* key) {
  std::string k = std::string("# ") + key + " ";
  size_t p = t.find(k);
  if (p == std::string::npos) return "";
  size_t e = t.find('\n', p);
  return t.substr(p + k.size(), e - p - k.size());
}
}  // namespace

static const char* opt(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; i++)
    if (strcmp(argv[i], name) == 0) return argv[i + 1];
  return def;
}

static int cmdReplay(const char* file) {
  std::string t = slurp(file);
  if (t.empty()) {
    fprintf(stderr, "cannot read %s\n", file);
    return 5;
  }
  std::string expCat = commentValue(t, "category"), expHash = commentValue(t, "hash");
  startZygotes(1);
  Outcome o = runPlan(stripComments(t));
  stopZygotes();
  Plan p;
  parsePlan(stripComments(t), p);
  printf("status=%u category=%s hash=%llx\n%s\n", o.status, o.cat.c_str(), (unsigned long long)o.hash,
         symbolise(o.msg).c_str());
  if (o.status == 2) {
    printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file);
    char h[32];
    snprintf(h, sizeof h, "%llx", (unsigned long long)o.hash);
    if (!expCat.empty() && expCat != o.cat) return 6;
    if (!expHash.empty() && expHash != h) return 6;
    return 1;
  }
  return o.status == 1 ? 0 : 5;
}

static int cmdOne(int argc, char** argv) {  // debugging: run one seed, print everything
  std::string prop = argv[2];
  u64 idx = strtoull(opt(argc, argv, "--idx", "0"), nullptr, 10);
  u64 seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
  startZygotes(1);
  Zyg& z = g_z[0];
  resetShm(z.shm);
  u64 rs = mix(mix(seed, hashStr(prop)), idx);
  z.shm->planLen = u32(snprintf(z.shm->plan, 100, "%s %llu", prop.c_str(), (unsigned long long)rs));
  double t0 = wall();
  send(z, 'X');
  recv(z);
  double t1 = wall();
  Outcome o = take(z.shm);
  printf("%s\n", std::string(z.shm->plan, z.shm->planLen).c_str());
  for (u32 i = 0; i < z.shm->nctr; i++) printf("  %s = %llu\n", z.shm->ctr[i].name, (unsigned long long)z.shm->ctr[i].v);
  printf("status=%u cat=%s hash=%llx sig=%llx steps=%llu switches=%llu conflicts=%llu allocs=%llu wall=%.1fms\nsample: %s\n%s\n",
         o.status, o.cat.c_str(), (unsigned long long)o.hash, (unsigned long long)o.sig, (unsigned long long)z.shm->steps,
         (unsigned long long)z.shm->switches, (unsigned long long)z.shm->conflicts, (unsigned long long)z.shm->allocs,
         (t1 - t0) * 1e3, z.shm->sample, symbolise(o.msg).c_str());
  for (int i = 0; i < kMaxFiles; i++)
    if (z.shm->files[i].used) printf("file %s %llu\n", z.shm->files[i].name, (unsigned long long)z.shm->files[i].size);
  stopZygotes();
  return 0;
}

static int cmdCheck(int argc, char** argv) {
  std::string prop = argv[2];
  u64 seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
  double budget = atof(opt(argc, argv, "--time", "25"));
  u64 maxRuns = strtoull(opt(argc, argv, "--runs", "100000000"), nullptr, 10);
  u64 minRuns = strtoull(opt(argc, argv, "--minruns", "200"), nullptr, 10);
  int nz = atoi(opt(argc, argv, "--workers", "8"));
  std::string tier = opt(argc, argv, "--tier", "quick");
  std::string evid = opt(argc, argv, "--evidence", "");
  std::string repdir = opt(argc, argv, "--replays", "/tmp");
  std::string trace = opt(argc, argv, "--trace", "");  // per-run hashes, for the determinism proof
  std::string components = opt(argc, argv, "--components", "");
  auto known = loadKnown(opt(argc, argv, "--known", nullptr));
  bool keepGoing = atoi(opt(argc, argv, "--keepgoing", "0"));
  (void)mkdir(repdir.c_str(), 0777);
  startZygotes(nz);
  double t0 = wall();
  u64 next = 0, done = 0, discarded = 0, rechecks = 0;
  std::map<std::string, u64> ctr;
  std::unordered_set<u64> distinct, inter, hist;
  u64 steps = 0, switches = 0, conflicts = 0, allocs = 0, simNs = 0;
  std::vector<std::string> samples;
  bool haveV = false, haveErr = false;
  u64 vIdx = 0;
  std::string vPlan, errMsg;
  Outcome vOut;
  std::map<std::string, u64> allV;
  std::map<u64, std::string> traceOut;
  std::map<u64, std::pair<std::string, u64>> recheckQ;  // idx -> (plan, hash)
  u64 knownHits = 0;
  const i64 only = atoll(opt(argc, argv, "--only", "-1"));  // debugging: always this run
  auto seedOf = [&](u64 i) { return mix(mix(seed, hashStr(prop)), only >= 0 ? u64(only) : i); };
  auto startNext = [&](Zyg& z) {
    if (!recheckQ.empty()) {
      auto it = recheckQ.begin();
      z.kind = 1;
      z.idx = it->first;
      startPlan(z, it->second.first);
      return true;
    }
    if ((haveV && !keepGoing) || haveErr || next >= maxRuns || (wall() - t0 > budget && next >= minRuns)) return false;
    z.kind = 0;
    z.idx = next++;
    resetShm(z.shm);
    z.shm->planLen = u32(snprintf(z.shm->plan, 100, "%s %llu", prop.c_str(), (unsigned long long)seedOf(z.idx)));
    send(z, 'X');
    return true;
  };
  std::map<u64, std::pair<std::string, u64>> inFlight;
  for (auto& z : g_z) startNext(z);
  while (true) {
    int i = waitAny();
    if (i < 0) break;
    Zyg& z = g_z[size_t(i)];
    Shm* s = z.shm;
    if (z.kind == 1) {
      auto it = recheckQ.find(z.idx);
      if (it != recheckQ.end()) {
        if (it->second.second != s->hash && !haveErr) {
          haveErr = true;
          errMsg = "determinism: run " + std::to_string(z.idx) + " gave another event hash when repeated";
        }
        rechecks++;
        recheckQ.erase(it);
      }
      startNext(z);
      continue;
    }
    done++;
    if (s->status == 4) discarded++;
    if (s->status == 3 && !haveErr) {
      haveErr = true;
      errMsg = "run " + std::to_string(z.idx) + ": " + s->message;
      spit(repdir + "/" + prop + "-error.plan", std::string(s->plan, s->planLen));
    }
    u64 ph = hashStr(std::string(s->plan, s->planLen));
    // the plan text contains the run's seed, so hash it without the seed line for distinctness
    {
      std::string t(s->plan, s->planLen);
      size_t a = t.find("\nseed "), b = a == std::string::npos ? a : t.find("\narena ", a);
      if (b != std::string::npos) t.erase(a, b - a);
      size_t c = t.find("\nsched "), d = c == std::string::npos ? c : t.find('\n', c + 1);
      if (d != std::string::npos) t.erase(c, d - c);
      ph = hashStr(t);
    }
    if (s->nontrivial || (s->switches > 2 && s->conflicts > 0)) {
      distinct.insert(mix(ph, mix(s->sig, s->switches)));
    }
    inter.insert(s->sig);
    hist.insert(s->hash);
    steps += s->steps;
    switches += s->switches;
    conflicts += s->conflicts;
    allocs += s->allocs;
    simNs += s->simNs;
    for (u32 k = 0; k < s->nctr; k++) ctr[s->ctr[k].name] += s->ctr[k].v;
    if (!trace.empty()) {
      char b[64];
      snprintf(b, sizeof b, "%u %llx", s->status, (unsigned long long)s->hash);
      traceOut[z.idx] = b;
    }
    if (s->status == 1 && samples.size() < 5 && (z.idx % 37 == 5 || z.idx < 2)) {
      std::string sm(s->plan, s->planLen);
      if (sm.size() > 1500) sm = sm.substr(0, 1500) + "...";
      if (s->sample[0]) sm += std::string(" => ") + s->sample;
      samples.push_back(sm);
    }
    if (s->status == 2) {
      bool kn = false;
      for (auto& k : known)
        if (k.prop == prop && k.cat == s->category && strstr(s->message, k.msg.c_str())) {
          k.hits++;
          knownHits++;
          kn = true;
          break;
        }
      if (!kn) {
        if (keepGoing) {
          std::string key = std::string(s->category) + ": " + std::string(s->message).substr(0, 200);
          std::string nk;
          for (char ch : key)
            if (!isdigit(static_cast<unsigned char>(ch))) nk += ch;
            else if (nk.empty() || nk.back() != '#') nk += '#';
          if (!allV[nk]++) printf("idx %llu: %s\n", (unsigned long long)z.idx, key.c_str());
        }
        if (!haveV || z.idx < vIdx) {
          haveV = true;
          vIdx = z.idx;
          vPlan.assign(s->plan, s->planLen);
          vOut = take(s);
        }
      }
    } else if (s->status == 1 && z.idx % 61 == 3) {
      recheckQ[z.idx] = {std::string(s->plan, s->planLen), s->hash};
    }
    startNext(z);
  }
  double tSearch = wall() - t0;
  if (!trace.empty()) {
    std::string o;
    for (auto& t : traceOut) o += std::to_string(t.first) + " " + t.second + "\n";
    spit(trace, o);
  }
  int rc = 0;
  std::string replayPath;
  if (keepGoing && haveV) {
    if (atoi(opt(argc, argv, "--keepgoing", "0")) > 1)
      for (auto& v : allV) printf("%8llu  %s\n", (unsigned long long)v.second, v.first.c_str());
  }
  if (haveErr) {
    fprintf(stderr, "ERROR: %s\n", errMsg.c_str());
    rc = 2;
  } else if (haveV) {
    // gate 1: same plan again
    Outcome again = runPlan(vPlan);
    if (again.status != 2 || again.cat != vOut.cat || again.hash != vOut.hash) {
      fprintf(stderr, "ERROR: violation did not repeat: idx %llu %s (%s) then status %u %s (%s) hash %llx vs %llx\n",
              (unsigned long long)vIdx, vOut.cat.c_str(), vOut.msg.c_str(), again.status, again.cat.c_str(),
              again.msg.c_str(), (unsigned long long)vOut.hash, (unsigned long long)again.hash);
      rc = 2;
    } else {
      Minimiser m;
      parsePlan(vPlan, m.best);
      m.cat = vOut.cat;
      m.deadline = wall() + atof(opt(argc, argv, "--mintime", "40"));
      m.run();
      Outcome fin = runPlan(m.best);
      if (fin.status != 2 || fin.cat != vOut.cat) {
        parsePlan(vPlan, m.best = Plan());
        fin = runPlan(m.best);
      }
      char name[128];
      snprintf(name, sizeof name, "/%s-%s-%llu-%llu.replay", prop.c_str(), tier.c_str(), (unsigned long long)seed,
               (unsigned long long)vIdx);
      replayPath = repdir + name;
      char hx[32];
      snprintf(hx, sizeof hx, "%llx", (unsigned long long)fin.hash);
      std::string txt = "# property " + prop + "\n# category " + fin.cat + "\n# hash " + hx + "\n# run index " +
                        std::to_string(vIdx) + " of VERIF_SEED " + std::to_string(seed) + "\n";
      std::string sm = symbolise(fin.msg);
      std::string line = "# ";
      for (char ch : sm) {
        line += ch;
        if (ch == '\n') {
          txt += line[0] == '#' ? line : "# " + line;
          line = "# ";
        }
      }
      txt += line + "\n";
      txt += "# minimised in " + std::to_string(m.runs) + " runs\n";
      txt += planText(m.best);
      spit(replayPath, txt);
      int fr = freshReplay(replayPath);
      if (fr != 1) {
        fprintf(stderr, "ERROR: fresh-process replay of %s gave %d\n", replayPath.c_str(), fr);
        rc = 2;
      } else {
        printf("%s: %s\n", fin.cat.c_str(), sm.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayPath.c_str());
        rc = 1;
      }
    }
  }
  stopZygotes();
  for (auto& k : known)
    if (k.prop == prop && k.hits)
      printf("KNOWN-FINDING: property=%s %s (hit in %llu runs)\n", prop.c_str(), k.desc.c_str(), (unsigned long long)k.hits);
  double tw = wall() - t0;
  if (!evid.empty()) {
    std::string j = "{\n";
    auto kv = [&](const char* k, const std::string& v, bool q) {
      j += std::string("  \"") + k + "\": " + (q ? "\"" + jsonEsc(v) + "\"" : v) + ",\n";
    };
    kv("property", prop, true);
    kv("tier", tier, true);
    kv("seed", std::to_string(seed), false);
    kv("level", "exploration", true);
    std::string c = "{\n";
    auto ckv = [&](const char* k, const std::string& v) { c += std::string("    \"") + k + "\": " + v + ",\n"; };
    ckv("evaluations", std::to_string(done));
    ckv("distinct_nontrivial", std::to_string(distinct.size()));
    ckv("rule",
        "\"one evaluation = one simulated execution of a generated plan (client operations, fault sequence, schedule). "
        "Non-trivial: at least one injected fault fired or a generated history was judged by the oracle, or at least three context switches happened in "
        "a run in which different clients touched the same memory. Distinct: by plan without its seed, plus the "
        "interleaving signature (order of all conflicting accesses, lock and atomic operations).\"");
    std::string sj = "[";
    for (size_t i = 0; i < samples.size(); i++) sj += (i ? ",\n      " : "") + ("\"" + jsonEsc(samples[i]) + "\"");
    sj += "]";
    ckv("samples", sj);
    ckv("runs_per_hour", std::to_string(u64(double(done) / std::max(0.001, tSearch) * 3600)));
    ckv("seeds_note", "\"each run has its own seed, so seeds per hour equal runs per hour\"");
    ckv("simulated_seconds", std::to_string(double(simNs) * 1e-9));
    ckv("simulated_steps", std::to_string(steps));
    ckv("context_switches", std::to_string(switches));
    ckv("conflicting_accesses", std::to_string(conflicts));
    ckv("library_allocations", std::to_string(allocs));
    ckv("distinct_interleavings", std::to_string(inter.size()));
    ckv("distinct_event_histories", std::to_string(hist.size()));
    ckv("determinism_rechecks", std::to_string(rechecks));
    ckv("discarded_runs", std::to_string(discarded));
    ckv("known_finding_hits", std::to_string(knownHits));
    std::string fj = "{", pj = "{";
    for (auto& k : ctr) {
      std::string& d = k.first.compare(0, 6, "fault.") == 0 ? fj : pj;
      d += (d.size() > 1 ? ", " : "") + ("\"" + jsonEsc(k.first) + "\": " + std::to_string(k.second));
    }
    ckv("faults_fired", fj + "}");
    ckv("probes", pj + "}");
    if (!components.empty()) c += slurp(components.c_str());
    while (!c.empty() && (c.back() == '\n' || c.back() == ',' || c.back() == ' ')) c.pop_back();
    c += "\n  }";
    kv("coverage", c, false);
    kv("violations", std::to_string(rc == 1 ? 1 : 0), false);
    char b[64];
    snprintf(b, sizeof b, "%.2f", tw);
    j += std::string("  \"wall_s\": ") + b + "\n}\n";
    spit(evid, j);
  }
  fprintf(stdout, "%s %s: %llu runs, %zu distinct non-trivial, %zu interleavings, %llu rechecks, %.1f s search, rc=%d\n", prop.c_str(),
          tier.c_str(), (unsigned long long)done, distinct.size(), inter.size(), (unsigned long long)rechecks, tSearch, rc);
  return rc;
}

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality(unsigned(per) | ADDR_NO_RANDOMIZE) >= 0)
      execv("/proc/self/exe", argv);
  }
  init();
  signal(SIGPIPE, SIG_IGN);
  if (argc >= 3 && strcmp(argv[1], "replay") == 0) return cmdReplay(argv[2]);
  if (argc >= 3 && strcmp(argv[1], "one") == 0) return cmdOne(argc, argv);
  if (argc >= 3 && strcmp(argv[1], "check") == 0) return cmdCheck(argc, argv);
  fprintf(stderr, "usage: sim check PROP [--seed N --time S ...] | sim replay FILE | sim one PROP --idx N\n");
  return 5;
}
