// C10: threads loading and writing at the same time, some meeting I/O faults or damaged files, others querying the maps
// being written; every outcome judged against the model and against the same call made alone afterwards.
#include "io_util.h"
#include "map_util.h"

using namespace lanelet;
namespace h {
namespace {
// life 0 writes the source files; the clients work in life 1, where everything is used for the first time.
// ops: load src fmt mode damage dseed fop fkind fpos farg | write src fmt mode fop fkind fpos farg | q src kind layer seed
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, r.chance(1, 3) ? 1 : 0);
  genNetCfg(p, r, 0, "b.");
  p.cfg["proj"] = i64(r.below(3));
  p.cfg["shareproj"] = i64(r.below(2));
  p.cfg["how"] = i64(r.below(3));
  p.cfg["_order"] = i64(r.below(1000));
  p.lives = 2;
  int n = int(r.range(2, 4));
  p.cfg["clients"] = n;
  schedFrom(p, r, r.chance(1, 2) ? 20000 : 300000);
  auto ioFault = [&](bool wr, std::vector<i64>& a) {
    if (!r.chance(1, 3)) {
      a.insert(a.end(), {0, 0, 0, 0});
      return;
    }
    static const int kRd[] = {kErrEIO, kEof, kShort, kEINTR}, kWr[] = {kErrEIO, kErrENOSPC, kShort, kEINTR}, kOp[] = {kErrEACCES, kErrEMFILE, kErrENOENT, kErrEIO};
    int op = r.chance(1, 5) ? kIoOpen : wr ? (r.chance(1, 5) ? kIoClose : kIoWrite) : kIoRead;
    int kind = op == kIoOpen ? kOp[r.below(4)] : op == kIoClose ? int(kErrEIO) : wr ? kWr[r.below(4)] : kRd[r.below(4)];
    a.insert(a.end(), {op, kind, r.chance(1, 4) ? i64(r.range(980, 1000)) : i64(r.below(1001)), i64(r.below(3000))});
  };
  bool only = r.chance(1, 3);
  int onlyFmt = int(r.below(2));
  for (int c = 0; c < n; c++)
    for (int k = int(r.range(1, 3)); k > 0; k--) {
      int fmt = only ? onlyFmt : int(r.below(2));
      if (r.chance(1, 2)) {
        std::vector<i64> a{i64(r.below(2)), fmt, i64(r.below(4)), r.chance(1, 2) ? 0 : i64(r.range(1, 3)), i64(r.below(100000))};
        ioFault(false, a);
        p.op(c, "load", a);
      } else if (r.chance(2, 3)) {
        std::vector<i64> a{i64(r.below(2)), fmt, i64(r.below(4)) + (r.chance(1, 3) ? 4 : 0) + (r.chance(1, 4) ? 8 : 0)};
        ioFault(true, a);
        p.op(c, "write", a);
      } else {
        p.op(c, "q", {i64(r.below(2)), i64(r.below(kNumMapQueries)), i64(r.below(6)), i64(r.below(1000000))});
      }
    }
}
std::string damage(const std::string& g, int fmt, int kind, u64 seed) {
  Rng r(seed);
  if (kind == 1 || fmt == 1) return g.substr(0, r.below(g.size()));
  OsmText t = splitOsm(g);
  if (t.e.empty()) return g;
  size_t i = r.below(t.e.size());
  if (kind == 2) {
    t.e.erase(t.e.begin() + long(i));
  } else {
    const char* needle[] = {"<nd ", "<member ", "<tag "};
    t.e[i].text = eraseLine(t.e[i].text, needle[r.below(3)]);
  }
  return t.str();
}
struct Got {
  const Op* op = nullptr;
  std::string file;
  std::string text;     // result, comparable
  std::string content;  // written file
  LaneletMapPtr map;    // loaded map
  MapAnswer ans;
  bool silent = false, reported = false;
  u64 hard = 0;
};
void run(Ctx& c) {
  Spec s[2] = {genNet(c.plan), genNet(c.plan, "b.")};
  shiftIds(s[1], 2000000000000ll);
  const int projKind = int(c.plan.c("proj"));
  Built b[2];
  for (int k = 0; k < 2; k++) b[k] = build(s[k], int(c.plan.c("how")), u64(c.plan.c("_order")));
  auto src = [&](i64 k, int f) { return fmt("/simdisk/src%lld%s", (long long)(k & 1), extOf(f).c_str()); };
  if (c.life == 0) {
    auto proj = makeProjector(projKind);
    for (int k = 0; k < 2; k++)
      for (int f = 0; f < 2; f++) {
        IoOut o = doWrite(src(k, f), f, *b[k].map, *proj, 0);
        if (!o.silentOk()) fail("refused", o.text());
      }
    return;
  }
  const int n = std::max(1, int(c.plan.c("clients", 1)));
  std::vector<std::unique_ptr<Projector>> proj;
  for (int i = 0; i <= n; i++) proj.push_back(makeProjector(projKind));
  std::vector<std::vector<Got>> got(static_cast<size_t>(n));
  for (int me = 0; me < n; me++) {  // the files, prepared without the library
    for (auto& op : c.plan.ops)
      if (op.client % n == me) {
        Got g;
        g.op = &op;
        int f = int(op.arg(1)) & 1;
        g.file = op.name == "write" ? fmt("/simdisk/w%d_%zu%s", me, got[size_t(me)].size(), extOf(f).c_str()) : src(op.arg(0), f);
        if (op.name == "load" && op.arg(3)) {
          g.file = fmt("/simdisk/d%d_%zu%s", me, got[size_t(me)].size(), extOf(f).c_str());
          std::string t = damage(diskContent(src(op.arg(0), f)), f, int(op.arg(3)), u64(op.arg(4)));
          diskPut(g.file.c_str(), t.data(), t.size());
          count("fault.damaged_file");
        }
        got[size_t(me)].push_back(g);
      }
  }
  auto call = [&](Got& g, const Projector& pr) {
    const Op& op = *g.op;
    int f = int(op.arg(1)) & 1;
    size_t at = op.name == "load" ? 5 : 3;
    if (op.name == "q") {
      MapQuery q{int(op.arg(1) % kNumMapQueries), int(op.arg(2) % 6), 0, u64(op.arg(3))};
      int k = int(op.arg(0)) & 1;
      g.ans = askMap(*b[k].map, b[k], s[k], q);
      return;
    }
    if (op.arg(at + 1)) {
      IoFault x{int(op.arg(at)), 0, int(op.arg(at + 1)), u64(op.arg(at + 3)), 0, -1};
      if (x.op == kIoRead || x.op == kIoWrite) {
        u64 size = diskContent(op.name == "load" ? g.file : src(op.arg(0), f)).size();
        if (x.kind == kShort || x.kind == kEINTR) {
          x.nth = u64(op.arg(at + 2)) % 4;
        } else {
          x.nth = size * u64(op.arg(at + 2)) / 1001;
          x.byByte = 1;
        }
      }
      armThreadIo(x);
    }
    if (op.name == "load") {
      LoadOut o = doLoad(g.file, f, pr, int(op.arg(2)));
      g.hard = disarmThreadIo();
      g.map = o.map;
      g.silent = o.silentOk();
      g.reported = o.reported();
      g.text = o.r.text();
      for (auto& e : o.errs) g.text += "\n  " + e;
    } else {
      IoOut o = doWrite(g.file, f, *b[op.arg(0) & 1].map, pr, int(op.arg(2)));
      g.hard = disarmThreadIo();
      g.silent = o.silentOk();
      g.reported = o.reported();
      g.text = o.r.text();
      for (auto& e : o.errs) g.text += "\n  " + e;
      g.content = diskFind(g.file.c_str()) >= 0 ? diskContent(g.file) : "(none)";
      if (f == 1) g.content.resize(std::min(g.content.size(), diskContent(src(op.arg(0), f)).size() - 8));  // the id counter at the end moves on
    }
  };
  runClients(n, [&](int me) {
    for (auto& g : got[size_t(me)]) call(g, *proj[c.plan.c("shareproj") ? size_t(n) : size_t(me)]);
  });
  clearIoFaults();
  int loads = 0, writes = 0, faulty = 0;
  for (int me = 0; me < n; me++)
    for (auto& g : got[size_t(me)]) {
      const Op& op = *g.op;
      const int k = int(op.arg(0)) & 1, f = int(op.arg(1)) & 1;
      std::string what = fmt("client %d, %s %s (mode %lld): ", me, op.name.c_str(), g.file.c_str(), (long long)op.arg(2));
      if (op.name == "q") {
        MapQuery q{int(op.arg(1) % kNumMapQueries), int(op.arg(2) % 6), 0, u64(op.arg(3))};
        std::string e = judgeMap(MapModel::all(s[k]), q, g.ans);
        if (!e.empty()) fail("wrong-answer", fmt("client %d asked ", me) + describeMap(q) + ": " + e);
        continue;
      }
      Got alone;
      alone.op = g.op;
      alone.file = g.file;
      call(alone, *proj[size_t(n)]);
      faulty += g.hard > 0;
      if (g.hard != alone.hard) fail("different-io", what + fmt("%llu failing system calls, alone %llu", (unsigned long long)g.hard, (unsigned long long)alone.hard));
      if (g.text != alone.text) fail("different-outcome", what + "\n  alone " + alone.text + "\n  got   " + g.text);
      if (op.name == "load") {
        loads++;
        const int opt = f == 0 ? kOsm : kExact;
        if (bool(g.map) != bool(alone.map)) fail("different-outcome", what + "a map is given only alone or only together");
        if (g.map) {
          expectEq("different-map", what + "map loaded alone and together", dumpMap(*alone.map, kExact), dumpMap(*g.map, kExact));
          std::string cl = op.arg(3) ? "" : closure(*g.map);  // (what a damaged file gives is another matter)
          if (!cl.empty()) fail("dangling-reference", what + cl);
        }
        if (g.hard == 0 && !op.arg(3)) {
          if (!g.silent) fail("refused", what + g.text);
          expectEq("wrong-map", what + "map loaded from an intact file", dumpSpec(s[k], opt), dumpMap(*g.map, opt));
          count("probe.load_checked");
        }
        dropMap(g.map);
        dropMap(alone.map);
      } else {
        writes++;
        if (g.content != alone.content) {
          size_t at = 0;
          while (at < g.content.size() && at < alone.content.size() && g.content[at] == alone.content[at]) at++;
          fail("different-file", what + fmt("content differs from byte %zu on (%zu and %zu bytes)", at, g.content.size(), alone.content.size()));
        }
        if (g.hard == 0 && !g.silent) fail("refused", what + g.text);
        if (g.hard == 0) {
          LoadOut o = doLoad(g.file, f, *proj[size_t(n)], 0);
          if (!o.silentOk()) fail("file-unreadable", what + o.text());
          if (f == 0 && (op.arg(2) & 4)) {
            std::string e = unroundElevations(*o.map, s[k]);
            if (!e.empty()) fail("wrong-file", what + e);
            count("probe.rounded_elevations");
          }
          if (f == 0 && (g.content.find("upload=\"true\"") != std::string::npos) != bool(op.arg(2) & 8)) fail("wrong-file", what + "upload mark");
          expectEq("wrong-file", what + "file read again", dumpSpec(s[k], f == 0 ? kOsm : kExact), dumpMap(*o.map, f == 0 ? kOsm : kExact));
          dropMap(o.map);
          count("probe.write_checked");
        }
      }
    }
  for (int k = 0; k < 2; k++) expectEq("memory-changed", fmt("map %d", k), dumpSpec(s[k], kExact), dumpMap(*b[k].map, kExact));
  if (loads + writes > 1) markNontrivial();
  sample(fmt("clients=%d loads=%d writes=%d of %zu and %zu elements, %d calls hit by faults", n, loads, writes, s[0].total(), s[1].total(), faulty));
}
RegisterScenario reg("C10", gen, run);
}  // namespace
}  // namespace h
