// C03: prefixes of written files (truncation, torn writes by a crash) and failing or short reads never pass for a complete map.
#include "io_util.h"

using namespace lanelet;
namespace h {
namespace {
// ops: cut fmt mode permille|tailbytes | read fmt mode opk kind permille arg | torn fmt mode (file left behind by the crash of life 0)
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  p.cfg["proj"] = i64(r.below(3));
  p.cfg["how"] = i64(r.below(3));
  p.cfg["_order"] = i64(r.below(1000));
  bool torn = r.chance(1, 4);
  p.lives = torn ? 2 : 1;
  int fm = int(r.below(2));
  if (torn) {
    p.cfg["torn"] = 1;
    p.cfg["tornf"] = fm;
    switch (r.below(4)) {
      case 0: p.io(0, kIoWrite, r.below(8), kCrash, i64(r.below(9000))); break;
      case 1: p.io(0, kIoClose, 1, kCrash); break;
      default: p.fault(0, "crashpermille", {i64(r.below(1001))}); break;
    }
  }
  int n = int(r.range(1, 10));
  for (int i = 0; i < n; i++) {
    int f = int(r.below(2));
    int mode = int(r.below(4));
    if (r.chance(2, 5)) {
      p.op(0, "cut", {f, mode, i64(r.below(1001)), r.chance(1, 3) ? i64(1 + r.below(200)) : 0});
    } else {
      static const int kReadKinds[] = {kErrEIO, kEof, kErrEIO, kEof, kEINTR, kShort};
      static const int kOpenKinds[] = {kErrEACCES, kErrEMFILE, kErrENOENT, kErrEIO};
      static const int kStatKinds[] = {kErrEIO, kErrEACCES, kErrENOENT, kErrEIO};
      int opk = r.chance(1, 8) ? kIoOpen : r.chance(1, 8) ? kIoStat : r.chance(1, 12) ? kIoSeek : r.chance(1, 20) ? kIoClose : kIoRead;
      int kind = opk == kIoOpen ? kOpenKinds[r.below(4)] : opk == kIoStat ? kStatKinds[r.below(4)] : opk == kIoRead ? kReadKinds[r.below(6)] : int(kErrEIO);
      p.op(0, "read", {f, mode, opk, kind, i64(r.below(1001)), i64(r.chance(1, 2) ? 0 : 1 + r.below(4000)), i64(r.below(3))});
    }
  }
}
void judge(LoadOut& o, const Dump& want, int f, const std::string& ctx) {
  if (o.r.ex == Ex::Io) {
    count("probe.io_error");
    if (o.map) fail("map-with-error", ctx + "a map was handed out in spite of " + o.text());
    return;
  }
  if (!o.r.ok()) fail("foreign-exception", ctx + o.text());
  if (!o.errs.empty()) {
    count("probe.error_list");
    dropMap(o.map);
    return;
  }
  if (!o.map) fail("no-map", ctx + "neither a map nor an error");
  std::string d = diff(want, dumpMap(*o.map, f == 0 ? kOsm : kExact));
  if (!d.empty()) fail("silently-incomplete", ctx + "loaded without any report, but\n" + d);
  count("probe.complete");
  dropMap(o.map);
}
void run(Ctx& c) {
  auto proj = makeProjector(int(c.plan.c("proj")));
  Spec s = genNet(c.plan);
  const Dump want[2] = {dumpSpec(s, kOsm), dumpSpec(s, kExact)};
  std::string golden[2];
  clearIoFaults();
  if (c.life == 0) {
    Built b = build(s, int(c.plan.c("how")), u64(c.plan.c("_order")));
    for (int f = 0; f < 2; f++) {
      IoOut o = doWrite("/simdisk/golden" + extOf(f), f, *b.map, *proj, 0);
      if (!o.silentOk()) fail("refused", o.text());
    }
    if (c.plan.c("torn")) {
      int f = int(c.plan.c("tornf")) & 1;
      std::string g = diskContent("/simdisk/golden" + extOf(f));
      armIo(c, 0);
      if (auto* x = findFault(c, "crashpermille", 0)) {
        IoFault q{kIoWrite, std::min<u64>(g.size() - 1, g.size() * u64(x->arg(0)) / 1000), kCrash, 0, 1, -1};
        setIoFaults(&q, 1);
      }
      doWrite("/simdisk/torn" + extOf(f), f, *b.map, *proj, 0);  // usually dies here
      clearIoFaults();
      return;
    }
  }
  for (int f = 0; f < 2; f++) golden[f] = diskContent("/simdisk/golden" + extOf(f));
  if (c.life == 1) {
    int f = int(c.plan.c("tornf")) & 1;
    std::string name = "/simdisk/torn" + extOf(f);
    if (diskFind(name.c_str()) >= 0) {
      u64 size = diskContent(name).size();
      LoadOut o = doLoad(name, f, *proj, 1);
      judge(o, want[f], f, fmt("file torn by a crash after %llu of %zu bytes: ", (unsigned long long)size, golden[f].size()));
      markNontrivial();
      count("probe.torn");
    }
  }
  for (auto& op : c.plan.ops) {
    int f = int(op.arg(0)) & 1;
    int mode = int(op.arg(1));
    clearIoFaults();
    const std::string& g = golden[f];
    if (op.name == "cut") {
      u64 len = op.arg(3) ? g.size() - std::min<u64>(g.size(), u64(op.arg(3))) : std::min<u64>(g.size() - 1, g.size() * u64(op.arg(2)) / 1000);
      std::string name = "/simdisk/cut" + extOf(f);
      diskPut(name.c_str(), g.data(), len);
      LoadOut o = doLoad(name, f, *proj, mode);
      count("fault.truncated_file");
      markNontrivial();
      judge(o, want[f], f, fmt("%s cut to %llu of %zu bytes: ", extOf(f).c_str(), (unsigned long long)len, g.size()));
    } else {
      IoFault q[2];
      int n = 0;
      q[n] = IoFault{int(op.arg(2)), 0, int(op.arg(3)), u64(op.arg(5)), 0, -1};
      if (op.arg(2) == kIoRead && op.arg(3) != kShort && op.arg(3) != kEINTR) {
        q[n].nth = std::min<u64>(g.size() - 1, g.size() * u64(op.arg(4)) / 1000);
        q[n].byByte = 1;
      } else {
        q[n].nth = u64(op.arg(4)) % (op.arg(2) == kIoRead ? 8 : 2);
      }
      n++;
      if (op.arg(6) == 0) q[n++] = IoFault{kIoRead, 1, kShort, 57, 0, -1};
      setIoFaults(q, n);
      LoadOut o = doLoad("/simdisk/golden" + extOf(f), f, *proj, mode);
      u64 hard = ioFaultsFiredHard();
      clearIoFaults();
      std::string ctx = fmt("%s with fault op=%lld kind=%lld at %llu (fired %llu): ", extOf(f).c_str(), (long long)op.arg(2), (long long)op.arg(3),
                            (unsigned long long)q[0].nth, (unsigned long long)hard);
      if (hard == 0 && !o.silentOk()) fail("benign-fault-refused", ctx + o.text());
      judge(o, want[f], f, ctx);
    }
    LoadOut o = doLoad("/simdisk/golden" + extOf(f), f, *proj, mode);
    if (!o.silentOk()) fail("intact-refused", "intact file after a failed load: " + o.text());
    expectEq("intact-differs", "intact file after a failed load", want[f], dumpMap(*o.map, f == 0 ? kOsm : kExact));
    std::string cl = closure(*o.map);
    if (!cl.empty()) fail("dangling-reference", cl);
    dropMap(o.map);
  }
  sample(fmt("elements=%zu osm=%zu bin=%zu bytes", s.total(), golden[0].size(), golden[1].size()));
}
RegisterScenario reg("C03", gen, run);
}  // namespace
}  // namespace h
