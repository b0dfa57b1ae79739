// C02: every I/O step of map writers and graph exports may fail; silence is the violation.
#include "io_util.h"
#include "route_util.h"

using namespace lanelet;
namespace h {
namespace {
enum Kind { kOsmMap, kBinMap, kViz, kMl };
const char* kName[] = {"osm map", "bin map", "graphviz export", "graphml export"};
// ops: try what opk kind permille arg mode | locale char
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  p.cfg["proj"] = i64(r.below(3));
  p.cfg["how"] = i64(r.below(3));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["part"] = i64(r.below(3));
  int n = int(r.range(1, 5));
  for (int i = 0; i < n; i++) {
    int what = int(r.below(4));
    if (r.chance(1, 12)) {
      p.op(0, "locale", {r.chance(1, 2) ? ',' : ' ', i64(r.below(2)), i64(r.below(2))});
      continue;
    }
    static const int kWriteKinds[] = {kErrEIO, kErrENOSPC, kErrENOSPC, kErrEIO};
    static const int kOpenKinds[] = {kErrEACCES, kErrENOENT, kErrEMFILE, kErrENOSPC};
    int opk = r.chance(1, 8) ? kIoOpen : r.chance(1, 4) ? kIoClose : kIoWrite;
    int kind = opk == kIoOpen ? kOpenKinds[r.below(4)] : opk == kIoClose ? (r.chance(1, 2) ? kErrEIO : kErrENOSPC) : kWriteKinds[r.below(4)];
    i64 pm = r.chance(1, 3) ? i64(r.range(990, 1000)) : i64(r.below(1001));  // the last bytes: flushed at the very end
    p.op(0, "try", {what, opk, kind, pm, r.chance(1, 2) ? 0 : i64(r.below(5000)), i64(r.below(4)), i64(r.below(3))});
  }
}
struct Out {
  bool reported, silent;
  std::string text;
};
struct World {
  LaneletMapPtr map;
  std::unique_ptr<Projector> proj;
  traffic_rules::TrafficRulesPtr rules;
  routing::RoutingGraphConstPtr graph;
};
std::string fileOf(int what, int n) { return fmt("/simdisk/f%d%s", n, what == kOsmMap ? ".osm" : what == kBinMap ? ".bin" : what == kViz ? ".gv" : ".graphml"); }
Out call(World& w, int what, const std::string& file, int mode) {
  if (what <= kBinMap) {
    IoOut o = doWrite(file, what, *w.map, *w.proj, mode);
    return Out{o.reported(), o.silentOk(), o.text()};
  }
  Res r = attempt([&] {
    auto excl = (mode & 1) ? routing::RelationType::Conflicting : routing::RelationType::None;
    if (what == kViz) w.graph->exportGraphViz(file, excl, 0);
    else w.graph->exportGraphML(file, excl, 0);
  });
  return Out{r.ex == Ex::Lanelet || r.ex == Ex::Io, r.ok(), r.text()};
}
std::string contentOf(int what, const std::string& file) {
  std::string c = diskContent(file);
  if (what == kBinMap && c.size() >= 8) c.resize(c.size() - 8);  // the id counter at the end moves on with every write
  return c;
}
void run(Ctx& c) {
  World w;
  w.proj = makeProjector(int(c.plan.c("proj")));
  Spec s = genNet(c.plan);
  Built b = build(s, int(c.plan.c("how")), u64(c.plan.c("_order")));
  w.map = b.map;
  lib([&] {
    w.rules = makeRules(int(c.plan.c("part")));
    w.graph = routing::RoutingGraph::build(*w.map, *w.rules);
    return 0;
  });
  const Dump want = dumpSpec(s, kExact);
  int n = 0;
  for (auto& op : c.plan.ops) {
    n++;
    int what = op.name == "locale" ? int(kOsmMap) : int(op.arg(0)) & 3;
    int mode = op.name == "locale" ? 1 | (int(op.arg(1)) << 1) : int(op.arg(5));
    std::string golden = fileOf(what, 0);
    clearIoFaults();
    Out g = call(w, what, golden, mode);
    if (!g.silent) fail("refused", std::string("healthy ") + kName[what] + ": " + g.text);
    const std::string goldenText = contentOf(what, golden);
    if (goldenText.empty()) fail("empty-file", std::string("healthy ") + kName[what] + " produced nothing");
    std::string file = fileOf(what, n);
    if (op.name == "locale") {
      setLocalePoint(char(op.arg(0)));
      IoOut o = doWrite(file, 0, *w.map, *w.proj, mode);
      setLocalePoint(0);
      count("fault.locale");
      markNontrivial();
      if (!o.reported()) fail("hazard-not-reported", fmt("locale with decimal point '%c': ", char(op.arg(0))) + o.text());
      continue;
    }
    if (op.arg(6) == 0) diskPut(file.c_str(), "old content of the file", 23);  // overwriting an existing file
    IoFault f[2];
    int nf = 0;
    f[nf] = IoFault{int(op.arg(1)), 0, int(op.arg(2)), u64(op.arg(4)), 0, -1};
    if (op.arg(1) == kIoWrite) {
      u64 total = goldenText.size() + (what == kBinMap ? 8 : 0);
      f[nf].nth = std::min<u64>(total - 1, total * u64(op.arg(3)) / 1000);
      f[nf].byByte = 1;
    }
    nf++;
    if (op.arg(6) == 2) f[nf++] = IoFault{kIoWrite, 1, kShort, 100, 0, -1};
    setIoFaults(f, nf);
    Out o = call(w, what, file, mode);
    u64 hard = ioFaultsFiredHard();
    clearIoFaults();
    std::string ctx = fmt("%s, fault op=%lld kind=%lld permille=%lld (fired %llu times): ", kName[what], (long long)op.arg(1), (long long)op.arg(2),
                          (long long)op.arg(3), (unsigned long long)hard);
    if (hard == 0) {
      if (!o.silent) fail("refused", ctx + o.text);
      if (contentOf(what, file) != goldenText) fail("incomplete", ctx + "file differs from the undisturbed one");
    } else {
      // a failing write may be repeated by the stream; then the file has to be complete
      if (o.silent && op.arg(1) == kIoWrite && contentOf(what, file) == goldenText) count("probe.failure_recovered");
      else if (o.silent) fail("silent-failure", ctx + "the call reported success" + (contentOf(what, file) == goldenText ? "" : " and the file is incomplete"));
      else if (!o.reported) fail("wrong-report", ctx + o.text);
      count("probe.failure_reported");
    }
    expectEq("memory-changed", "map after a failed write", want, dumpMap(*w.map, kExact));
    Out again = call(w, what, file, mode);
    if (!again.silent) fail("retry-refused", ctx + "repeated without fault: " + again.text);
    if (contentOf(what, file) != goldenText) fail("retry-incomplete", ctx + "file of the repeated call differs from the undisturbed one");
  }
  if (c.plan.ops.size()) sample(fmt("elements=%zu", s.total()));
}
RegisterScenario reg("C02", gen, run);
}  // namespace
}  // namespace h
