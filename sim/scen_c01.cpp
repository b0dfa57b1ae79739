// C01: histories of edit/write/crash/restart/load over both formats on the simulated disk.
#include "io_util.h"

#include <cstring>

using namespace lanelet;
namespace h {
namespace {
// cfg: map keys, proj, how. ops (client = life): load f, edit e, write f fmt mode, export mode
void gen(Plan& p, Rng& r) {
  genNetCfg(p, r, int(r.below(3)));
  p.cfg["proj"] = i64(r.below(3));
  p.cfg["how"] = i64(r.below(3));
  p.cfg["_order"] = i64(r.below(1000));
  p.cfg["invpar"] = p.cfg["how"] == 0 && r.chance(1, 2);  // members are added the way round they come, otherwise
  p.lives = int(r.range(2, 4));
  p.arena = r.chance(1, 2) ? r.next() >> 8 : 0;
  const int files = int(r.range(1, 3));
  for (int life = 0; life < p.lives; life++) {
    int n = int(r.range(1, 3));
    for (int i = 0; i < n; i++) {
      if (life > 0 || i > 0) p.op(life, "load", {i64(r.below(u64(files))), i64(r.below(2))});
      for (int e = int(r.below(3)); e > 0; e--) p.op(life, "edit", {i64(r.below(100000))});
      if (r.chance(1, 5)) p.op(life, "export", {i64(r.below(16)) | 4});
      if (life + 1 < p.lives || r.chance(1, 2)) p.op(life, "write", {i64(r.below(u64(files))), i64(r.below(2)), i64(r.below(4))});
    }
    for (int k = int(r.below(4)); k > 0; k--) {
      int op = r.chance(1, 3) ? kIoRead : kIoWrite;
      p.io(life, op, r.below(12), r.chance(1, 2) ? kShort : kEINTR, i64(1 + r.below(r.chance(1, 2) ? 8 : 3000)));
    }
    if (life + 1 < p.lives && r.chance(2, 3)) {
      switch (r.below(4)) {
        case 0: p.io(life, kIoOpen, r.below(3), kCrash); break;
        case 1: p.io(life, kIoClose, r.below(3), kCrash); break;
        case 2: p.io(life, kIoWrite, r.below(6), kCrash, i64(r.below(9000))); break;
        default: p.io(life, kIoWrite, r.below(r.chance(1, 2) ? 3000 : 60000), kCrash, 0, 1); break;
      }
    }
  }
}
void editSpec(Spec& s, i64 e) {
  Rng r{u64(e)};
  auto attrsOf = [&]() -> Attrs* {
    switch (r.below(6)) {
      case 0: return s.p.empty() ? nullptr : &s.p[r.below(s.p.size())].a;
      case 1: return s.l.empty() ? nullptr : &s.l[r.below(s.l.size())].a;
      case 2: return s.g.empty() ? nullptr : &s.g[r.below(s.g.size())].a;
      case 3: return s.t.empty() ? nullptr : &s.t[r.below(s.t.size())].a;
      case 4: return s.a.empty() ? nullptr : &s.a[r.below(s.a.size())].a;
      default: return s.r.empty() ? nullptr : &s.r[r.below(s.r.size())].a;
    }
  };
  switch (r.below(5)) {
    case 0:
    case 1:
      if (Attrs* a = attrsOf()) (*a)[fmt("edit%lld", (long long)(e % 7))] = fmt("value %lld", (long long)e);
      break;
    case 2:
      if (!s.p.empty()) {
        auto& q = s.p[r.below(s.p.size())];
        q.z = 0.125 * double(r.range(-20, 20));
      }
      break;
    case 3: {
      s.p.push_back(PtS{Id(7000000000ll + e), 3.5 + double(r.below(50)), -20 - double(r.below(9)), 0.5, {{"type", "extra"}}});
      break;
    }
    default:
      if (s.p.size() >= 2) {
        int a = int(r.below(s.p.size())), b = int(r.below(s.p.size()));
        if (a == b) break;
        s.l.push_back(LsS{Id(8000000000ll + e), {a, b}, {{"type", "extra"}}});
      }
  }
}
// Applies the difference between two models to a real map (through the public API).
void applyToMap(const Spec& before, const Spec& after, LaneletMap& m) {
  sim::Lib lib;
  auto setAttrs = [](auto&& prim, const Attrs& a) {
    for (auto& x : a) prim.attributes()[x.first] = x.second;
  };
  for (size_t i = 0; i < after.p.size(); i++) {
    if (i >= before.p.size()) {
      if (!m.pointLayer.exists(after.p[i].id)) m.add(Point3d(after.p[i].id, after.p[i].x, after.p[i].y, after.p[i].z, toAttr(after.p[i].a)));
      continue;
    }
    auto pt = m.pointLayer.get(after.p[i].id);
    if (after.p[i].z != before.p[i].z) pt.z() = after.p[i].z;
    if (after.p[i].a != before.p[i].a) setAttrs(pt, after.p[i].a);
  }
  for (size_t i = 0; i < after.l.size(); i++) {
    if (i >= before.l.size()) {
      Points3d pts;
      for (int k : after.l[i].pts) pts.push_back(m.pointLayer.get(after.p[size_t(k)].id));
      m.add(LineString3d(after.l[i].id, pts, toAttr(after.l[i].a)));
      continue;
    }
    if (after.l[i].a != before.l[i].a) {
      auto l = m.lineStringLayer.get(after.l[i].id);
      setAttrs(l, after.l[i].a);
    }
  }
  for (size_t i = 0; i < after.g.size(); i++)
    if (after.g[i].a != before.g[i].a) {
      auto l = m.polygonLayer.get(after.g[i].id);
      setAttrs(l, after.g[i].a);
    }
  for (size_t i = 0; i < after.t.size(); i++)
    if (after.t[i].a != before.t[i].a) {
      auto l = m.laneletLayer.get(after.t[i].id);
      setAttrs(l, after.t[i].a);
    }
  for (size_t i = 0; i < after.a.size(); i++)
    if (after.a[i].a != before.a[i].a) {
      auto l = m.areaLayer.get(after.a[i].id);
      setAttrs(l, after.a[i].a);
    }
  for (size_t i = 0; i < after.r.size(); i++)
    if (after.r[i].a != before.r[i].a) {
      auto l = m.regulatoryElementLayer.get(after.r[i].id);
      for (auto& x : after.r[i].a) std::const_pointer_cast<RegulatoryElementData>(l->constData())->attributes[x.first] = x.second;
    }
}
struct FileState {  // what the file must contain, if acknowledged
  int acked = 0, format = 0, osm = 0;
  std::vector<i64> edits;
};
std::string saveState(const std::vector<FileState>& v) {
  std::string o;
  for (auto& f : v) {
    o += fmt("%d %d %d %zu", f.acked, f.format, f.osm, f.edits.size());
    for (i64 e : f.edits) o += fmt(" %lld", (long long)e);
    o += "\n";
  }
  return o;
}
std::vector<FileState> loadState() {
  std::vector<FileState> v(3);
  std::string t(shm()->blob[0], shm()->blobLen[0]);
  const char* c = t.c_str();
  char* e = nullptr;
  if (t.empty()) return v;
  for (auto& f : v) {
    f.acked = int(strtol(c, &e, 10));
    f.format = int(strtol(e, &e, 10));
    f.osm = int(strtol(e, &e, 10));
    long n = strtol(e, &e, 10);
    for (long i = 0; i < n; i++) f.edits.push_back(strtoll(e, &e, 10));
    c = e;
  }
  return v;
}
void run(Ctx& c) {
  auto proj = makeProjector(int(c.plan.c("proj")));
  Spec base = genNet(c.plan);
  std::vector<FileState> st = loadState();
  auto persist = [&] {  // the harness' own journal: survives the simulated crash
    std::string t = saveState(st);
    memcpy(shm()->blob[0], t.data(), t.size());
    shm()->blobLen[0] = u32(t.size());
  };
  auto modelOf = [&](const std::vector<i64>& edits) {
    Spec s = base;
    for (i64 e : edits) editSpec(s, e);
    return s;
  };
  LaneletMapPtr cur;
  std::vector<i64> curEdits;
  bool curOsm = false;
  Built b;
  armIo(c, c.life);
  auto nameOf = [&](i64 f, int format) { return fmt("/simdisk/map%lld%s", (long long)f, extOf(format).c_str()); };
  auto loadFile = [&](i64 f, int mode) {
    FileState& s = st[size_t(f)];
    LoadOut o = doLoad(nameOf(f, s.format), s.format, *proj, mode);
    if (!o.silentOk()) fail("acked-file-unreadable", fmt("life %d: loading acknowledged %s: ", c.life, nameOf(f, s.format).c_str()) + o.text());
    Spec m = modelOf(s.edits);
    bool osm = s.osm;
    expectEq("lost-or-altered", fmt("life %d: content of acknowledged %s", c.life, nameOf(f, s.format).c_str()), dumpSpec(m, osm ? kOsm : kExact),
             dumpMap(*o.map, osm ? kOsm : kExact));
    std::string cl = closure(*o.map);
    if (!cl.empty()) fail("dangling-reference", cl);
    count("probe.acked_file_checked");
    markNontrivial();
    cur = o.map;
    curEdits = s.edits;
    curOsm = osm;
  };
  if (c.life == 0) {
    b = build(base, int(c.plan.c("how")), u64(c.plan.c("_order")));
    cur = b.map;
  }
  // restart: everything acknowledged earlier must be there
  if (c.life > 0)
    for (i64 f = 0; f < 3; f++)
      if (st[size_t(f)].acked) loadFile(f, 0);
  if (!cur) {  // nothing acknowledged yet: start over
    b = build(base, int(c.plan.c("how")), u64(c.plan.c("_order")));
    cur = b.map;
    curEdits.clear();
    curOsm = false;
  }
  for (auto& op : c.plan.ops) {
    if (op.client != c.life) continue;
    if (op.name == "load") {
      if (st[size_t(op.arg(0) % 3)].acked) loadFile(op.arg(0) % 3, int(op.arg(1)));
    } else if (op.name == "edit") {
      Spec before = modelOf(curEdits);
      Spec after = before;
      // ids of edits are unique per edit number: skip an edit already applied
      bool dup = false;
      for (i64 e : curEdits) dup |= e == op.arg(0);
      if (dup) continue;
      editSpec(after, op.arg(0));
      applyToMap(before, after, *cur);
      curEdits.push_back(op.arg(0));
    } else if (op.name == "export") {  // a copy for another program, with other writer parameters
      IoOut o = doWrite("/simdisk/export.osm", 0, *cur, *proj, int(op.arg(0)));
      if (!o.silentOk()) fail("write-refused", fmt("life %d: exporting a valid map: ", c.life) + o.text());
      LoadOut x = doLoad("/simdisk/export.osm", 0, *proj, int(op.arg(0)));
      if (!x.silentOk()) fail("acked-file-unreadable", fmt("life %d: loading the export: ", c.life) + x.text());
      Spec m = modelOf(curEdits);
      if (op.arg(0) & 4) {
        std::string e = unroundElevations(*x.map, m);
        if (!e.empty()) fail("lost-or-altered", fmt("life %d: exported map: ", c.life) + e);
      }
      expectEq("lost-or-altered", fmt("life %d: content of the export", c.life), dumpSpec(m, kOsm), dumpMap(*x.map, kOsm));
      count("probe.export_checked");
      dropMap(x.map);
    } else if (op.name == "write") {
      i64 f = op.arg(0) % 3;
      int format = int(op.arg(1)) & 1;
      FileState& s = st[size_t(f)];
      // another format uses another name; the old one is given up
      s.acked = 0;
      persist();
      IoOut o = doWrite(nameOf(f, format), format, *cur, *proj, int(op.arg(2)));
      if (!o.silentOk()) fail("write-refused", fmt("life %d: writing a valid map: ", c.life) + o.text());
      s.acked = 1;
      s.format = format;
      s.osm = curOsm || format == 0;
      s.edits = curEdits;
      persist();
      count("probe.acked_write");
      expectEq("memory-changed", "map in memory after writing it", dumpSpec(modelOf(curEdits), curOsm ? kOsm : kExact), dumpMap(*cur, curOsm ? kOsm : kExact));
    }
  }
  // the process dies here without running destructors; the last life checks its own files once more
  if (c.life + 1 == c.plan.lives)
    for (i64 f = 0; f < 3; f++)
      if (st[size_t(f)].acked) loadFile(f, 1);
  sample(fmt("lives=%d elements=%zu", c.plan.lives, base.total()));
}
RegisterScenario reg("C01", gen, run);
}  // namespace
}  // namespace h
