#pragma once
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/UTM.h>

#include <cstring>
#include <memory>

#include "h.h"

namespace h {
inline std::unique_ptr<lanelet::Projector> makeProjector(int kind) {
  using namespace lanelet;
  Origin o({49.01, 8.42});
  sim::Lib l;
  switch (kind % 3) {
    case 0: return std::make_unique<projection::SphericalMercatorProjector>(o);
    case 1: return std::make_unique<projection::UtmProjector>(o);
    default: return std::make_unique<projection::LocalCartesianProjector>(o);
  }
}
inline std::string extOf(int f) { return f == 0 ? ".osm" : ".bin"; }
inline std::string handlerOf(int f) { return f == 0 ? "osm_handler" : "bin_handler"; }
struct IoOut {
  Res r;
  std::vector<std::string> errs;
  bool silentOk() const { return r.ok() && errs.empty(); }
  bool reported() const { return r.ex == Ex::Io || (r.ok() && !errs.empty()); }
  std::string text() const {
    std::string t = r.text();
    for (size_t i = 0; i < errs.size() && i < 6; i++) t += "\n  " + errs[i];
    return t;
  }
};
// mode bit 0: with error list (else throwing), bit 1: by handler name (else by extension),
// bit 2: elevations as JOSM wants them (two decimals), bit 3: marked for upload
// Callers reuse their error list: what is left in it from an earlier call is not a result of this one.
inline lanelet::ErrorMessages* usedErrorList() { return lib([] { return new lanelet::ErrorMessages{"left over from an earlier call"}; }); }
inline IoOut doWrite(const std::string& file, int f, const lanelet::LaneletMap& m, const lanelet::Projector& pr, int mode) {
  IoOut o;
  lanelet::io::Configuration cfg;
  lib([&] {
    if (mode & 4) cfg["josm_format_elevation"] = true;
    if (mode & 8) cfg["josm_upload"] = true;
    return 0;
  });
  auto* errs = usedErrorList();
  o.r = attempt([&] {
    lanelet::ErrorMessages* e = (mode & 1) ? errs : nullptr;
    if (mode & 2) lanelet::write(file, m, handlerOf(f), pr, e, cfg);
    else lanelet::write(file, m, pr, e, cfg);
  });
  if ((mode & 1) && o.r.ok())
    for (auto& e : *errs) o.errs.push_back(e);
  lib([&] { delete errs; cfg.clear(); return 0; });
  return o;
}
struct LoadOut : IoOut {
  lanelet::LaneletMapPtr map;
};
inline LoadOut doLoad(const std::string& file, int f, const lanelet::Projector& pr, int mode) {
  LoadOut o;
  auto* errs = usedErrorList();
  o.r = attempt([&] {
    lanelet::ErrorMessages* e = (mode & 1) ? errs : nullptr;
    if (mode & 2) o.map = lanelet::load(file, handlerOf(f), pr, e);
    else o.map = lanelet::load(file, pr, e);
  });
  if ((mode & 1) && o.r.ok())
    for (auto& e : *errs) o.errs.push_back(e);
  lib([&] { delete errs; return 0; });
  return o;
}
// A map read from a file with elevations of two decimals: checks that they are off by no more than that and puts the model's
// ones in their place, so that the rest can be compared as usual.
inline std::string unroundElevations(lanelet::LaneletMap& m, const Spec& s) {
  sim::Lib l;
  for (auto& q : s.p) {
    auto it = m.pointLayer.find(q.id);
    if (it == m.pointLayer.end()) continue;
    auto pt = *it;
    if (!(std::fabs(pt.z() - q.z) < 0.00502)) return fmt("point %lld: elevation %.9g, written with two decimals from %.9g", (long long)q.id, pt.z(), q.z);
    pt.z() = q.z;
  }
  return "";
}
inline void dropMap(lanelet::LaneletMapPtr& m) {
  sim::Lib l;
  m.reset();
}
}  // namespace h

namespace h {
// A written .osm file taken apart into its top-level elements (text chunks), so that files can be damaged or reordered element-wise.
struct OsmElem {
  char kind = 0;  // 'n', 'w', 'r'
  Id id = 0;
  std::string text;
};
struct OsmText {
  std::string head, tail;
  std::vector<OsmElem> e;
  std::string str() const {
    std::string o = head;
    for (auto& x : e) o += x.text;
    return o + tail;
  }
  int find(char kind, Id id) const {
    for (size_t i = 0; i < e.size(); i++)
      if (e[i].kind == kind && e[i].id == id) return int(i);
    return -1;
  }
};
inline OsmText splitOsm(const std::string& t) {
  OsmText o;
  size_t b = 0;
  bool inElem = false, any = false;
  const char* names[] = {"node", "way", "relation"};
  std::string endTag;
  while (b < t.size()) {
    size_t e = t.find('\n', b);
    // a line may be continued inside an attribute value: pugixml escapes line breaks, so lines are whole
    if (e == std::string::npos) e = t.size() - 1;
    std::string line = t.substr(b, e - b + 1);
    b = e + 1;
    if (!inElem) {
      int k = -1;
      for (int i = 0; i < 3; i++)
        if (line.compare(0, 3 + strlen(names[i]), std::string("  <") + names[i]) == 0 && line[3 + strlen(names[i])] == ' ') k = i;
      if (k < 0) {
        (any ? o.tail : o.head) += line;
        continue;
      }
      any = true;
      OsmElem x;
      x.kind = names[k][0];
      size_t p = line.find(" id=\"");
      x.id = p == std::string::npos ? 0 : strtoll(line.c_str() + p + 5, nullptr, 10);
      x.text = line;
      o.e.push_back(x);
      if (line.find("/>") == std::string::npos || line.find("/>") + 3 < line.size()) {
        if (line.size() < 3 || line.compare(line.size() - 3, 3, "/>\n") != 0) {
          inElem = true;
          endTag = std::string("  </") + names[k] + ">";
        }
      }
    } else {
      o.e.back().text += line;
      if (line.compare(0, endTag.size(), endTag) == 0) inElem = false;
    }
  }
  return o;
}
inline std::string eraseLine(const std::string& text, const std::string& needle) {  // removes the first line containing needle
  size_t p = text.find(needle);
  if (p == std::string::npos) return text;
  size_t b = text.rfind('\n', p), e = text.find('\n', p);
  b = b == std::string::npos ? 0 : b + 1;
  return text.substr(0, b) + (e == std::string::npos ? "" : text.substr(e + 1));
}
}  // namespace h
