#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_io/io_handlers/Factory.h>
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_validation/Validation.h>

#include <cmath>
#include <cstring>
#include <sstream>

#include "misc_util.h"

using namespace lanelet;
namespace tr = lanelet::traffic_rules;
namespace h {
namespace {
const Origin& originOf(int k) {
  static const Origin o[2] = {Origin({49.01, 8.42}), Origin({-33.87, 151.2})};
  return o[k & 1];
}
std::unique_ptr<Projector> newProj(int k) {  // library mode
  const Origin& o = originOf(k >> 2);
  switch (k & 3) {
    case 0: return std::make_unique<projection::UtmProjector>(o, true, (k >> 2) != 0);
    case 1: return std::make_unique<projection::LocalCartesianProjector>(o);
    case 2: return std::make_unique<projection::GeocentricProjector>();
    default: return std::make_unique<projection::SphericalMercatorProjector>(o);
  }
}
std::string llName(const ConstLanelet& l) { return fmt("%lld%s", (long long)l.id(), l.inverted() ? "'" : ""); }
std::string limit(const tr::SpeedLimitInformation& i) { return num(i.speedLimit.value()) + (i.isMandatory ? "!" : "?"); }
template <typename V>
std::string matchText(const V& v) {
  std::string t;
  for (auto& m : v) t += llName(m.lanelet) + "@" + num(m.distance) + " ";
  return t;
}
template <typename V>
std::string probText(const V& v) {
  std::string t;
  for (auto& m : v) t += llName(m.lanelet) + "@" + num(m.distance) + "/" + num(m.mahalanobisDistSq) + " ";
  return t;
}
std::string names(const std::vector<std::string>& v) {
  std::string t;
  for (auto& x : v) t += x + " ";
  return t;
}
template <typename V>
std::string idsOf(const V& v) {
  std::string t;
  for (auto& x : v) t += fmt("%lld%s ", (long long)x.id(), x.inverted() ? "'" : "");
  return t;
}
template <typename V>
std::string lpIds(const V& v) {
  std::string t;
  for (auto& x : v) t += fmt("%lld%s ", (long long)x.id(), x.isPolygon() ? "g" : "l");
  return t;
}
}  // namespace
void makeWorld(World& w, const Plan& p) {
  w.s = genNet(p);
  w.b = build(w.s, int(p.c("_order")) % 3, u64(p.c("_order")));
  fillWorld(w, p);
}
void fillWorld(World& w, const Plan& p) {
  for (int k = 0; k < 2; k++) w.rules[k] = lib([&] { return makeRules(int(p.c(k ? "rules1" : "rules0"))); });
  for (int k = 0; k < 8; k++) w.proj[k] = lib([&] { return newProj(k); });
  auto ends = [&](Ref x, bool front) {
    auto& v = w.s.l[size_t(x.i)].pts;
    return front != x.inv ? v.front() : v.back();
  };
  for (size_t i = 0; i < w.s.t.size(); i++) {
    auto& a = w.s.t[i];
    for (size_t j = 0; j < w.s.t.size(); j++) {
      auto& b = w.s.t[j];
      if (i == j) continue;
      bool side = a.left.i == b.right.i || a.right.i == b.left.i || a.left.i == b.left.i || a.right.i == b.right.i;
      bool next = false;
      for (int f = 0; f < 4; f++) next = next || (ends(a.left, f & 1) == ends(b.left, f & 2) && ends(a.right, f & 1) == ends(b.right, f & 2));
      if (side || next) w.related.push_back({int(i), int(j)});
    }
    for (size_t j = 0; j < w.s.a.size(); j++)
      for (auto& o : w.s.a[j].outer)
        if (o.i == a.left.i || o.i == a.right.i) w.relLa.push_back({int(i), int(j)});
  }
  for (size_t i = 0; i < w.s.a.size(); i++)
    for (size_t j = 0; j < w.s.a.size(); j++)
      for (auto& o : w.s.a[i].outer)
        for (auto& q : w.s.a[j].outer)
          if (i != j && o.i == q.i) w.relAa.push_back({int(i), int(j)});
  for (auto& q : w.s.p) w.spots.push_back(BasicPoint2d(q.x, q.y));
  if (w.spots.empty()) w.spots.push_back(BasicPoint2d(0, 0));
}
void dropWorld(World& w) {
  sim::Lib l;
  w.b = {};
  for (auto& r : w.rules) r.reset();
  for (auto& q : w.proj) q.reset();
}
std::string askMisc(const World& w, const Op& op) {
  const int kind = int(op.arg(0)) % kNumMiscKinds;
  const auto& tr = *w.rules[op.arg(1) & 1];
  const u64 ia = u64(op.arg(2)), ib = u64(op.arg(3)), sd = u64(op.arg(4));
  const size_t nt = w.b.t.size(), na = w.b.a.size(), nr = w.b.r.size();
  std::string text;
  Rng r(sd + 77);
  auto llAt = [&](u64 i, u64 inv) -> ConstLanelet {
    ConstLanelet l = w.b.t[i % nt];
    return (inv / nt) & 1 ? l.invert() : l;
  };
  auto point = [&] {
    BasicPoint2d q = w.spots[ia % w.spots.size()];
    Rng q2(ib);
    return BasicPoint2d(q.x() + q2.unit() * 6 - 3, q.y() + q2.unit() * 6 - 3);
  };
  auto object = [&](auto& o) {
    BasicPoint2d q = point();
    o.objectId = Id(sd);
    o.pose.linear() = Eigen::Rotation2D<double>(r.unit() * 6.5 - 3.2).matrix();
    o.pose.translation() = q;
    if (r.chance(1, 2))
      for (auto d : {BasicPoint2d(-1, -0.5), BasicPoint2d(1, -0.5), BasicPoint2d(1, 0.5), BasicPoint2d(-1, 0.5)}) o.absoluteHull.push_back(o.pose * d);
  };
  auto cov = [&](auto& o) {
    double a = 0.25 + r.unit(), d = 0.25 + r.unit(), b = 0.2 * (r.unit() - 0.5);
    if (r.chance(1, 12)) a = b = d = 0;
    o.positionCovariance << a, b, b, d;
    o.vonMisesKappa = r.chance(1, 6) ? 0 : 3 * r.unit();
  };
  const double maxDist = r.chance(1, 4) ? 0. : r.chance(1, 3) ? 20. : 3.;
  Res res = attempt([&] {
    switch (kind) {
      case 0: {
        if (!nt) return;
        auto l = llAt(ia, ia);
        bool v = tr.canPass(l);
        sim::Harness hm;
        text = v ? "yes" : "no";
        break;
      }
      case 1: {
        if (!na) return;
        bool v = tr.canPass(ConstArea(w.b.a[ia % na]));
        sim::Harness hm;
        text = v ? "yes" : "no";
        break;
      }
      case 2:
      case 6: {
        if (!nt) return;
        u64 x = ia, y = ib;
        if (!w.related.empty() && sd % 4) {
          auto& q = w.related[(ia + ib) % w.related.size()];
          x = u64(q.first) + nt * (sd & 1);
          y = u64(q.second) + nt * ((sd % 4 == 3 ? 0 : 1) & sd);
        }
        auto f = llAt(x, x), t = llAt(y, y);
        bool v = kind == 2 ? tr.canPass(f, t) : tr.canChangeLane(f, t);
        sim::Harness hm;
        text = llName(f) + ">" + llName(t) + (v ? " yes" : " no");
        break;
      }
      case 3:
      case 4: {
        if (!nt || !na) return;
        u64 x = ia, y = ib;
        if (!w.relLa.empty() && sd % 4) {
          auto& q = w.relLa[(ia + ib) % w.relLa.size()];
          x = u64(q.first) + nt * (sd & 1);
          y = u64(q.second);
        }
        auto l = llAt(x, x);
        ConstArea a = w.b.a[y % na];
        bool v = kind == 3 ? tr.canPass(l, a) : tr.canPass(a, l);
        sim::Harness hm;
        text = llName(l) + fmt("|%lld", (long long)a.id()) + (v ? " yes" : " no");
        break;
      }
      case 5: {
        if (!na) return;
        u64 x = ia, y = ib;
        if (!w.relAa.empty() && sd % 4) {
          auto& q = w.relAa[(ia + ib) % w.relAa.size()];
          x = u64(q.first);
          y = u64(q.second);
        }
        bool v = tr.canPass(ConstArea(w.b.a[x % na]), ConstArea(w.b.a[y % na]));
        sim::Harness hm;
        text = v ? "yes" : "no";
        break;
      }
      case 7: {
        if (!nt) return;
        auto v = tr.speedLimit(llAt(ia, ia));
        sim::Harness hm;
        text = limit(v);
        break;
      }
      case 8: {
        if (!na) return;
        auto v = tr.speedLimit(ConstArea(w.b.a[ia % na]));
        sim::Harness hm;
        text = limit(v);
        break;
      }
      case 9:
      case 10: {
        if (!nt) return;
        bool v = kind == 9 ? tr.isOneWay(llAt(ia, ia)) : tr.hasDynamicRules(llAt(ia, ia));
        sim::Harness hm;
        text = v ? "yes" : "no";
        break;
      }
      case 11: {
        std::string l = tr.location(), p = tr.participant();
        auto cfg = tr.configuration();
        std::ostringstream o;
        o.exceptions(std::ios::badbit);
        o << tr;
        std::string os = o.str();
        sim::Harness hm;
        text = l + " " + p + " " + os;
        for (auto& e : cfg) text += " " + e.first + "=" + e.second.value();
        break;
      }
      case 12: {
        static const char* const kP[] = {"vehicle", "bicycle", "pedestrian", "vehicle:car", "vehicle:bus", "vehicle:car:electric", "train", "", "motorcycle", "vehicle:truck"};
        const char* p = kP[sd % 10];
        auto mine = tr::TrafficRulesFactory::create(sd % 7 == 6 ? "xx" : "de", p, {{"extra", Attribute(int(sd))}});
        std::string part = mine->participant();
        bool pass = false, oneWay = false;
        tr::SpeedLimitInformation sl{};
        if (nt) {
          auto l = llAt(ia, ia);
          pass = mine->canPass(l);
          oneWay = mine->isOneWay(l);
          sl = mine->speedLimit(l);
        }
        sim::Harness hm;
        text = part + (pass ? " pass" : " no") + (oneWay ? " oneway " : " both ") + limit(sl) + " " + mine->configuration().at("extra").value();
        break;
      }
      case 13: {
        auto v = tr::TrafficRulesFactory::availableTrafficRules();
        sim::Harness hm;
        for (auto& e : v) text += e.first + "/" + e.second + " ";
        break;
      }
      case 14: {
        // regulatory elements made from shared primitives
        static const char* const kR[] = {"traffic_light", "right_of_way", "speed_limit", "traffic_sign", "all_way_stop", "", "unknown", "regulatory_element"};
        const char* rule = kR[sd % 8];
        RuleParameterMap pm;
        if (!w.b.l.empty() && ia % 5) pm["refers"].push_back(w.b.l[ia % w.b.l.size()]);
        if (nt && ib % 3) pm["yield"].push_back(w.b.t[ib % nt]);
        if (nt && ib % 2) pm["right_of_way"].push_back(w.b.t[(ib + 1) % nt]);
        AttributeMap at;
        if (sd % 3) at["sign_type"] = Attribute("de274-60");
        auto e = RegulatoryElementFactory::create(rule, Id(77777000 + i64(sd % 100)), pm, at);
        std::ostringstream o;
        o.exceptions(std::ios::badbit);
        if (e) o << *e;
        std::string os = o.str();
        std::string at2 = e->attributeOr(AttributeName::Subtype, std::string("-"));
        sim::Harness hm;
        text = os + " " + at2 + (std::dynamic_pointer_cast<RightOfWay>(e) ? " R" : "") + (std::dynamic_pointer_cast<TrafficLight>(e) ? " T" : "") +
               (std::dynamic_pointer_cast<SpeedLimit>(e) ? " S" : "") + (std::dynamic_pointer_cast<AllWayStop>(e) ? " A" : "");
        break;
      }
      case 15: {
        auto v = RegulatoryElementFactory::availableRules();
        sim::Harness hm;
        text = names(v);
        break;
      }
      case 16: {
        static const char* const kN[] = {"osm_handler", "bin_handler", "xx", ""};
        static const char* const kE[] = {".osm", ".bin", ".xml", ""};
        const Projector& pr = *w.proj[ib & 7];
        std::string a, b;
        int which = int(sd / 4 % 4);
        if (which == 0) {
          auto p = io_handlers::ParserFactory::create(kN[sd % 4], pr);
          sim::Harness hm;
          text = typeid(*p).name();
        } else if (which == 1) {
          auto p = io_handlers::ParserFactory::createFromExtension(kE[sd % 4], pr);
          sim::Harness hm;
          text = typeid(*p).name();
        } else if (which == 2) {
          auto p = io_handlers::WriterFactory::create(kN[sd % 4], pr);
          sim::Harness hm;
          text = typeid(*p).name();
        } else {
          auto p = io_handlers::WriterFactory::createFromExtension(kE[sd % 4], pr);
          sim::Harness hm;
          text = typeid(*p).name();
        }
        break;
      }
      case 17: {
        auto a = sd & 1 ? io_handlers::ParserFactory::availableParsers() : io_handlers::WriterFactory::availableWriters();
        auto b = sd & 2 ? io_handlers::ParserFactory::availableExtensions() : io_handlers::WriterFactory::availableExtensions();
        sim::Harness hm;
        text = names(a) + "| " + names(b);
        break;
      }
      case 18:
      case 19:
      case 26: {
        // 18 forward, 19 reverse, 26 forward and reverse through a projector of one's own
        int k = int(ia % 8);
        static const double kLat[] = {49.01, 49.5, -33.87, 48.9, 89.5, 49.01, 91, -33.5, 0.001}, kLon[] = {8.42, 7.9, 151.2, 12.3, 8, 5.9, 8, 150.1, 8.5};
        size_t q = ib % 9;
        GPSPoint g{kLat[q] + 0.01 * r.unit(), kLon[q] + 0.01 * r.unit(), 10 * r.unit()};
        BasicPoint3d l(2000 * r.unit() - 1000, 2000 * r.unit() - 1000, 5 * r.unit());
        if (ib % 11 == 0) l *= 1e4;
        if ((k & 3) == 2) l = BasicPoint3d(4146000 + l.x(), 613000 + l.y(), 4791000 + l.z());
        if (kind == 18) {
          auto v = w.proj[k]->forward(g);
          sim::Harness hm;
          text = num(v.x()) + " " + num(v.y()) + " " + num(v.z());
        } else if (kind == 19) {
          auto v = w.proj[k]->reverse(l);
          sim::Harness hm;
          text = num(v.lat) + " " + num(v.lon) + " " + num(v.ele);
        } else {
          auto mine = newProj(k);
          auto v = mine->forward(g);
          auto u = mine->reverse(v);
          auto o = mine->origin();
          sim::Harness hm;
          text = num(v.x()) + " " + num(v.y()) + " " + num(v.z()) + " " + num(u.lat) + " " + num(u.lon) + " " + num(u.ele) + " " + num(o.position.lat);
        }
        break;
      }
      case 20:
      case 21: {
        matching::Object2d o;
        object(o);
        if (kind == 20) {
          const LaneletMap& m = *w.b.map;
          auto v = matching::getDeterministicMatches(m, o, maxDist);
          sim::Harness hm;
          text = matchText(v);
        } else {
          LaneletMap& m = *w.b.map;
          auto v = matching::getDeterministicMatches(m, o, maxDist);
          auto fine = matching::removeNonRuleCompliantMatches(v, w.rules[op.arg(1) & 1]);
          sim::Harness hm;
          text = matchText(v) + "| " + matchText(fine);
        }
        break;
      }
      case 22:
      case 23: {
        matching::ObjectWithCovariance2d o;
        object(o);
        cov(o);
        if (kind == 22) {
          const LaneletMap& m = *w.b.map;
          auto v = matching::getProbabilisticMatches(m, o, maxDist);
          sim::Harness hm;
          text = probText(v);
        } else {
          LaneletMap& m = *w.b.map;
          auto v = matching::getProbabilisticMatches(m, o, maxDist);
          auto fine = matching::removeNonRuleCompliantMatches(v, w.rules[op.arg(1) & 1]);
          sim::Harness hm;
          text = probText(v) + "| " + probText(fine);
        }
        break;
      }
      case 24: {
        matching::Object2d o;
        object(o);
        bool a = matching::isCloseTo(w.b.map->laneletLayer, o, maxDist), b = matching::isWithin(w.b.map->laneletLayer, o);
        sim::Harness hm;
        text = fmt("%d %d", a, b);
        break;
      }
      case 25: {
        if (!nt) return;
        matching::ObjectWithCovariance2d o;
        object(o);
        cov(o);
        auto l = llAt(ia, sd);
        double v = matching::utils::getMahalanobisDistSq(l, o);
        sim::Harness hm;
        text = llName(l) + " " + num(v);
        break;
      }
      case 27: {
        if (!nr) return;
        RegulatoryElementConstPtr e = w.b.r[ia % nr];
        std::ostringstream os;
        os.exceptions(std::ios::badbit);
        os << *e;
        std::string o;
        auto roles = e->roles();
        if (auto x = std::dynamic_pointer_cast<const RightOfWay>(e)) {
          auto a = x->rightOfWayLanelets();
          auto b = x->yieldLanelets();
          auto sl = x->stopLine();
          ManeuverType mt = x->getManeuver(llAt(ib, 0));
          sim::Harness hm;
          text = idsOf(a) + "| " + idsOf(b) + (sl ? fmt("s%lld", (long long)sl->id()) : "-") + fmt(" %d", int(mt));
        } else if (auto x = std::dynamic_pointer_cast<const TrafficLight>(e)) {
          auto a = x->trafficLights();
          auto sl = x->stopLine();
          sim::Harness hm;
          text = lpIds(a) + (sl ? fmt("s%lld", (long long)sl->id()) : "-");
        } else if (auto x = std::dynamic_pointer_cast<const AllWayStop>(e)) {
          auto a = x->lanelets();
          auto b = x->stopLines();
          auto d = x->trafficSigns();
          auto sl = a.empty() ? Optional<ConstLineString3d>() : x->getStopLine(a[ib % a.size()]);
          sim::Harness hm;
          text = idsOf(a) + "| " + idsOf(b) + "| " + lpIds(d) + (sl ? fmt("s%lld", (long long)sl->id()) : "-");
        } else if (auto x = std::dynamic_pointer_cast<const TrafficSign>(e)) {
          auto a = x->trafficSigns();
          auto b = x->cancellingTrafficSigns();
          auto t = x->type();
          auto ct = x->cancelTypes();
          auto rl = x->refLines();
          auto cl = x->cancelLines();
          sim::Harness hm;
          text = lpIds(a) + "| " + lpIds(b) + "| " + t + "| " + names(ct) + "| " + idsOf(rl) + "| " + idsOf(cl);
        }
        sim::Harness hm;
        text += os.str() + " " + names(roles);
        break;
      }
      case 28: {
        auto v = validation::availabeChecks(sd % 3 ? "" : "mapping.*");
        sim::Harness hm;
        text = names(v);
        break;
      }
      default: {
        // rules derived from regulatory elements through the rule parameters of a lanelet
        if (!nt) return;
        auto l = llAt(ia, ia);
        auto sl = l.regulatoryElementsAs<SpeedLimit>();
        auto tl = l.regulatoryElementsAs<TrafficLight>();
        auto v = tr.speedLimit(l);
        sim::Harness hm;
        text = fmt("%zu %zu ", sl.size(), tl.size()) + limit(v);
        for (auto& e : sl) text += fmt("%lld ", (long long)e->id());
      }
    }
  });
  return res.ok() ? text : res.text() + " " + text;
}
std::string describeMisc(const Op& op) {
  return fmt("kind %d, rules %d, %lld %lld seed %lld", int(op.arg(0)) % kNumMiscKinds, int(op.arg(1) & 1), (long long)op.arg(2), (long long)op.arg(3), (long long)op.arg(4));
}
}  // namespace h
