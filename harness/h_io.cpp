// I01 OSM round trip, I02 binary round trip, I03 write failures, I04 damaged files, I05 dangling references.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/io_handlers/BinHandler.h>
#include <lanelet2_io/io_handlers/OsmFile.h>
#include <lanelet2_io/io_handlers/OsmHandler.h>
#include <sys/resource.h>

#include <algorithm>
#include <cmath>
#include <fstream>

#include "mc.hpp"
using namespace lanelet;

namespace {
std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void spill(const std::string& p, const std::string& t) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << t;
}
// ------------------------------------------------------------------ maps are compared by a canonical description
struct DumpOpts {
  bool osm{false};  // without what the format can not hold
  bool coords{true};
};
std::string hex(double d) {
  char b[64];
  if (std::isnan(d)) return "nan";
  snprintf(b, sizeof b, "%a", d);
  return b;
}
std::string esc(const std::string& s) { return mc::jsonEsc(s); }
std::string attrs(const AttributeMap& m, std::map<std::string, std::string> implied = {}) {
  std::map<std::string, std::string> t = implied;
  for (auto& a : m) t[a.first] = a.second.value();
  std::string s = "[";
  for (auto& a : t) s += esc(a.first) + "=" + esc(a.second) + ";";
  return s + "]";
}
std::string idOf(Id id) { return std::to_string(id); }
template <typename L>
std::string ref(const L& l, bool withInv = true) {
  return idOf(l.id()) + (withInv && l.inverted() ? "'" : "");
}
std::string ring(const ConstLineStrings3d& ls, bool canon) {
  std::vector<std::string> v;
  for (auto& l : ls) v.push_back(ref(l));
  if (canon && !v.empty()) std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end());
  return mc::join(v, ",");
}
struct ParamDump : RuleParameterVisitor {
  bool osm{};
  std::map<std::string, std::vector<std::string>> out;
  void operator()(const ConstPoint3d& p) override { out[role].push_back("P" + idOf(p.id())); }
  void operator()(const ConstLineString3d& p) override { out[role].push_back("L" + ref(p, !osm)); }
  void operator()(const ConstPolygon3d& p) override { out[role].push_back("G" + ref(p, !osm)); }
  void operator()(const ConstWeakLanelet& p) override {
    out[role].push_back(p.expired() ? "LL expired" : "LL" + idOf(p.lock().id()) + (!osm && p.lock().inverted() ? "'" : ""));
  }
  void operator()(const ConstWeakArea& p) override { out[role].push_back(p.expired() ? "A expired" : "A" + idOf(p.lock().id())); }
};
using Dump = std::map<std::string, std::string>;  // element -> description
Dump dump(const LaneletMap& m, DumpOpts o) {
  Dump d;
  for (auto& p : m.pointLayer) d["P" + idOf(p.id())] = attrs(p.attributes()) + (o.coords ? hex(p.x()) + " " + hex(p.y()) + " " + hex(p.z()) : "");
  auto pts = [](auto& l) {
    std::string s;
    for (auto& p : l) s += idOf(p.id()) + ",";
    return s;
  };
  for (auto l : m.lineStringLayer) {
    ConstLineString3d c = o.osm && l.inverted() ? ConstLineString3d(l.invert()) : ConstLineString3d(l);
    d["L" + idOf(l.id())] = attrs(l.attributes()) + (o.osm ? "" : c.inverted() ? "inv" : "") + pts(c);
  }
  for (auto& l : m.polygonLayer) {
    d["G" + idOf(l.id())] = (o.osm ? attrs(l.attributes(), {{"area", "true"}}) : attrs(l.attributes())) + pts(l);
  }
  auto regs = [](auto& l) {
    std::string s = " regs:";
    for (auto& r : l.regulatoryElements()) s += idOf(r->id()) + ",";
    return s;
  };
  for (auto& l : m.laneletLayer) {
    std::string s = o.osm ? attrs(l.attributes(), {{"type", "lanelet"}}) : attrs(l.attributes()) + (l.inverted() ? "inv" : "");
    s += " l" + ref(l.leftBound()) + " r" + ref(l.rightBound());
    s += l.hasCustomCenterline() ? " c" + ref(l.centerline()) : "";
    d["LL" + idOf(l.id())] = s + regs(l);
  }
  for (auto& a : m.areaLayer) {
    std::string s = o.osm ? attrs(a.attributes(), {{"type", "multipolygon"}}) : attrs(a.attributes());
    ConstArea ca = a;
    s += " outer:" + ring(ca.outerBound(), o.osm);
    for (auto& i : ca.innerBounds()) s += " inner:" + ring(i, o.osm);
    d["A" + idOf(a.id())] = s + regs(a);
  }
  for (auto& r : m.regulatoryElementLayer) {
    ParamDump v;
    v.osm = o.osm;
    r->applyVisitor(v);
    std::string s = o.osm ? attrs(r->attributes(), {{"type", "regulatory_element"}}) : attrs(r->attributes());
    s += std::string(" ") + typeid(*r).name();
    for (auto& x : v.out) {
      s += " " + esc(x.first) + ":" + mc::join(x.second, ",");
    }
    if (!o.osm) {  // roles without members
      for (auto& x : r->roles()) s += " " + esc(x);
    }
    d["R" + idOf(r->id())] = s;
  }
  return d;
}
void same(const Dump& want, const Dump& got, const std::string& when) {
  for (auto& w : want) {
    auto it = got.find(w.first);
    MC_REQUIRE(it != got.end(), "element-lost", w.first << " is missing " << when);
    MC_REQUIRE(it->second == w.second, "element-changed-" + w.first.substr(0, w.first.find_first_of("-0123456789")),
               w.first << " is " << it->second << " instead of " << w.second << " " << when);
  }
  for (auto& g : got) {
    MC_REQUIRE(want.count(g.first) != 0, "element-added", g.first << " was not in the map " << when);
  }
}
void sameCoordinates(const LaneletMap& a, const LaneletMap& b, double tolXy, double tolZ) {
  for (auto& p : a.pointLayer) {
    auto q = *b.pointLayer.find(p.id());
    MC_REQUIRE(std::fabs(p.x() - q.x()) <= tolXy && std::fabs(p.y() - q.y()) <= tolXy && std::fabs(p.z() - q.z()) <= tolZ, "coordinates",
               "point " << p.id() << " at " << p.x() << " " << p.y() << " " << p.z() << " comes back at " << q.x() << " " << q.y() << " " << q.z());
  }
}
//! whatever an element of the map refers to is the very object in the map's layers
void identity(const LaneletMap& cm) {
  auto& m = const_cast<LaneletMap&>(cm);
  auto same = [](const void* a, const void* b, const char* what) {
    MC_REQUIRE(a == b, "not-shared", what << " is not the object in the layer of the map");
  };
  auto ptIn = [&](const ConstPoint3d& p) {
    MC_REQUIRE(m.pointLayer.exists(p.id()), "not-contained", "point " << p.id() << " is not in the map");
    same(m.pointLayer.find(p.id())->constData().get(), p.constData().get(), "a point");
  };
  auto lsIn = [&](const ConstLineString3d& l) {
    MC_REQUIRE(m.lineStringLayer.exists(l.id()), "not-contained", "line string " << l.id() << " is not in the map");
    same(m.lineStringLayer.find(l.id())->constData().get(), l.constData().get(), "a line string");
  };
  auto reIn = [&](const RegulatoryElementConstPtr& r) {
    MC_REQUIRE(m.regulatoryElementLayer.exists(r->id()), "not-contained", "regulatory element " << r->id() << " is not in the map");
    same(m.regulatoryElementLayer.find(r->id())->get(), r.get(), "a regulatory element");
  };
  for (auto l : m.lineStringLayer) {
    for (auto p : l) ptIn(p);
  }
  for (auto l : m.polygonLayer) {
    for (auto p : l) ptIn(p);
  }
  for (auto l : m.laneletLayer) {
    lsIn(l.leftBound());
    lsIn(l.rightBound());
    if (l.hasCustomCenterline()) {
      lsIn(utils::removeConst(ConstLanelet(l)).centerline());
    }
    for (auto& r : l.regulatoryElements()) reIn(r);
    MC_REQUIRE(!m.laneletLayer.findUsages(l.leftBound()).empty(), "usage", "the lanelet of a bound is not found");
  }
  for (auto a : m.areaLayer) {
    for (auto l : a.outerBound()) lsIn(l);
    for (auto i : a.innerBounds()) {
      for (auto l : i) lsIn(l);
    }
    for (auto& r : a.regulatoryElements()) reIn(r);
  }
  struct V : RuleParameterVisitor {
    std::function<void(const ConstPoint3d&)> p;
    std::function<void(const ConstLineString3d&)> l;
    LaneletMap* m{};
    void operator()(const ConstPoint3d& x) override { p(x); }
    void operator()(const ConstLineString3d& x) override { l(x); }
    void operator()(const ConstPolygon3d& x) override {
      MC_REQUIRE(m->polygonLayer.exists(x.id()) && m->polygonLayer.find(x.id())->constData() == x.constData(), "not-shared",
                 "polygon parameter is not the object in the map");
    }
    void operator()(const ConstWeakLanelet& x) override {
      MC_REQUIRE(!x.expired(), "expired", "a lanelet parameter is expired");
      MC_REQUIRE(m->laneletLayer.exists(x.lock().id()) && m->laneletLayer.find(x.lock().id())->constData() == x.lock().constData(),
                 "not-shared", "lanelet parameter is not the object in the map");
    }
    void operator()(const ConstWeakArea& x) override {
      MC_REQUIRE(!x.expired(), "expired", "an area parameter is expired");
      MC_REQUIRE(m->areaLayer.exists(x.lock().id()) && m->areaLayer.find(x.lock().id())->constData() == x.lock().constData(),
                 "not-shared", "area parameter is not the object in the map");
    }
  } v;
  v.p = ptIn;
  v.l = lsIn;
  v.m = &m;
  for (auto& r : m.regulatoryElementLayer) r->applyVisitor(v);
}

// ------------------------------------------------------------------ the space of maps
const std::vector<std::string>& texts() {
  static const std::vector<std::string> t = {
      "v", "", " ", "  two  blanks ", "a&b", "<tag>", "\"quoted\"", "it's", "&amp;", "&#10;", "line1\nline2", "tab\there", "cr\rend", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x9a\x97",
      "]]>", "<!-- x -->", "1e400", "50 km/h", "true", std::string(5000, 'x')};
  return t;
}
const std::vector<std::string>& keys() {
  static const std::vector<std::string> t = {"k", "key with blank", "k&<>\"'", "one_way", "subtype", "location", "\xc3\xa4", ":", "k", "v", "id", "lat", "ref", "role"};
  return t;
}
struct Dims {
  enum { TXT, KEY, ID, Z, POS, LL, AR, RE, EXTRA, N };
};
const int dimSize[] = {20, 14, 6, 7, 4, 14, 12, 15, 8};
const char* dimName[] = {"text", "key", "ids", "z", "position", "lanelets", "areas", "regulatory elements", "extra"};
struct Spec {
  int v[Dims::N] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
  std::string str() const {
    std::string s;
    for (int i = 0; i < Dims::N; ++i) {
      if (v[i] != 0) s += std::string(s.empty() ? "" : ", ") + dimName[i] + " #" + std::to_string(v[i]);
    }
    return s.empty() ? "base map" : s;
  }
};
struct World {
  LaneletMapUPtr map{std::make_unique<LaneletMap>()};
  Lanelets lls;
  Areas ars;
  std::vector<RegulatoryElementPtr> res;
};
struct Builder {
  const Spec& s;
  bool bin;
  Id n{0}, nPt{0}, nWay{0}, nRel{0};
  Builder(const Spec& s, bool bin) : s{s}, bin{bin} {}
  double ox{0}, oy{0};
  AttributeMap att(const std::string& extraKey = "", const std::string& extra = "") {
    AttributeMap a;
    a[keys()[size_t(s.v[Dims::KEY])]] = texts()[size_t(s.v[Dims::TXT])];
    a["fixed"] = "5";
    a["ele"] = "7";  // only of points this is reserved
    if (!extraKey.empty()) a[extraKey] = extra;
    return a;
  }
  Id id(int kind) {
    ++n;
    switch (s.v[Dims::ID]) {
      case 0:
        return 1000 + n;
      case 1:
        return -n;
      case 2:
        return (Id(1) << 61) + n;
      case 3:
        return n % 2 ? n : -n;
      case 4:  // one numbering per kind of osm element
        return kind == 0 ? ++nPt : kind == 1 ? ++nWay : ++nRel;
      default:
        return 1000 - n * 7;  // descending, some negative
    }
  }
  Point3d pt(double x, double y) {
    static const double zs[] = {0, 1.25, -3.5, 1e-9, 123456.789, 0.1 + 0.2, 1e-13};
    double z = zs[s.v[Dims::Z]];
    if (s.v[Dims::Z] == 5) z += x * 0.1;
    if (s.v[Dims::Z] == 6 && !bin) z = 2.00000000004;
    auto a = att();
    if (!bin) a.erase(a.find("ele"));
    return Point3d(id(0), ox + x, oy + y, z, a);
  }
  LineString3d ls(const Points3d& p, const std::string& type = "") { return LineString3d(id(1), p, type.empty() ? att() : att("type", type)); }
  Polygon3d pg(const Points3d& p) { return Polygon3d(id(1), p, att()); }
};
bool build(const Spec& s, bool bin, World& w) {
  Builder b(s, bin);
  const double pos[][2] = {{0, 0}, {1234.5678, -987.654321}, {-50000.25, 41000.125}, {1e-6, 3e5}};
  b.ox = pos[s.v[Dims::POS]][0];
  b.oy = pos[s.v[Dims::POS]][1];
  auto& m = *w.map;
  const int lc = s.v[Dims::LL];
  auto P = [&](double x, double y) { return b.pt(x, y); };
  auto ll = [&](LineString3d l, LineString3d r) {
    Lanelet x(b.id(2), l, r, b.att());
    w.lls.push_back(x);
    return x;
  };
  Point3d a0 = P(0, 0), a1 = P(5, 0.5), a2 = P(10, 0), b0 = P(0, 3), b1 = P(5, 3.25), b2 = P(10, 3), c0 = P(0, 6), c1 = P(10, 6);
  LineString3d right = b.ls({a0, a1, a2}), left = b.ls({b0, b1, b2}), left2 = b.ls({c0, c1});
  LineString3d leftB = b.ls({b2, b1, b0});  // stored the other way round
  // lanelets
  switch (lc) {
    case 0:
      ll(left, right);
      break;
    case 1:
      ll(left, right);
      ll(left2, left);
      break;
    case 2:  // right border stored against the direction
      ll(left, b.ls({a2, a1, a0}).invert());
      break;
    case 3:
      ll(leftB.invert(), right);
      ll(left2, leftB.invert());
      break;
    case 4:  // opposite direction on the other side
      ll(left, right);
      ll(left.invert(), left2.invert());
      break;
    case 5: {  // following lanelets share points
      ll(left, right);
      Point3d d = P(20, 0.5), e = P(20, 3.5);
      ll(b.ls({b2, e}), b.ls({a2, d}));
      break;
    }
    case 6: {
      auto l = ll(left, right);
      l.setCenterline(b.ls({P(0, 1.5), P(10, 1.6)}));
      w.lls[0] = l;
      break;
    }
    case 7: {  // the centerline consists of points of the bounds
      auto l = ll(left, right);
      l.setCenterline(b.ls({a0, b1, a2}));
      w.lls[0] = l;
      break;
    }
    case 8:  // the inverse is added
      ll(left, right);
      w.lls[0] = w.lls[0].invert();
      break;
    case 9: {  // two lanelets between the same bounds
      ll(left, right);
      ll(left, right);
      break;
    }
    case 10: {
      ll(left, right);
      w.lls.push_back(Lanelet(b.id(2), right.invert(), left.invert()));  // no attributes
      break;
    }
    case 11: {  // bounds that start or end in one point
      ll(b.ls({a0, b1, b2}), right);
      break;
    }
    case 12: {  // a turn
      Point3d e = P(3, -4), f = P(8, -5);
      ll(b.ls({b0, P(6, 2.5), f}), b.ls({a0, P(2.5, -0.5), e}));
      break;
    }
    default:
      break;  // no lanelets
  }
  // areas
  const int ac = s.v[Dims::AR];
  Point3d q[] = {P(20, 20), P(20, 30), P(30, 30), P(30, 20)};  // clockwise
  auto hole = [&](double x, double y, int parts) -> LineStrings3d {  // counter-clockwise
    Point3d h0 = P(x, y), h1 = P(x + 1, y), h2 = P(x + 1, y + 1), h3 = P(x, y + 1);
    if (parts == 1) return {b.ls({h0, h1, h2, h3, h0})};
    if (parts == 2) return {b.ls({h0, h1, h2}), b.ls({h0, h3, h2}).invert()};
    return {b.ls({h1, h0}).invert(), b.ls({h1, h2}), b.ls({h2, h3, h0})};
  };
  auto ar = [&](const LineStrings3d& o, const InnerBounds& i = {}) {
    Area x(b.id(2), o, i, b.att());
    w.ars.push_back(x);
  };
  auto seg = [&](int i, int j, bool inv) { return inv ? b.ls({q[j], q[i]}).invert() : b.ls({q[i], q[j]}); };
  switch (ac) {
    case 0:
      break;
    case 1:
      ar({b.ls({q[0], q[1], q[2], q[3], q[0]})});
      break;
    case 2:
      ar({b.ls({q[0], q[1], q[2]}), b.ls({q[2], q[3], q[0]})});
      break;
    case 3:
      ar({b.ls({q[2], q[1], q[0]}).invert(), b.ls({q[2], q[3], q[0]})});
      break;
    case 4:
      ar({b.ls({q[2], q[1], q[0]}).invert(), b.ls({q[0], q[3], q[2]}).invert()});
      break;
    case 5:
      ar({seg(0, 1, false), seg(1, 2, true), seg(2, 3, false), seg(3, 0, true)});
      break;
    case 6:
      ar({seg(0, 1, true), seg(1, 2, true), seg(2, 3, false), seg(3, 0, false)}, {hole(22, 22, 1)});
      break;
    case 7:
      ar({b.ls({q[0], q[1], q[2], q[3], q[0]})}, {hole(22, 22, 2), hole(25, 25, 3)});
      break;
    case 8:  // neighbours
    {
      auto sh = seg(2, 3, false);
      ar({b.ls({q[3], q[0], q[1], q[2]}), sh});
      ar({sh.invert(), b.ls({q[2], P(40, 30), P(40, 20), q[3]})});
      break;
    }
    case 9:  // borders the lanelet
      ar({left2.invert(), b.ls({c0, P(0, 12), P(10, 12), c1})}, {});
      std::rotate(w.ars.begin(), w.ars.begin(), w.ars.end());
      break;
    case 11: {  // two that are alike
      LineStrings3d o{seg(0, 1, false), seg(1, 2, true), seg(2, 3, false), seg(3, 0, true)};
      InnerBounds in{hole(22, 22, 2)};
      ar(o, in);
      ar(o, in);
      break;
    }
    default:
      ar({seg(0, 1, false), seg(1, 2, false), seg(2, 3, false), seg(3, 0, false)}, {hole(22, 22, 3), hole(24, 24, 1), hole(26, 22, 2)});
      break;
  }
  // regulatory elements
  const int rc = s.v[Dims::RE];
  auto carry = [&](const RegulatoryElementPtr& r, bool all) {
    w.res.push_back(r);
    for (auto& l : w.lls) {
      l.addRegulatoryElement(r);
      if (!all) break;
    }
  };
  auto light = [&] { return b.ls({P(11, 1), P(11, 2)}, "traffic_light"); };
  auto stop = [&] { return b.ls({P(9.5, 0), P(9.5, 3)}, "stop_line"); };
  const bool two = w.lls.size() > 1;
  switch (rc) {
    case 0:
      break;
    case 1:
      carry(TrafficLight::make(b.id(2), b.att(), {light()}, stop()), true);
      break;
    case 2:
      carry(TrafficLight::make(b.id(2), b.att(), {light(), b.pg({P(12, 0), P(12, 1), P(13, 0)}), light()}), false);
      break;
    case 3:
      carry(SpeedLimit::make(b.id(2), b.att(), "de274-60", {stop()}, {stop()}), true);
      break;
    case 4:
      carry(TrafficSign::make(b.id(2), b.att(), TrafficSignsWithType{{light(), b.pg({P(12, 0), P(12, 1), P(13, 0)})}, "de205"},
                              TrafficSignsWithType{{light()}, "de206"}, {stop()}, {stop(), stop()}), false);
      break;
    case 5:
      if (w.lls.empty()) return false;
      carry(RightOfWay::make(b.id(2), b.att(), Lanelets{w.lls.back()}, w.lls, stop()), true);
      break;
    case 6: {
      if (w.lls.empty()) return false;
      LaneletsWithStopLines x;
      for (auto& l : w.lls) x.push_back({l, stop()});
      carry(AllWayStop::make(b.id(2), b.att(), x, {light()}), true);
      break;
    }
    case 7: {  // every kind of parameter in one role, in an order that is no natural one
      if (w.lls.empty() || w.ars.empty()) return false;
      RuleParameterMap p;
      p["mixed role"] = {w.lls.back(), P(1, 1), w.ars[0], stop(), w.lls[0], b.pg({P(12, 0), P(12, 1), P(13, 0)}), WeakArea(w.ars.back()), light()};
      p["refers"] = {w.ars[0]};
      auto r = std::make_shared<GenericRegulatoryElement>(b.id(2), p, b.att("subtype", GenericRegulatoryElement::RuleName));
      carry(r, true);
      w.ars[0].addRegulatoryElement(r);
      break;
    }
    case 8: {  // several on one lanelet, not in the order of their ids
      Id i1 = b.id(2), i2 = b.id(2), i3 = b.id(2);
      carry(SpeedLimit::make(i3, {}, "de274-30"), true);
      carry(SpeedLimit::make(i1, {}, "de274-50"), true);
      carry(TrafficLight::make(i2, {}, {light()}), false);
      break;
    }
    case 9: {  // no one carries it
      w.res.push_back(TrafficLight::make(b.id(2), b.att(), {light(), light()}, stop()));
      m.add(w.res.back());
      break;
    }
    case 10: {  // carried by an area
      if (w.ars.empty()) return false;
      auto r = SpeedLimit::make(b.id(2), b.att(), "de274-10");
      w.ars.back().addRegulatoryElement(r);
      break;
    }
    case 11: {  // refer to each other's carriers
      if (!two) return false;
      auto r1 = RightOfWay::make(b.id(2), b.att(), Lanelets{w.lls[0]}, Lanelets{w.lls[1]});
      auto r2 = RightOfWay::make(b.id(2), b.att(), Lanelets{w.lls[1]}, Lanelets{w.lls[0]});
      w.lls[0].addRegulatoryElement(r1);
      w.lls[1].addRegulatoryElement(r2);
      w.lls[0].addRegulatoryElement(r2);
      break;
    }
    case 13:  // two that are alike but for their ids
    case 14: {
      auto l = light();
      auto st = stop();
      for (int k = 0; k < 2; ++k) {
        RegulatoryElementPtr r;
        if (rc == 13) {
          l.setAttribute("subtype", "de274");
          r = SpeedLimit::make(b.id(2), b.att(), TrafficSignsWithType{{l}, ""});
        } else {
          r = TrafficLight::make(b.id(2), b.att(), {l, l}, st);
        }
        carry(r, true);
        for (auto& a : w.ars) a.addRegulatoryElement(r);
      }
      break;
    }
    default: {  // an empty one and one with an unusual role
      RuleParameterMap p;
      p[texts()[size_t(s.v[Dims::TXT])] + "role"] = {stop(), light()};
      carry(std::make_shared<GenericRegulatoryElement>(b.id(2), p, b.att("subtype", GenericRegulatoryElement::RuleName)), true);
      break;
    }
  }
  switch (s.v[Dims::EXTRA]) {
    case 0:
      break;
    case 1:
      m.add(P(100, 100));
      m.add(b.pg({P(50, 50), P(50, 60), P(60, 50)}));
      break;
    case 2: {
      auto c = P(70, 70), d = P(71, 70), e = P(71, 71);
      m.add(b.ls({c, d, e, c}));
      m.add(b.pg({c, e, d}));
      break;
    }
    case 3: {
      auto c = P(70, 70), d = P(71, 70);
      m.add(b.ls({c, d, c, c, d}));
      m.add(b.ls({c}));
      break;
    }
    case 4:
      m.add(b.ls({P(70, 70), P(71, 70)}).invert());
      break;
    case 5: {
      auto l = b.ls({P(70, 70), P(71, 70)});
      l.attributes().clear();
      l[0].attributes().clear();
      m.add(l);
      break;
    }
    case 7: {  // twins
      auto c = P(70, 70), d = P(71, 70), e = P(71, 71);
      for (int k = 0; k < 2; ++k) {
        m.add(b.ls({c, d, e, c}));
        m.add(b.ls({c, d, e}));
        m.add(b.pg({c, d, e}));
        m.add(P(72, 72));
      }
      break;
    }
    default: {  // many attributes
      auto p = P(70, 70);
      for (size_t i = 0; i < keys().size(); ++i) p.setAttribute(keys()[i] + "x", texts()[i]);
      m.add(p);
      break;
    }
  }
  for (auto& l : w.lls) m.add(l);
  for (auto& a : w.ars) m.add(a);
  return true;
}
//! every map that differs in at most k dimensions from a base, simplest first
template <typename F>
void forSpecs(int k, F&& f) {
  for (int level = 0; level <= k; ++level) {
    std::vector<int> dims;
    std::function<void(int, Spec)> rec = [&](int from, Spec s) {
      if (int(dims.size()) == level) {
        f(s);
        return;
      }
      for (int d = from; d < Dims::N; ++d) {
        dims.push_back(d);
        for (int x = 1; x < dimSize[d]; ++x) {
          Spec t = s;
          t.v[d] = x;
          rec(d + 1, t);
        }
        dims.pop_back();
      }
    };
    rec(0, Spec());
  }
}
//! everything structural combined
template <typename F>
void forStructures(F&& f) {
  for (int l = 0; l < dimSize[Dims::LL]; ++l) {
    for (int a = 0; a < dimSize[Dims::AR]; ++a) {
      for (int r = 0; r < dimSize[Dims::RE]; ++r) {
        for (int i : {0, 1, 4, 5}) {
          Spec s;
          s.v[Dims::LL] = l;
          s.v[Dims::AR] = a;
          s.v[Dims::RE] = r;
          s.v[Dims::ID] = i;
          f(s);
        }
      }
    }
  }
}
std::string errs(const ErrorMessages& e) { return mc::join(e, " | "); }

void ioRoundtrip(mc::Ctx& c, bool bin) {
  const Origin origin(GPSPoint{49, 8.4, 0});
  auto one = [&](const Spec& s, int how) {
    c.run([&] { return s.str() + "; route " + std::to_string(how); }, [&] {
      World w;
      if (!build(s, bin, w)) return;
      const DumpOpts opts{!bin, bin};
      auto want = dump(*w.map, opts);
      ErrorMessages e;
      std::unique_ptr<LaneletMap> got;
      const std::string f = c.scratch + (bin ? "/m.bin" : "/m.osm");
      Id before = utils::getId();
      auto proj = defaultProjection(origin);
      if (how == 0) {
        write(f, *w.map, origin, &e);
        MC_REQUIRE(e.empty(), "write-errors", "writing reports " << errs(e));
        got = load(f, origin, &e);
        MC_REQUIRE(e.empty(), "load-errors", "loading reports " << errs(e));
      } else if (how == 1) {  // without a place for errors, by handler name
        const std::string g = c.scratch + "/m.other";
        write(g, *w.map, bin ? "bin_handler" : "osm_handler", proj);
        got = load(g, bin ? "bin_handler" : "osm_handler", proj);
        const std::string g2 = c.scratch + "/m.another";
        write(g2, *w.map, bin ? "bin_handler" : "osm_handler", origin);
        same(want, dump(*load(g2, bin ? "bin_handler" : "osm_handler", origin), opts), "after writing and loading by name and origin");
      } else {  // twice
        write(f, *w.map, proj);
        auto first = load(f, proj);
        write(f, *first, proj);
        got = load(f, proj);
      }
      c.step(2);
      same(want, dump(*got, opts), "after writing and loading");
      same(want, dump(*w.map, opts), "in the map that was written");
      if (!bin) {
        const double big = s.v[Dims::Z] == 4 ? 1e-6 : 1e-10;
        sameCoordinates(*w.map, *got, 2e-6, s.v[Dims::Z] == 6 || s.v[Dims::Z] == 3 ? 1e-11 : big);
      }
      identity(*got);
      Id top = 0;
      for (auto& d : want) top = std::max(top, Id(std::stoll(d.first.substr(d.first.find_first_of("-0123456789")))));
      MC_REQUIRE(utils::getId() > top, "id-not-registered", "getId() hands out ids of the loaded map");
      c.state(s.str());
      c.outcome(std::to_string(want.size()));
    });
  };
  forSpecs(c.quick ? 2 : 3, [&](const Spec& s) {
    if (!c.quick && s.v[Dims::TXT] > 4 && s.v[Dims::KEY] > 4) return;
    one(s, 0);
  });
  forSpecs(1, [&](const Spec& s) {
    one(s, 1);
    one(s, 2);
  });
  forStructures([&](const Spec& s) {
    if (c.quick && s.v[Dims::ID] != 0 && s.v[Dims::ID] != 5) return;
    one(s, c.quick ? 0 : 2);
  });
}
void i01(mc::Ctx& c) { ioRoundtrip(c, false); }
void i02(mc::Ctx& c) { ioRoundtrip(c, true); }

// ------------------------------------------------------------------ I03: the disk fills up after every number of bytes
void i03(mc::Ctx& c) {
  signal(SIGXFSZ, SIG_IGN);
  const Origin origin(GPSPoint{49, 8.4, 0});
  std::vector<Spec> specs(3);
  specs[1].v[Dims::LL] = 5;
  specs[1].v[Dims::RE] = 3;
  specs[1].v[Dims::AR] = 7;
  specs[2] = specs[1];
  specs[2].v[Dims::TXT] = 19;  // long texts: many blocks
  for (bool bin : {false, true}) {
    const std::string ext = bin ? ".bin" : ".osm";
    for (size_t k = 0; k < specs.size(); ++k) {
      World w;
      build(specs[k], bin, w);
      const std::string ref = c.scratch + "/ref" + ext;
      write(ref, *w.map, origin);
      const std::string full = slurp(ref);
      const size_t stepBig = c.quick ? 509 : 61;
      for (size_t n = 0; n <= full.size() + 1;) {
        for (bool exists : {false, true}) {
          if (exists && n % 4 != 0 && n + 40 < full.size()) continue;
          c.run([&] { return "map " + std::to_string(k) + ext + (exists ? ", over an old file" : "") + ", no space after " + std::to_string(n) + " of " + std::to_string(full.size()) + " bytes"; }, [&] {
            const std::string f = c.scratch + "/out" + ext;
            unlink(f.c_str());
            if (exists) spill(f, full.substr(0, full.size() / 2));
            struct rlimit old {};
            getrlimit(RLIMIT_FSIZE, &old);
            struct rlimit lim = old;
            lim.rlim_cur = n;
            std::string how;
            setrlimit(RLIMIT_FSIZE, &lim);
            try {
              ErrorMessages e;
              write(f, *w.map, origin, n % 2 == 0 ? &e : nullptr);
              how = e.empty() ? "" : "message";
            } catch (const IOError& x) {
              how = "IOError";
            } catch (const std::exception& x) {
              how = std::string("other exception: ") + x.what();
            }
            setrlimit(RLIMIT_FSIZE, &old);
            c.step();
            const bool fits = n >= full.size();
            const std::string got = slurp(f);
            if (fits) {
              MC_REQUIRE(how.empty(), "spurious-write-error", "writing reports '" << how << "' although the file could be written");
              MC_REQUIRE(bin || got == full, "file-content", "the same map leads to different files");
            } else {
              MC_REQUIRE(!how.empty(), "write-failure-not-reported", "only " << got.size() << " of " << full.size() << " bytes were written, but write() returned normally");
              MC_REQUIRE(how.rfind("other", 0) != 0, "write-failure-type", "write() throws no IOError: " << how);
            }
            c.state(std::to_string(k) + ext + std::to_string(got.size()));
            c.outcome(how);
          });
        }
        const bool edge = n < 40 || n + 40 >= full.size() || n % 4096 < 3 || n % 4096 > 4093 || n % 8191 < 2;
        n += k == 0 || edge ? 1 : std::min<size_t>(stepBig, full.size() - 40 > n ? full.size() - 40 - n : 1);
        if (k != 0 && !edge) {  // do not step over the borders of blocks
          size_t prev = n - 1;
          (void)prev;
        }
      }
      // places that can not be written at all
      int i = 0;
      for (std::string f : {c.scratch + "/nodir/x" + ext, c.scratch + "/dir" + ext, std::string("/dev/full")}) {
        ++i;
        c.run([&] { return "map " + std::to_string(k) + ext + ", target " + std::to_string(i); }, [&] {
          mkdir((c.scratch + "/dir" + ext).c_str(), 0700);
          std::string how;
          try {
            write(f, *w.map, bin ? "bin_handler" : "osm_handler", origin);
          } catch (const IOError&) {
            how = "IOError";
          } catch (const std::exception& x) {
            how = x.what();
          }
          MC_REQUIRE(how == "IOError", "write-failure-not-reported", "write() to a place that can not be written: '" << how << "'");
        });
      }
    }
    c.run([&] { return "unknown names" + ext; }, [&] {
      World w;
      build(specs[0], bin, w);
      int ok = 0;
      try {
        write(c.scratch + "/x.unknown", *w.map, origin);
      } catch (const UnsupportedExtensionError&) {
        ++ok;
      }
      try {
        write(c.scratch + "/x" + ext, *w.map, "no such handler", origin);
      } catch (const UnsupportedIOHandlerError&) {
        ++ok;
      }
      try {
        load(c.scratch + "/does not exist" + ext, origin);
      } catch (const FileNotFoundError&) {
        ++ok;
      }
      spill(c.scratch + "/y.unknown", "x");
      try {
        load(c.scratch + "/y.unknown", origin);
      } catch (const UnsupportedExtensionError&) {
        ++ok;
      }
      try {
        load(c.scratch + "/y.unknown", "no such handler", origin);
      } catch (const UnsupportedIOHandlerError&) {
        ++ok;
      }
      MC_REQUIRE(ok == 5, "unsupported", "an unsupported name was not reported as documented");
    });
  }
}

// ------------------------------------------------------------------ I04
//! a map that came from a damaged file has to be usable like any other
void useMap(mc::Ctx& c, LaneletMap& m) {
  dump(m, {});
  m.laneletLayer.search(BoundingBox2d(BasicPoint2d(-1e9, -1e9), BasicPoint2d(1e9, 1e9)));
  for (auto l : m.laneletLayer) {
    l.centerline();
    l.polygon3d();
  }
  for (auto a : m.areaLayer) a.outerBoundPolygon().basicPolygon();
  ErrorMessages e;
  for (const char* ext : {"/again.osm", "/again.bin"}) {
    try {
      write(c.scratch + ext, m, Origin(GPSPoint{49, 8, 0}), &e);
    } catch (const LaneletError&) {  // e.g. parameters that do not exist
    }
  }
}
std::string damaged(mc::Ctx& c, const std::string& f, const Origin& o, bool use) {
  ErrorMessages e;
  std::string how;
  try {
    auto m = load(f, o, &e);
    MC_REQUIRE(m != nullptr, "null-map", "load() returns no map");
    how = e.empty() ? "loaded" : "loaded with errors";
    if (use) useMap(c, *m);
  } catch (const mc::Failure&) {
    throw;
  } catch (const IOError&) {
    how = "IOError";
  } catch (const std::exception& x) {
    throw mc::Failure{"load-failure-type", std::string("load() throws no IOError but: ") + x.what()};
  }
  return how;
}
const char* damageBase = R"(<?xml version="1.0"?>
<osm version="0.6" upload="false" generator="lanelet2">
  <node id="1" lat="49.0000" lon="8.0000"><tag k="ele" v="2.5"/></node>
  <node id="2" lat="49.0000" lon="8.0010" />
  <node id="3" lat="49.0001" lon="8.0000" />
  <node id="4" lat="49.0001" lon="8.0010" />
  <node id="5" lat="49.0003" lon="8.0010" />
  <way id="11"><nd ref="1"/><nd ref="2"/><tag k="type" v="curbstone"/></way>
  <way id="12"><nd ref="3"/><nd ref="4"/></way>
  <way id="13"><nd ref="4"/><nd ref="5"/><nd ref="3"/></way>
  <way id="14"><nd ref="1"/><nd ref="4"/><nd ref="5"/><tag k="area" v="yes"/></way>
  <relation id="21"><member type="way" ref="12" role="left"/><member type="way" ref="11" role="right"/><member type="way" ref="13" role="centerline"/><member type="relation" ref="23" role="regulatory_element"/><tag k="type" v="lanelet"/></relation>
  <relation id="22"><member type="way" ref="12" role="outer"/><member type="way" ref="13" role="outer"/><member type="relation" ref="24" role="regulatory_element"/><tag k="type" v="multipolygon"/></relation>
  <relation id="23"><member type="relation" ref="21" role="yield"/><member type="relation" ref="21" role="right_of_way"/><member type="way" ref="11" role="ref_line"/><tag k="type" v="regulatory_element"/><tag k="subtype" v="right_of_way"/></relation>
  <relation id="24"><member type="way" ref="14" role="refers"/><member type="relation" ref="22" role="cancels"/><member type="node" ref="1" role="refers"/><tag k="type" v="regulatory_element"/><tag k="subtype" v="regulatory_element"/></relation>
</osm>
)";
void i04(mc::Ctx& c) {
  const Origin o(GPSPoint{49, 8, 0});
  const std::string base = damageBase;
  auto go = [&](const std::string& what, const std::string& text) {
    c.run([&] { return what; }, [&] {
      const std::string f = c.scratch + "/d.osm";
      spill(f, text);
      auto r = damaged(c, f, o, true);
      c.step();
      c.outcome(r);
      c.state(mc::hashStr(text));
    });
  };
  // the whole file is fine
  c.run([&] { return "the undamaged file"; }, [&] {
    const std::string f = c.scratch + "/d.osm";
    spill(f, base);
    ErrorMessages e;
    auto m = load(f, o, &e);
    MC_REQUIRE(e.empty() && m->laneletLayer.size() == 1 && m->areaLayer.size() == 1 && m->regulatoryElementLayer.size() == 2, "undamaged", "does not load: " << errs(e));
  });
  // truncations
  for (size_t n = 0; n < base.size(); ++n) go("truncated after " + std::to_string(n), base.substr(0, n));
  // single bytes
  const std::string bytes = c.quick ? std::string("0<\"") : std::string("019-x<>\"/&= \n", 13) + std::string(1, 0) + "\xff";
  for (size_t n = 0; n < base.size(); ++n) {
    go("without byte " + std::to_string(n), base.substr(0, n) + base.substr(n + 1));
    for (char b : bytes) {
      if (base[n] == b) continue;
      std::string t = base;
      t[n] = b;
      go("byte " + std::to_string(n) + " set to " + std::to_string(int(b)), t);
    }
  }
  // values of xml attributes
  std::vector<std::pair<size_t, size_t>> vals;
  for (size_t i = base.find("<osm"); (i = base.find("=\"", i)) != std::string::npos;) {
    i += 2;
    size_t e = base.find('"', i);
    vals.push_back({i, e - i});
    i = e;
  }
  const std::vector<std::string> nasty = {"", "0", "-1", "1", "3", "4", "11", "12", "13", "14", "21", "22", "23", "24", "99", "9223372036854775807", "-9223372036854775808", "99999999999999999999",
                                          "1e400", "nan", "-inf", "90", "-90", "180", "0x10", "node", "way", "relation", "lanelet", "multipolygon", "regulatory_element", "left",
                                          "right", "outer", "inner", "centerline", "refers", "yes", "true", "delete", "traffic_light", "speed_limit", "all_way_stop", "right_of_way", "area", "ele", "type", "subtype"};
  auto replaced = [&](std::vector<std::pair<size_t, std::string>> r) {  // by index of value, descending
    std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first > b.first; });
    std::string t = base;
    for (auto& x : r) t.replace(vals[x.first].first, vals[x.first].second, x.second);
    return t;
  };
  for (size_t i = 0; i < vals.size(); ++i) {
    for (auto& v : nasty) go("value " + std::to_string(i) + " = '" + v + "'", replaced({{i, v}}));
  }
  for (size_t i = 0; i < vals.size(); ++i) {
    for (size_t j = i + 1; j < vals.size(); ++j) {
      if (c.quick && (j - i) > 3) continue;
      for (auto& v : {"4", "21", "22", "99", "relation", "way"}) {
        for (auto& u : {"1", "12", "23", "", "node", "regulatory_element"}) {
          go("values " + std::to_string(i) + " " + std::to_string(j) + " = '" + v + "' '" + u + "'", replaced({{i, v}, {j, u}}));
        }
      }
    }
  }
  // lines doubled, moved, removed in pairs
  std::vector<std::string> lines;
  std::stringstream ss(base);
  for (std::string l; std::getline(ss, l);) lines.push_back(l);
  auto text = [&](const std::vector<std::string>& v) { return mc::join(v, "\n") + "\n"; };
  for (size_t i = 1; i < lines.size(); ++i) {
    for (size_t j = 0; j <= lines.size(); ++j) {
      auto v = lines;
      v.insert(v.begin() + long(j), lines[i]);
      go("line " + std::to_string(i) + " again before line " + std::to_string(j), text(v));
      if (j < lines.size()) {
        v = lines;
        std::swap(v[i], v[j]);
        go("lines " + std::to_string(i) + " and " + std::to_string(j) + " exchanged", text(v));
      }
    }
  }
  // binary: every truncation of archives of several maps
  std::vector<Spec> specs(4);
  specs[1].v[Dims::LL] = 6;
  specs[1].v[Dims::RE] = 5;
  specs[2].v[Dims::AR] = 7;
  specs[2].v[Dims::LL] = 1;
  specs[2].v[Dims::RE] = 7;
  specs[3].v[Dims::LL] = 4;
  specs[3].v[Dims::RE] = 11;
  for (size_t k = 0; k < specs.size(); ++k) {
    World w;
    build(specs[k], true, w);
    const std::string ref = c.scratch + "/ref.bin";
    write(ref, *w.map, o);
    const std::string full = slurp(ref);
    for (size_t n = 0; n < full.size(); ++n) {
      c.run([&] { return "archive " + std::to_string(k) + " truncated after " + std::to_string(n); }, [&] {
        const std::string f = c.scratch + "/t.bin";
        spill(f, full.substr(0, n));
        auto r = damaged(c, f, o, false);
        c.step();
        c.outcome("bin " + r);
        c.state(std::to_string(k) + ":" + std::to_string(n));
        MC_REQUIRE(r == "IOError", "truncated-archive-loaded", "a truncated archive is " << r);
      });
    }
  }
  c.run([&] { return std::string("files that are something else"); }, [&] {
    for (std::string t : {std::string(), std::string("x"), base, std::string(1000, '\0'), std::string(1000, '\xff')}) {
      for (const char* h : {"bin_handler", "osm_handler"}) {
        if (h == std::string("osm_handler") && t == base) continue;
        spill(c.scratch + "/z", t);
        bool io = false;
        try {
          load(c.scratch + "/z", h, o);
        } catch (const IOError&) {
          io = true;
        }
        MC_REQUIRE(io, "garbage-loaded", "garbage is loaded by " << h);
      }
    }
  });
}

// ------------------------------------------------------------------ I05
struct Elem {
  std::string key;       // as in dumps
  std::string xml;
  std::vector<std::string> refs;   // direct references
};
std::vector<Elem> smallFile() {
  std::vector<Elem> v;
  auto node = [&](int i, const char* lat, const char* lon) { v.push_back({"P" + std::to_string(i), "<node id='" + std::to_string(i) + "' lat='" + lat + "' lon='" + lon + "'/>", {}}); };
  node(1, "49.0000", "8.0000");
  node(2, "49.0000", "8.0010");
  node(3, "49.0001", "8.0000");
  node(4, "49.0001", "8.0010");
  node(5, "49.0003", "8.0010");
  v.push_back({"L11", "<way id='11'><nd ref='1'/><nd ref='2'/></way>", {"P1", "P2"}});
  v.push_back({"L12", "<way id='12'><nd ref='3'/><nd ref='4'/></way>", {"P3", "P4"}});
  v.push_back({"L13", "<way id='13'><nd ref='4'/><nd ref='5'/><nd ref='3'/></way>", {"P4", "P5", "P3"}});
  v.push_back({"G14", "<way id='14'><nd ref='1'/><nd ref='4'/><nd ref='5'/><tag k='area' v='yes'/></way>", {"P1", "P4", "P5"}});
  v.push_back({"LL21", "<relation id='21'><member type='way' ref='12' role='left'/><member type='way' ref='11' role='right'/><member type='relation' ref='23' role='regulatory_element'/><member type='relation' ref='24' role='regulatory_element'/><tag k='type' v='lanelet'/></relation>",
               {"L12", "L11", "R23", "R24"}});
  v.push_back({"A22", "<relation id='22'><member type='way' ref='13' role='outer'/><member type='way' ref='12' role='outer'/><member type='relation' ref='24' role='regulatory_element'/><tag k='type' v='multipolygon'/></relation>",
               {"L12", "L13", "R24"}});
  v.push_back({"R23", "<relation id='23'><member type='relation' ref='21' role='yield'/><member type='relation' ref='25' role='yield'/><member type='relation' ref='25' role='right_of_way'/><member type='way' ref='11' role='ref_line'/><tag k='type' v='regulatory_element'/><tag k='subtype' v='right_of_way'/></relation>",
               {"LL21", "LL25", "L11"}});
  v.push_back({"R24", "<relation id='24'><member type='relation' ref='22' role='refers'/><member type='way' ref='14' role='refers'/><member type='relation' ref='25' role='refers'/><member type='relation' ref='21' role='refers'/><member type='node' ref='1' role='refers'/><tag k='type' v='regulatory_element'/><tag k='subtype' v='regulatory_element'/></relation>",
               {"A22", "G14", "LL25", "LL21", "P1"}});
  v.push_back({"LL25", "<relation id='25'><member type='way' ref='11' role='left'/><member type='way' ref='12' role='right'/><tag k='type' v='lanelet'/></relation>", {"L11", "L12"}});
  return v;
}
void i05(mc::Ctx& c) {
  const Origin o(GPSPoint{49, 8, 0});
  const auto el = smallFile();
  const size_t K = el.size();
  Dump fullDump;
  {
    std::string t = "<osm>";
    for (auto& e : el) t += e.xml;
    spill(c.scratch + "/full.osm", t + "</osm>");
    fullDump = dump(*load(c.scratch + "/full.osm", o), {});
  }
  std::map<std::string, size_t> at;
  for (size_t i = 0; i < K; ++i) at[el[i].key] = i;
  auto idText = [](const std::string& key) { return key.substr(key.find_first_of("0123456789")); };
  // hollow elements are there with their ids, but are ways without nodes or relations that nobody knows: they can not be loaded
  auto hollowOf = [&](size_t i) { return (el[i].key[0] == 'L' && el[i].key[1] != 'L') || el[i].key[0] == 'G' ? "<way id='" + idText(el[i].key) + "'/>" : "<relation id='" + idText(el[i].key) + "'><tag k='type' v='something'/></relation>"; };
  auto loadCase = [&](unsigned removed, unsigned hollow, int order) {
      c.run([&] {
        std::string s = order ? "file in reverse order, without" : "file without";
        for (size_t i = 0; i < K; ++i) {
          if ((removed >> i) & 1) s += " " + el[i].key;
        }
        if (hollow) s += ", hollow:";
        for (size_t i = 0; i < K; ++i) {
          if ((hollow >> i) & 1) s += " " + el[i].key;
        }
        return s;
      }, [&] {
        std::string t = "<osm>";
        for (size_t k = 0; k < K; ++k) {
          size_t i = order ? K - 1 - k : k;
          if (!((removed >> i) & 1)) t += (hollow >> i) & 1 ? hollowOf(i) : el[i].xml;
        }
        spill(c.scratch + "/s.osm", t + "</osm>");
        ErrorMessages e;
        auto m = load(c.scratch + "/s.osm", o, &e);
        c.step();
        // what is whole: everything it refers to, directly or not, is there
        std::vector<bool> there(K), dangling(K, false);
        bool any = false;
        for (size_t i = 0; i < K; ++i) {
          there[i] = !(((removed | hollow) >> i) & 1);
          any |= ((hollow >> i) & 1) != 0 && hollowOf(i)[1] == 'w';
        }
        for (size_t i = 0; i < K; ++i) {
          for (auto& r : el[i].refs) {
            if (there[i] && !there[at[r]]) {
              dangling[i] = true;
              any = true;
            }
          }
        }
        std::vector<bool> whole = there;
        for (bool ch = true; ch;) {
          ch = false;
          for (size_t i = 0; i < K; ++i) {
            if (!whole[i]) continue;
            for (auto& r : el[i].refs) {
              if (!whole[at[r]]) {
                whole[i] = false;
                ch = true;
                break;
              }
            }
          }
        }
        auto d = dump(*m, {});
        for (size_t i = 0; i < K; ++i) {
          if (!whole[i]) continue;
          MC_REQUIRE(d.count(el[i].key) != 0, "whole-element-lost", el[i].key << " is missing although everything it refers to is there");
          MC_REQUIRE(d[el[i].key] == fullDump[el[i].key], "whole-element-changed", el[i].key << " is " << d[el[i].key] << " instead of " << fullDump[el[i].key]);
        }
        for (auto& x : d) {  // a reference to something that is not there may leave an empty object of that id, nothing else
          bool known = at.count(x.first) != 0;
          if (known && there[at[x.first]]) continue;
          bool named = false;
          for (size_t i = 0; i < K; ++i) {
            if (there[i]) {
              for (auto& r : el[i].refs) named = named || idText(r) == idText(x.first);
            }
          }
          MC_REQUIRE(named, "element-invented", x.first << " was not in the file and nothing refers to it");
        }
        MC_REQUIRE(e.empty() == !any, "dangling-report", (any ? "no errors are reported although references dangle" : "errors are reported although nothing dangles: ") << errs(e));
        for (size_t i = 0; i < K; ++i) {
          if (!dangling[i]) continue;
          bool named = false;
          for (auto& msg : e) named = named || msg.find(idText(el[i].key)) != std::string::npos;
          MC_REQUIRE(named, "dangling-not-named", el[i].key << " has a dangling reference but no message names it: " << errs(e));
        }
        bool threw = false;
        try {
          load(c.scratch + "/s.osm", o);
        } catch (const ParseError&) {
          threw = true;
        }
        MC_REQUIRE(threw == any, "dangling-throw", "load() without a place for errors " << (threw ? "throws" : "does not throw"));
        // and the result can be written
        ErrorMessages e2;
        write(c.scratch + "/w.osm", *m, o, &e2);
        auto m2 = load(c.scratch + "/w.osm", o, &e2);
        auto d2 = dump(*m2, {true, false});
        auto d1 = dump(*m, {true, false});
        for (size_t i = 0; i < K; ++i) {
          if (whole[i]) MC_REQUIRE(d2[el[i].key] == d1[el[i].key], "whole-element-changed", el[i].key << " changes when the map is written: " << d2[el[i].key] << " instead of " << d1[el[i].key]);
        }
        c.state(mc::join(e, "|"));
        c.outcome(std::to_string(e.size()));
      });
  };
  for (unsigned removed = 0; removed < (1U << K); ++removed) {
    if (c.quick && __builtin_popcount(removed) > 4) continue;
    for (int order = 0; order < (c.quick ? 1 : 2); ++order) loadCase(removed, 0, order);
  }
  for (unsigned hollow = 32; hollow < (1U << K); hollow += 32) {  // nodes can not be hollow
    for (unsigned removed = 0; removed < (1U << K); ++removed) {
      if ((removed & hollow) == 0 && __builtin_popcount(removed | hollow) <= (c.quick ? 3 : 5)) loadCase(removed, hollow, 0);
    }
  }
  // maps whose layers lack what their elements refer to
  for (unsigned removed = 0; removed < (1U << K); ++removed) {
    if (__builtin_popcount(removed) > (c.quick ? 3 : 6)) continue;
    c.run([&] {
      std::string s = "written map without";
      for (size_t i = 0; i < K; ++i) {
        if ((removed >> i) & 1) s += " " + el[i].key;
      }
      return s;
    }, [&] {
      auto m = load(c.scratch + "/full.osm", o);
      auto there = [&](const std::string& k) { return !((removed >> at[k]) & 1); };
      LaneletLayer::Map lls;
      AreaLayer::Map ars;
      RegulatoryElementLayer::Map res;
      PolygonLayer::Map pgs;
      LineStringLayer::Map lss;
      PointLayer::Map pts;
      for (auto x : m->laneletLayer) if (there("LL" + idOf(x.id()))) lls.emplace(x.id(), x);
      for (auto x : m->areaLayer) if (there("A" + idOf(x.id()))) ars.emplace(x.id(), x);
      for (auto x : m->regulatoryElementLayer) if (there("R" + idOf(x->id()))) res.emplace(x->id(), x);
      for (auto x : m->polygonLayer) if (there("G" + idOf(x.id()))) pgs.emplace(x.id(), x);
      for (auto x : m->lineStringLayer) if (there("L" + idOf(x.id()))) lss.emplace(x.id(), x);
      for (auto x : m->pointLayer) if (there("P" + idOf(x.id()))) pts.emplace(x.id(), x);
      LaneletMap part(lls, ars, res, pgs, lss, pts);
      bool any = false;
      std::vector<bool> dangling(K, false);
      for (size_t i = 0; i < K; ++i) {
        for (auto& r : el[i].refs) {
          if (there(el[i].key) && !there(r)) any = dangling[i] = true;
        }
      }
      ErrorMessages e;
      write(c.scratch + "/p.osm", part, o, &e);
      c.step();
      MC_REQUIRE(e.empty() == !any, "dangling-write-report", (any ? "nothing is reported although references dangle" : "errors are reported although nothing dangles: ") << errs(e));
      for (size_t i = 0; i < K; ++i) {
        if (!dangling[i]) continue;
        bool named = false;
        for (auto& msg : e) named = named || msg.find(idText(el[i].key)) != std::string::npos;
        MC_REQUIRE(named, "dangling-not-named", el[i].key << " has a dangling reference but no message names it: " << errs(e));
      }
      bool threw = false;
      try {
        write(c.scratch + "/p2.osm", part, o);
      } catch (const WriteError&) {
        threw = true;
      }
      MC_REQUIRE(threw == any, "dangling-write-throw", "write() without a place for errors");
      // everything else is in the file: it loads like the part of the file that is whole
      ErrorMessages e2;
      auto back = load(c.scratch + "/p.osm", o, &e2);
      auto d = dump(*back, {});
      std::vector<bool> whole(K);
      for (size_t i = 0; i < K; ++i) whole[i] = there(el[i].key);
      for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < K; ++i) {
          if (!whole[i]) continue;
          for (auto& r : el[i].refs) {
            if (!whole[at[r]]) {
              whole[i] = false;
              ch = true;
              break;
            }
          }
        }
      }
      auto coords = [](Dump x) { return x; };
      (void)coords;
      auto dOsm = dump(*back, {true, false});
      auto fOsm = dump(*m, {true, false});
      for (size_t i = 0; i < K; ++i) {
        if (!whole[i]) continue;
        MC_REQUIRE(dOsm.count(el[i].key) != 0 && dOsm[el[i].key] == fOsm[el[i].key], "whole-element-changed",
                   el[i].key << " is " << (dOsm.count(el[i].key) ? dOsm[el[i].key] : "missing") << " instead of " << fOsm[el[i].key]);
      }
      c.state(mc::join(e, "|"));
      c.outcome(std::to_string(e.size()));
    });
  }
}

// ------------------------------------------------------------------ I07: documents of elements
struct DocNode {
  Id id;
  double lat, lon, ele;
  osm::Attributes attrs;
};
struct DocWay {
  Id id;
  std::vector<Id> nodes;
  osm::Attributes attrs;
};
struct DocMember {
  std::string role;
  char type;  // n, w or r
  Id id;
};
struct DocRelation {
  Id id;
  std::vector<DocMember> members;
  osm::Attributes attrs;
};
struct Doc {
  std::vector<DocNode> nodes;
  std::vector<DocWay> ways;
  std::vector<DocRelation> relations;
};
osm::File makeFile(const Doc& d) {
  osm::File f;
  for (auto& n : d.nodes) f.nodes[n.id] = osm::Node(n.id, n.attrs, GPSPoint{n.lat, n.lon, n.ele});
  for (auto& w : d.ways) {
    std::vector<osm::Node*> v;
    for (auto i : w.nodes) v.push_back(&f.nodes.at(i));
    f.ways[w.id] = osm::Way(w.id, w.attrs, v);
  }
  for (auto& r : d.relations) f.relations[r.id] = osm::Relation(r.id, r.attrs);
  for (auto& r : d.relations) {
    for (auto& m : r.members) {
      osm::Primitive* p = m.type == 'n' ? static_cast<osm::Primitive*>(&f.nodes.at(m.id)) : m.type == 'w' ? static_cast<osm::Primitive*>(&f.ways.at(m.id)) : &f.relations.at(m.id);
      f.relations[r.id].members.emplace_back(m.role, p);
    }
  }
  return f;
}
std::string attrText(const osm::Attributes& a) {
  std::string s;
  for (auto& x : a) s += " " + esc(x.first) + "=" + esc(x.second);
  return s;
}
// what it should be
std::string text(const Doc& d) {
  std::map<Id, std::string> n, w, r;
  char b[200];
  for (auto& x : d.nodes) {
    snprintf(b, sizeof b, "node %lld %.11f %.11f %.11f", static_cast<long long>(x.id), x.lat, x.lon, x.ele);
    n[x.id] = b + attrText(x.attrs) + "\n";
  }
  for (auto& x : d.ways) {
    auto& s = w[x.id] = "way " + idOf(x.id);
    for (auto i : x.nodes) s += " " + idOf(i);
    s += " :" + attrText(x.attrs) + "\n";
  }
  for (auto& x : d.relations) {
    auto& s = r[x.id] = "relation " + idOf(x.id);
    for (auto& m : x.members) s += std::string(" ") + m.type + idOf(m.id) + " as " + esc(m.role);
    s += " :" + attrText(x.attrs) + "\n";
  }
  std::string s;
  for (auto* v : {&n, &w, &r}) {
    for (auto& x : *v) s += x.second;
  }
  return s;
}
// what it is; everything that is referred to has to belong to the same document
std::string text(const osm::File& f) {
  std::string s;
  char b[200];
  auto a = [](auto& x, Id key) {
    MC_REQUIRE(x.id == key, "document-key", "element " << x.id << " is stored as " << key);
    return attrText(x.attributes);
  };
  for (auto& x : f.nodes) {
    snprintf(b, sizeof b, "node %lld %.11f %.11f %.11f", static_cast<long long>(x.first), x.second.point.lat, x.second.point.lon, x.second.point.ele);
    s += b + a(x.second, x.first) + "\n";
  }
  for (auto& x : f.ways) {
    s += "way " + idOf(x.first);
    for (auto* n : x.second.nodes) {
      MC_REQUIRE(n != nullptr && f.nodes.count(n->id) != 0 && &f.nodes.at(n->id) == n, "document-reference", "way " << x.first << " refers to a node outside of the document");
      s += " " + idOf(n->id);
    }
    s += " :" + a(x.second, x.first) + "\n";
  }
  for (auto& x : f.relations) {
    s += "relation " + idOf(x.first);
    for (auto& m : x.second.members) {
      auto* p = m.second;
      MC_REQUIRE(p != nullptr, "document-reference", "relation " << x.first << " has a member that is nothing");
      auto t = p->type();
      bool in = t == "node" ? f.nodes.count(p->id) && &f.nodes.at(p->id) == p : t == "way" ? f.ways.count(p->id) && &f.ways.at(p->id) == p : t == "relation" && f.relations.count(p->id) && &f.relations.at(p->id) == p;
      MC_REQUIRE(in, "document-reference", "relation " << x.first << " refers to a " << t << " outside of the document");
      s += std::string(" ") + t[0] + idOf(p->id) + " as " + esc(m.first);
    }
    s += " :" + a(x.second, x.first) + "\n";
  }
  return s;
}
struct XmlText : pugi::xml_writer {
  std::string s;
  void write(const void* d, size_t n) override { s.append(static_cast<const char*>(d), n); }
};
std::string xmlOf(const osm::File& f, const io::Configuration& cfg = {}) {
  XmlText w;
  osm::write(f, cfg)->save(w, "  ");
  return w.s;
}
osm::File parsed(const std::string& t, ErrorMessages& e) {
  pugi::xml_document x;
  MC_REQUIRE(bool(x.load_buffer(t.data(), t.size())), "document-xml", "what is written is no xml");
  return osm::read(x, &e);
}
void documentRoundtrip(mc::Ctx& c, const Doc& d) {
  auto f = makeFile(d);
  auto t = xmlOf(f);
  ErrorMessages e{"of before"};
  auto g = parsed(t, e);
  c.step();
  MC_REQUIRE(e.empty(), "document-errors", "reading what was written reports " << errs(e));
  MC_REQUIRE(text(g) == text(d), "document-changed", "written and read it is\n" << text(g) << "instead of\n" << text(d));
  MC_REQUIRE(f == g && g == f, "document-equal", "a document that was written and read is not equal to the original:\n" << text(d));
  MC_REQUIRE(xmlOf(g) == t, "document-again", "written again it differs");
  // elements stay where they are when the document is moved
  osm::File h = std::move(g);
  MC_REQUIRE(text(h) == text(d), "document-moved", "moved it is\n" << text(h));
  c.state(mc::hashStr(t));
}
// which elements are deleted by an editor: nodes, ways, relations in order
void documentDeleted(mc::Ctx& c, const Doc& d, unsigned mask) {
  auto f = makeFile(d);
  auto x = osm::write(f);
  auto root = x->child("osm");
  std::set<std::pair<char, Id>> gone;
  unsigned k = 0;
  for (auto el = root.first_child(); el; el = el.next_sibling(), ++k) {
    if ((mask >> k & 1U) != 0) {
      el.append_attribute("action") = "delete";
      gone.insert({el.name()[0], Id(el.attribute("id").as_llong())});
    } else if ((k & 1U) != 0) {
      el.append_attribute("action") = "modify";
    }
  }
  Doc want;
  std::map<Id, size_t> reports;  // id -> at least so many
  for (auto& n : d.nodes) {
    if (!gone.count({'n', n.id})) want.nodes.push_back(n);
  }
  for (auto w : d.ways) {
    if (gone.count({'w', w.id})) continue;
    bool broken = false;
    for (auto i : w.nodes) broken |= gone.count({'n', i}) != 0;
    if (broken) {
      w.nodes.clear();
      reports[w.id] += 1;
    }
    want.ways.push_back(w);
  }
  for (auto r : d.relations) {
    if (gone.count({'r', r.id})) continue;
    std::vector<DocMember> rest;
    for (auto& m : r.members) {
      if (gone.count({m.type, m.id})) {
        reports[r.id] += 1;
      } else {
        rest.push_back(m);
      }
    }
    r.members = rest;
    want.relations.push_back(r);
  }
  ErrorMessages e;
  auto g = osm::read(*x, &e);
  auto quiet = osm::read(*x);
  c.step(2);
  MC_REQUIRE(text(g) == text(want) && text(quiet) == text(want), "document-deleted", "with deleted elements it is\n" << text(g) << "instead of\n" << text(want));
  size_t sum = 0;
  for (auto& r : reports) {
    size_t n = 0;
    for (auto& m : e) n += m.find(idOf(r.first)) != std::string::npos;
    MC_REQUIRE(n >= r.second, "document-reports", r.second << " missing references of " << r.first << " but the reports are " << errs(e));
    sum += r.second;
  }
  MC_REQUIRE(e.size() == sum, "document-reports", e.size() << " reports instead of " << sum << ": " << errs(e));
  auto& members = g.relations;
  for (auto& r : want.relations) {  // how members are found by role
    for (std::string role : {"", "a", "b", "c"}) {
      auto& rs = members.at(r.id).members;
      std::string all, wantAll;
      osm::forEachMember(rs, role, [&](auto& m) { all += m.second->type()[0] + idOf(m.second->id) + " "; });
      for (auto& m : r.members) wantAll += m.role == role ? m.type + idOf(m.id) + " " : "";
      auto it = osm::findRole(rs, role);
      MC_REQUIRE(all == wantAll, "document-roles", "members '" << role << "' are " << all << "instead of " << wantAll);
      size_t pos = 0;
      while (pos < r.members.size() && r.members[pos].role != role) ++pos;
      MC_REQUIRE(size_t(it - rs.begin()) == pos, "document-find-role", "'" << role << "' is found at " << (it - rs.begin()) << " instead of " << pos);
    }
  }
}
void i07(mc::Ctx& c) {
  const std::vector<std::string> roles{"a", "b", ""};
  auto plain = [] { return Doc{{{1, 49.00000000001, 8.1, 0, {}}, {-2, -33.5, -70.25, 2.5, {{"k", "v"}}}}, {{11, {1, -2}, {}}, {-2, {-2}, {{"k", "v"}}}}, {{1, {}, {}}, {-22, {}, {{"k", "v"}}}}}; };
  // members: (type, id); ids are only unique within a type
  const std::vector<std::pair<char, Id>> refs{{'n', 1}, {'w', 11}, {'w', -2}, {'r', 1}, {'r', -22}};
  std::vector<std::vector<int>> lists{{}};
  for (size_t i = 0; i < lists.size(); ++i) {
    auto l = lists[i];
    if (l.size() == (c.quick ? 2 : 3)) break;
    for (int k = 0; k < int(refs.size()); ++k) {
      auto m = l;
      m.push_back(k);
      lists.push_back(m);
    }
  }
  auto withMembers = [&](size_t a, size_t b, size_t shift) {
    auto d = plain();
    for (size_t r = 0; r < 2; ++r) {
      auto& l = lists[r == 0 ? a : b];
      for (size_t i = 0; i < l.size(); ++i) d.relations[r].members.push_back({roles[(i + r + shift) % 3], refs[size_t(l[i])].first, refs[size_t(l[i])].second});
    }
    return d;
  };
  for (size_t a = 0; a < lists.size(); ++a) {
    c.run([&] { return "relations with the members of list " + std::to_string(a); }, [&] {
      auto base = makeFile(withMembers(a, 0, 0));
      for (size_t b = 0; b < lists.size(); ++b) {
        if (!c.quick && lists[a].size() == 3 && lists[b].size() == 3 && (a + b) % 7 != 0) continue;
        for (size_t shift = 0; shift < (c.quick ? 1U : 3U); ++shift) {
          auto d = withMembers(a, b, shift);
          documentRoundtrip(c, d);
          for (unsigned mask = 1; mask < 64; ++mask) documentDeleted(c, d, mask);
        }
        // documents are equal if what they refer to is
        auto other = makeFile(withMembers(b, 0, 0));
        MC_REQUIRE((base == other) == (a == b), "document-compare", "documents are " << (a == b ? "not " : "") << "equal:\n" << text(base) << "and\n" << text(other));
        c.step();
      }
    });
  }
  // ways
  std::vector<std::vector<Id>> ways{{}};
  for (size_t i = 0; i < ways.size(); ++i) {
    auto l = ways[i];
    if (l.size() == (c.quick ? 3 : 5)) break;
    for (Id k : {1, -2}) {
      auto m = l;
      m.push_back(k);
      ways.push_back(m);
    }
  }
  for (auto& a : ways) {
    c.run([&] { std::string s; for (auto i : a) s += " " + idOf(i); return "a way of" + s; }, [&] {
      auto d = plain();
      d.ways[0].nodes = a;
      auto f = makeFile(d);
      for (auto& b : ways) {
        auto o = plain();
        o.ways[0].nodes = b;
        MC_REQUIRE((f == makeFile(o)) == (a == b), "document-compare", "documents are " << (a == b ? "not " : "") << "equal:\n" << text(d) << "and\n" << text(o));
        o = d;
        o.ways[1].nodes = b;
        documentRoundtrip(c, o);
        for (unsigned mask = 1; mask < 64; ++mask) documentDeleted(c, o, mask);
      }
      for (int missing = 0; missing < 3; ++missing) {
        auto o = plain();
        o.ways[0].nodes = {};
        o.ways[1].nodes = {};
        auto full = makeFile(o);
        if (missing == 0) o.nodes.pop_back();
        if (missing == 1) o.ways.pop_back();
        if (missing == 2) o.relations.pop_back();
        MC_REQUIRE(!(full == makeFile(o)) && !(makeFile(o) == full), "document-compare", "documents with and without an element are equal");
      }
    });
  }
  // texts, ids and numbers
  const std::vector<std::string> texts{"", "x", " x ", "a\"b", "<&>'", "a=b;c", "\xc3\xa4\xe2\x82\xac", "line\nbreak", "tab\there", "action", "ele", "k", "type", "ref"};
  for (auto& key : texts) {
    c.run([&] { return "the key " + esc(key); }, [&] {
      for (auto& value : texts) {
        auto d = plain();
        if (key != "ele") d.nodes[0].attrs[key] = value;  // of nodes this is the elevation
        d.ways[0].attrs[key] = value;
        d.relations[0].attrs[key] = value;
        d.relations[1].members = {{key, 'n', 1}, {value, 'w', 11}, {key + value, 'r', 1}};
        documentRoundtrip(c, d);
        d.ways[1].attrs[value] = key;
        d.relations[1].attrs[value] = key;
        documentRoundtrip(c, d);
      }
    });
  }
  const std::vector<Id> ids{1, -1, 7, 2147483648LL, -2147483649LL, 1000000000000007LL, std::numeric_limits<Id>::max(), std::numeric_limits<Id>::min() + 1};
  const std::vector<double> numbers{0, 1, -1, 10, 100, 49.12345678901, -0.00000000001, 179.99999999999, -180, 8848.86, -430.5};
  for (auto id : ids) {
    c.run([&] { return "the id " + idOf(id); }, [&] {
      for (double v : numbers) {
        for (double z : numbers) {
          Doc d{{{id, v, -v, z, {}}}, {{id, {id, id}, {}}}, {{id, {{"", 'n', id}, {"", 'w', id}, {"", 'r', id}}, {}}}};
          documentRoundtrip(c, d);
          // for editors
          auto f = makeFile(d);
          for (int o = 0; o < 4; ++o) {
            io::Configuration cfg;
            cfg["josm_upload"] = o % 2 == 1;
            cfg["josm_format_elevation"] = o / 2 == 1;
            auto t = xmlOf(f, cfg);
            ErrorMessages e;
            auto g = parsed(t, e);
            auto& p = g.nodes.at(id).point;
            c.step();
            MC_REQUIRE(e.empty() && g == f && std::fabs(p.lat - v) < 1e-11 && std::fabs(p.lon + v) < 1e-11 && std::fabs(p.ele - z) <= (o / 2 == 1 ? 0.00500001 : 1e-11), "document-configured", "with configuration " << o << " it is\n" << text(g));
            MC_REQUIRE((t.find("upload=\"true\"") != std::string::npos) == (o % 2 == 1) && (t.find("upload=\"false\"") != std::string::npos) == (o % 2 == 0), "document-upload", t);
          }
        }
      }
    });
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(
      argc, argv,
      {{"I01", i01, "every map that differs in at most two (thorough three) features from a base map, and all combinations of lanelet, area and regulatory element layouts; a case counts if the map is written, loaded and compared element by element",
        {"ids are unique among ways and among relations, as the format requires", "custom centerlines are stored in the direction of their lanelet"}},
       {"I02", i02, "the same maps written to and loaded from archives, compared bit by bit", {"attribute texts from the alphabet"}},
       {"I03", i03, "the file system refuses to take more than n bytes, for every n (small maps) or at every block border and in steps between (larger maps)", {"failures of the file system appear as refused writes"}},
       {"I04", i04, "every truncation, every single byte change from an alphabet, every single and neighbouring pair of replaced attribute values, doubled and exchanged lines of an OSM file; every truncation of archives", {"archives are truncated, not altered: the archive format of boost has no protection against altered content"}},
       {"I05", i05, "every subset of the elements of a file with 14 elements removed (quick: up to four) or replaced by elements of the same id that can not be loaded (up to three, thorough five, of both kinds), and every subset of elements left out of the layers of a map that is written", {}},
       {"I07", i07, "documents of two nodes, two ways and two relations with all lists of up to two (thorough: three) members each and of up to three (five) nodes, each written, read and read with every subset of its elements deleted; pairs of 14 texts as keys, values and roles; ids at the limits; pairs of 11 numbers; configurations", {"deleting is the only defect of documents here, others are part of I04 and I05"}}});
}
