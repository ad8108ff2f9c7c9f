// The embedded interpreter and a common notation for the values of both languages.
#pragma once
#include <Python.h>
#include <boost/python.hpp>
#include <boost/python/stl_iterator.hpp>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>

#include <lanelet2_core/primitives/GPSPoint.h>
#include <lanelet2_core/utility/Units.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/Projection.h>
#include <lanelet2_matching/Types.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/UTM.h>
#include <lanelet2_routing/Route.h>

#include "net.hpp"
namespace py = boost::python;

namespace {
//! the Python exception that is set, as a violation
mc::Failure failure() {
  PyObject *t = nullptr, *v = nullptr, *tb = nullptr;
  PyErr_Fetch(&t, &v, &tb);
  PyErr_NormalizeException(&t, &v, &tb);
  std::string sig = "python-exception", msg;
  auto text = [](PyObject* o) {
    PyObject* s = o == nullptr ? nullptr : PyObject_Str(o);
    std::string r = s != nullptr && PyUnicode_AsUTF8(s) != nullptr ? PyUnicode_AsUTF8(s) : "?";
    Py_XDECREF(s);
    PyErr_Clear();
    return r;
  };
  if (v != nullptr && PyObject_HasAttrString(v, "sig")) {
    PyObject* s = PyObject_GetAttrString(v, "sig");
    sig = text(s);
    Py_XDECREF(s);
    msg = text(v);
  } else {
    msg = std::string(t != nullptr ? reinterpret_cast<PyTypeObject*>(t)->tp_name : "?") + ": " + text(v);
    for (PyObject* x = tb; x != nullptr;) {
      PyObject* line = PyObject_GetAttrString(x, "tb_lineno");
      msg += " @" + text(line);
      Py_XDECREF(line);
      PyObject* n = PyObject_GetAttrString(x, "tb_next");
      x = n == Py_None ? nullptr : n;
      Py_XDECREF(n);
    }
  }
  Py_XDECREF(t);
  Py_XDECREF(v);
  Py_XDECREF(tb);
  return {sig, msg};
}
struct Interpreter {
  static void start() {
    setenv("PYTHONMALLOC", "malloc", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    setenv("PYTHONHASHSEED", "0", 1);
    Py_InitializeEx(0);
    PyObject* path = PySys_GetObject("path");
    for (const char* p : {LL2_PY_MODULES, LL2_PY_SCRIPTS}) {
      PyObject* s = PyUnicode_FromString(p);
      PyList_Insert(path, 0, s);
      Py_DECREF(s);
    }
    // never run the destructors of the interpreter: workers end with _exit
  }
};

// ------------------------------------------------------------------ one notation for both sides
std::string num(double d) {
  if (std::isnan(d)) return "nan";
  char b[40];
  snprintf(b, sizeof b, "%.12g", d == 0 ? 0. : d);
  return b;
}
std::string canon(bool b) { return b ? "True" : "False"; }
std::string canon(double d) { return num(d); }
std::string canon(long double d) { return num(double(d)); }
std::string canon(int i) { return std::to_string(i); }
std::string canon(unsigned i) { return std::to_string(i); }
std::string canon(routing::RoutingCostId i) { return std::to_string(i); }
std::string canon(size_t i) { return std::to_string(i); }
std::string canon(Id i) { return std::to_string(i); }
std::string canon(const std::string& s) { return "'" + s + "'"; }
std::string canon(const BasicPoint2d& p) { return "(" + num(p.x()) + " " + num(p.y()) + ")"; }
std::string canon(const BasicPoint3d& p) { return "(" + num(p.x()) + " " + num(p.y()) + " " + num(p.z()) + ")"; }
std::string canon(const BoundingBox2d& b) { return "box" + canon(BasicPoint2d(b.min())) + canon(BasicPoint2d(b.max())); }
std::string canon(const BoundingBox3d& b) { return "box" + canon(BasicPoint3d(b.min())) + canon(BasicPoint3d(b.max())); }
std::string canon(const GPSPoint& p) { return "gps(" + num(p.lat) + " " + num(p.lon) + " " + num(p.ele) + ")"; }
std::string canon(const ArcCoordinates& a) { return "arc(" + num(a.length) + " " + num(a.distance) + ")"; }
std::string canon(const AttributeMap& a) {
  std::map<std::string, std::string> s;
  for (auto& x : a) s[x.first] = x.second.value();
  std::string r = "{";
  for (auto& x : s) r += x.first + "=" + x.second + ";";
  return r + "}";
}
std::string prim(const char* type, Id id, bool inverted) { return std::string(type) + "#" + std::to_string(id) + (inverted ? "-" : ""); }
std::string canon(const Point3d& p) { return prim("Point3d", p.id(), false); }
std::string canon(const Point2d& p) { return prim("Point2d", p.id(), false); }
std::string canon(const ConstPoint3d& p) { return p.id() == 0 ? "ConstPoint3d" + canon(p.basicPoint()) : prim("ConstPoint3d", p.id(), false); }
std::string canon(const ConstPoint2d& p) { return p.id() == 0 ? "ConstPoint2d" + canon(p.basicPoint()) : prim("ConstPoint2d", p.id(), false); }
template <typename L>
std::string lineText(const char* type, const L& l) {
  std::string r = prim(type, l.id(), l.inverted()) + "<";
  for (auto p : l) r += canon(BasicPoint3d(p.x(), p.y(), utils::to3D(p).z()));
  return r + ">";
}
std::string canon(const LineString3d& l) { return lineText("LineString3d", l); }
std::string canon(const LineString2d& l) { return lineText("LineString2d", l); }
std::string canon(const ConstLineString3d& l) { return lineText("ConstLineString3d", l); }
std::string canon(const ConstLineString2d& l) { return lineText("ConstLineString2d", l); }
std::string canon(const Polygon3d& l) { return lineText("Polygon3d", l); }
std::string canon(const Polygon2d& l) { return lineText("Polygon2d", l); }
std::string canon(const ConstPolygon3d& l) { return lineText("ConstPolygon3d", l); }
std::string canon(const ConstPolygon2d& l) { return lineText("ConstPolygon2d", l); }
template <typename L>
std::string hybridText(const char* type, const L& l) {
  std::string r = prim(type, l.id(), l.inverted()) + "<";
  for (auto p : l) r += canon(p);
  return r + ">";
}
std::string canon(const ConstHybridLineString3d& l) { return hybridText("ConstHybridLineString3d", l); }
std::string canon(const ConstHybridLineString2d& l) { return hybridText("ConstHybridLineString2d", l); }
std::string canon(const ConstHybridPolygon3d& l) { return hybridText("ConstHybridPolygon3d", l); }
std::string canon(const ConstHybridPolygon2d& l) { return hybridText("ConstHybridPolygon2d", l); }
template <typename C>
std::string compoundText(const char* type, const C& c) {
  std::string r = std::string(type) + "[";
  for (auto i : c.ids()) r += std::to_string(i) + ",";
  r += "]<";
  for (auto p : c) r += canon(BasicPoint2d(p.x(), p.y()));
  return r + ">";
}
std::string canon(const CompoundLineString3d& c) { return compoundText("CompoundLineString3d", c); }
std::string canon(const CompoundLineString2d& c) { return compoundText("CompoundLineString2d", c); }
std::string canon(const CompoundPolygon3d& c) { return compoundText("CompoundPolygon3d", c); }
std::string canon(const CompoundPolygon2d& c) { return compoundText("CompoundPolygon2d", c); }
std::string canon(const Lanelet& l) { return prim("Lanelet", l.id(), l.inverted()); }
std::string canon(const ConstLanelet& l) { return prim("ConstLanelet", l.id(), l.inverted()); }
std::string canon(const Area& l) { return prim("Area", l.id(), false); }
std::string canon(const ConstArea& l) { return prim("ConstArea", l.id(), false); }
std::string canon(const ConstLaneletOrArea& l) { return l.isLanelet() ? canon(*l.lanelet()) : canon(*l.area()); }
std::string canon(const RegulatoryElementConstPtr& r) {
  const char* t = dynamic_cast<const TrafficLight*>(r.get()) != nullptr ? "TrafficLight"
                  : dynamic_cast<const SpeedLimit*>(r.get()) != nullptr ? "SpeedLimit"
                  : dynamic_cast<const TrafficSign*>(r.get()) != nullptr ? "TrafficSign"
                  : dynamic_cast<const RightOfWay*>(r.get()) != nullptr ? "RightOfWay"
                  : dynamic_cast<const AllWayStop*>(r.get()) != nullptr ? "AllWayStop"
                                                                        : "RegulatoryElement";
  return prim(t, r->id(), false);
}
std::string canon(const LineStringOrPolygon3d& l) { return l.isPolygon() ? canon(*l.polygon()) : canon(*l.lineString()); }
std::string canon(const ConstLineStringOrPolygon3d& l) { return l.isPolygon() ? canon(*l.polygon()) : canon(*l.lineString()); }
std::string canon(const routing::LaneletPath& p) {
  std::string r = "LaneletPath[";
  for (auto& l : p) r += canon(l) + ",";
  return r + "]";
}
std::string canon(const LaneletSequence& p) {
  std::string r = "LaneletSequence[";
  for (auto& l : p.lanelets()) r += canon(l) + ",";
  return r + "]";
}
std::string canon(RelationType r) {
  switch (r) {
    case RelationType::Successor: return "Successor";
    case RelationType::Left: return "Left";
    case RelationType::Right: return "Right";
    case RelationType::Conflicting: return "Conflicting";
    case RelationType::AdjacentLeft: return "AdjacentLeft";
    case RelationType::AdjacentRight: return "AdjacentRight";
    default: return "?";
  }
}
std::string canon(const routing::LaneletRelation& r) { return "Relation(" + canon(r.lanelet) + " " + canon(r.relationType) + ")"; }
std::string canon(const traffic_rules::SpeedLimitInformation& s) {
  return "speed(" + num(units::KmHQuantity(s.speedLimit).value()) + " " + canon(s.isMandatory) + ")";
}
template <typename M>
std::string mapText(const char* type, const M& m) {
  std::string r = type;
  auto layer = [&](auto& l) {
    std::set<Id> ids;
    for (auto& x : l) ids.insert(utils::getId(x));
    r += "|";
    for (Id i : ids) r += std::to_string(i) + ",";
  };
  layer(m.pointLayer), layer(m.lineStringLayer), layer(m.polygonLayer), layer(m.laneletLayer), layer(m.areaLayer), layer(m.regulatoryElementLayer);
  return r;
}
std::string canon(const LaneletMapPtr& m) { return m ? mapText("map", *m) : "None"; }
std::string canon(const LaneletSubmapPtr& m) { return m ? mapText("submap", *m) : "None"; }
std::string canon(const routing::LaneletVisitInformation& v) { return "visit(" + canon(v.lanelet) + " " + canon(v.predecessor) + " " + num(v.cost) + " " + canon(v.length) + " " + canon(v.numLaneChanges) + ")"; }
std::string canon(const routing::LaneletOrAreaVisitInformation& v) { return "visit(" + canon(v.laneletOrArea) + " " + canon(v.predecessor) + " " + num(v.cost) + " " + canon(v.length) + " " + canon(v.numLaneChanges) + ")"; }
std::string canon(const matching::Pose2d& p) { return "pose(" + num(p.translation().x()) + " " + num(p.translation().y()) + " " + num(Eigen::Rotation2Dd(p.rotation()).angle()) + ")"; }
std::string canon(const matching::PositionCovariance2d& c) { return "cov(" + num(c(0, 0)) + " " + num(c(0, 1)) + " " + num(c(1, 0)) + " " + num(c(1, 1)) + ")"; }
std::string canon(const matching::ConstLaneletMatch& m) { return "match(" + canon(m.lanelet) + " " + num(m.distance) + ")"; }
std::string canon(const matching::ConstLaneletMatchProbabilistic& m) { return "match(" + canon(m.lanelet) + " " + num(m.distance) + " " + num(m.mahalanobisDistSq) + ")"; }
std::string canon(const Origin& o) { return "origin" + canon(o.position); }
std::string canon(const Projector& p) {
  const char* t = dynamic_cast<const projection::SphericalMercatorProjector*>(&p) != nullptr ? "Mercator"
                  : dynamic_cast<const projection::UtmProjector*>(&p) != nullptr             ? "Utm"
                  : dynamic_cast<const projection::LocalCartesianProjector*>(&p) != nullptr  ? "LocalCartesian"
                  : dynamic_cast<const projection::GeocentricProjector*>(&p) != nullptr      ? "Geocentric"
                                                                                             : "?";
  std::string r = std::string(t) + "[" + canon(p.origin().position);
  for (double d : {0., 0.01, 5.}) {  // what it does where
    try {
      r += canon(p.forward({p.origin().position.lat + d, p.origin().position.lon - d, 3.}));
    } catch (const std::exception&) {
      r += "!";
    }
  }
  return r + "]";
}
std::string canon(const traffic_rules::TrafficRulesPtr& r) { return r ? "rules(" + r->location() + " " + r->participant() + ")" : "None"; }
std::string canon(const routing::RoutingCostPtr&) { return "cost"; }
std::string canon(ManeuverType m) { return m == ManeuverType::Yield ? "Yield" : m == ManeuverType::RightOfWay ? "RightOfWay" : "Unknown"; }
std::string graphText(const routing::RoutingGraph& g);
std::string canon(const routing::RoutingGraphPtr& g) { return g ? graphText(*g) : "None"; }
std::string routeText(const routing::Route& r) {
  return "route[" + canon(r.shortestPath()) + mapText("", *r.laneletSubmap()) + "]";
}
std::string canon(const std::shared_ptr<routing::Route>& r) { return r ? routeText(*r) : "None"; }
std::string canon(const Optional<routing::Route>& r) { return r ? routeText(*r) : "None"; }
template <typename T>
std::string canon(const std::shared_ptr<T>& r) { return canon(RegulatoryElementConstPtr(r)); }
template <typename A, typename B>
std::string canon(const std::pair<A, B>& p);
template <typename T>
std::string canon(const Optional<T>& o);
template <typename T>
std::string canon(const std::vector<T>& v) {
  std::string r = "[";
  for (auto& x : v) r += canon(x) + ",";
  return r + "]";
}
template <typename A, typename B>
std::string canon(const std::pair<A, B>& p) { return "(" + canon(p.first) + "," + canon(p.second) + ",)"; }
template <typename T>
std::string canon(const Optional<T>& o) { return o ? canon(*o) : "None"; }
std::string canon(const routing::PossiblePathsParams& p) {
  return "params(" + canon(p.routingCostLimit) + " " + canon(p.elementLimit) + " " + canon(p.routingCostId) + " " + canon(p.includeLaneChanges) + " " + canon(p.includeShorterPaths) + ")";
}
std::string canon(const matching::Object2d& o) {
  std::string r = "object(" + std::to_string(o.objectId) + " " + canon(o.pose) + "[";
  for (auto& p : o.absoluteHull) r += canon(BasicPoint2d(p)) + ",";
  return r + "])";
}
std::string canon(const matching::ObjectWithCovariance2d& o) { return canon(static_cast<const matching::Object2d&>(o)) + canon(o.positionCovariance) + num(o.vonMisesKappa); }
//! relations and costs of everything that is passable
std::string graphText(const routing::RoutingGraph& g) {
  std::map<Id, ConstLanelet> s;
  for (auto& l : g.passableSubmap()->laneletLayer) s.emplace(l.id(), l);
  std::string r = "graph[" + mapText("", *g.passableSubmap());
  for (auto& x : s) {
    for (auto& l : {x.second, x.second.invert()}) {
      r += canon(l) + canon(g.followingRelations(l, true)) + canon(g.leftRelations(l)) + canon(g.rightRelations(l));
      for (double limit : {5., 12., 40.}) {
        std::set<Id> ids;
        for (auto& t : g.reachableSet(l, limit, 0)) ids.insert(t.id());
        r += std::to_string(ids.size()) + ":";
        for (Id i : ids) r += std::to_string(i) + ",";
      }
    }
  }
  return r + "]";
}

std::string pyCanon(const py::object& o);
std::string pySeq(const py::object& o) {
  std::string r;
  const long n = py::len(o);
  for (long i = 0; i < n; ++i) r += pyCanon(o[i]) + ",";
  return r;
}
std::string pyCanon(const py::object& o) {
  PyObject* p = o.ptr();
  if (p == Py_None) return "None";
  if (PyBool_Check(p)) return canon(p == Py_True);
  auto attr = [&](const char* n) { return o.attr(n); };
  auto d = [&](const char* n) { return double(py::extract<double>(o.attr(n))); };
  const std::string type = Py_TYPE(p)->tp_name;
  if (PyFloat_Check(p)) return num(PyFloat_AsDouble(p));
  if (PyLong_CheckExact(p)) return std::to_string(PyLong_AsLongLong(p));
  if (PyUnicode_Check(p)) return "'" + std::string(py::extract<std::string>(o)) + "'";
  if (PyList_Check(p)) return "[" + pySeq(o) + "]";
  if (PyTuple_Check(p)) return "(" + pySeq(o) + ")";
  if (type == "BasicPoint2d" || type == "Vector2d") return "(" + num(d("x")) + " " + num(d("y")) + ")";
  if (type == "BasicPoint3d") return "(" + num(d("x")) + " " + num(d("y")) + " " + num(d("z")) + ")";
  if (type == "BoundingBox2d" || type == "BoundingBox3d") return "box" + pyCanon(attr("min")) + pyCanon(attr("max"));
  if (type == "GPSPoint") return "gps(" + num(d("lat")) + " " + num(d("lon")) + " " + num(d("ele")) + ")";
  if (type == "ArcCoordinates") return "arc(" + num(d("length")) + " " + num(d("distance")) + ")";
  if (type == "SpeedLimitInformation") return "speed(" + num(d("speedLimit")) + " " + pyCanon(attr("isMandatory")) + ")";
  if (type == "LaneletRelation") return "Relation(" + pyCanon(attr("lanelet")) + " " + pyCanon(attr("relationType")) + ")";
  if (type == "RelationType") return py::extract<std::string>(py::str(o));
  if (type == "LaneletPath" || type == "LaneletSequence") return type + "[" + pySeq(o) + "]";
  if (type == "AttributeMap") {
    py::list items{o.attr("items")()};
    std::map<std::string, std::string> s;
    for (long i = 0; i < py::len(items); ++i) s[py::extract<std::string>(items[i][0])] = py::extract<std::string>(items[i][1]);
    std::string r = "{";
    for (auto& x : s) r += x.first + "=" + x.second + ";";
    return r + "}";
  }
  if (type == "LaneletVisitInformation") return "visit(" + pyCanon(attr("lanelet")) + " " + pyCanon(attr("predecessor")) + " " + num(d("cost")) + " " + pyCanon(attr("length")) + " " + pyCanon(attr("numLaneChanges")) + ")";
  if (type == "LaneletOrAreaVisitInformation") return "visit(" + pyCanon(attr("laneletOrArea")) + " " + pyCanon(attr("predecessor")) + " " + num(d("cost")) + " " + pyCanon(attr("length")) + " " + pyCanon(attr("numLaneChanges")) + ")";
  if (type == "ConstLaneletMatch") return "match(" + pyCanon(attr("lanelet")) + " " + num(d("distance")) + ")";
  if (type == "ConstLaneletMatchProbabilistic") return "match(" + pyCanon(attr("lanelet")) + " " + num(d("distance")) + " " + num(d("mahalanobisDistSq")) + ")";
  if (type == "PossiblePathsParams")
    return "params(" + pyCanon(attr("routingCostLimit")) + " " + pyCanon(attr("elementLimit")) + " " + pyCanon(attr("routingCostId")) + " " + pyCanon(attr("includeLaneChanges")) + " " + pyCanon(attr("includeShorterPaths")) + ")";
  if (type == "Object2d" || type == "ObjectWithCovariance2d") {
    std::string r = "object(" + pyCanon(attr("objectId")) + " " + pyCanon(attr("pose")) + pyCanon(attr("absoluteHull")) + ")";
    if (type != "Object2d") r += pyCanon(attr("positionCovariance")) + num(d("vonMisesKappa"));
    return r;
  }
  if (type == "Origin") return "origin" + pyCanon(attr("position"));
#define AS(NAME, T) \
  if (type == NAME) return canon(py::extract<T>(o)());
  AS("Pose2d", matching::Pose2d)
  AS("PositionCovariance2d", matching::PositionCovariance2d)
  AS("LaneletMap", LaneletMapPtr)
  AS("LaneletSubmap", LaneletSubmapPtr)
  AS("RoutingGraph", routing::RoutingGraphPtr)
  AS("Route", std::shared_ptr<routing::Route>)
  AS("TrafficRules", traffic_rules::TrafficRulesPtr)
  AS("MercatorProjector", const Projector&)
  AS("UtmProjector", const Projector&)
  AS("LocalCartesianProjector", const Projector&)
  AS("GeocentricProjector", const Projector&)
#undef AS
  if (type == "ManeuverType") return py::extract<std::string>(py::str(o));
  auto has = [&](const char* n) { return PyObject_HasAttrString(p, n) != 0; };
  if (type.rfind("Compound", 0) == 0) {
    std::string r = type + "[";
    py::object ids = o.attr("ids")();
    for (long i = 0; i < py::len(ids); ++i) r += pyCanon(ids[i]) + ",";
    r += "]<";
    for (long i = 0; i < py::len(o); ++i) r += "(" + num(py::extract<double>(o[i].attr("x"))) + " " + num(py::extract<double>(o[i].attr("y"))) + ")";
    return r + ">";
  }
  if (has("id")) {
    const Id id = py::extract<Id>(o.attr("id"));
    if (type == "ConstPoint3d" && id == 0) return type + "(" + num(d("x")) + " " + num(d("y")) + " " + num(d("z")) + ")";
    if (type == "ConstPoint2d" && id == 0) return type + "(" + num(d("x")) + " " + num(d("y")) + ")";
    std::string r = prim(type.c_str(), id, has("inverted") && py::extract<bool>(o.attr("inverted")()));
    if (type.rfind("ConstHybrid", 0) == 0) {
      r += "<";
      for (long i = 0; i < py::len(o); ++i) r += pyCanon(o[i]);
      return r + ">";
    }
    if (type.find("LineString") != std::string::npos || type.find("Polygon") != std::string::npos) {
      r += "<";
      static py::object to3 = py::import("lanelet2.geometry").attr("to3D");
      for (long i = 0; i < py::len(o); ++i) {
        py::object e = o[i];
        py::object q = to3(e);
        r += "(" + num(py::extract<double>(q.attr("x"))) + " " + num(py::extract<double>(q.attr("y"))) + " " + num(py::extract<double>(q.attr("z"))) + ")";
      }
      r += ">";
    }
    return r;
  }
  return "?" + type;
}
}  // namespace
