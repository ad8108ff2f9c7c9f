// Y02: every function the Python package offers, called with every combination of arguments from the pools in every way
// Python can pass them, against the C++ function called directly.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/UTM.h>
#include <lanelet2_routing/Route.h>
#include <boost/geometry/algorithms/intersection.hpp>
#include <array>
#include <fstream>

#include "pycanon.hpp"
namespace lg = lanelet::geometry;

namespace {
using Bools = std::array<bool, 2>;
const Bools Both2{false, true};
struct Kw {
  const char* name;
  const char* dflt{nullptr};  // as canon() writes it; nullptr: has to be given
};
using Kws = std::vector<Kw>;

// ---- arguments that are not simply values
#define LAYER(X)                                                                     \
  struct X##Ref {                                                                    \
    LaneletMapPtr m;                                                                 \
    auto& get() const { return m->X; }                                               \
  };                                                                                 \
  py::object toPy(const X##Ref& r) { return py::object(r.m).attr(#X); }              \
  std::string canon(const X##Ref&) { return #X; }
LAYER(pointLayer)
LAYER(lineStringLayer)
LAYER(polygonLayer)
LAYER(laneletLayer)
LAYER(areaLayer)
LAYER(regulatoryElementLayer)
struct Hull {
  std::vector<BasicPoint2d> p;
};
py::object toPy(const Hull& h) {
  py::list l;
  for (auto& p : h.p) l.append(p);
  return l;
}
std::string canon(const Hull& h) { return canon(h.p); }
struct Dict {
  std::map<std::string, std::string> d;
};
py::object toPy(const Dict& d) {
  py::dict r;
  for (auto& x : d.d) r[x.first] = x.second;
  return r;
}
std::string canon(const Dict& d) {
  std::string r = "{";
  for (auto& x : d.d) r += x.first + "=" + x.second + ";";
  return r + "}";
}
template <typename T>
struct List {  // a Python list of elements
  std::vector<T> v;
};
template <typename T>
std::string canon(const List<T>& l) { return canon(l.v); }
template <typename T>
py::object toPy(const T& t) { return py::object(t); }
template <typename T>
py::object toPy(const List<T>& l) {
  py::list r;
  for (auto& x : l.v) r.append(toPy(x));
  return std::move(r);
}
template <typename T>
py::object toPy(const Optional<T>& o) { return o ? toPy(*o) : py::object(); }

const std::map<std::string, py::object>& modules() {
  static const auto* m = new std::map<std::string, py::object>{
      {"core", py::import("lanelet2.core")}, {"geometry", py::import("lanelet2.geometry")}, {"io", py::import("lanelet2.io")},
      {"routing", py::import("lanelet2.routing")}, {"matching", py::import("lanelet2.matching")}, {"projection", py::import("lanelet2.projection")},
      {"traffic_rules", py::import("lanelet2.traffic_rules")}, {"calls", py::import("calls")}};
  return *m;
}
std::string expected(const std::function<std::string()>& f) {
  try {
    return f();
  } catch (const std::exception&) {
    return "an exception";
  }
}
//! the result of a call from Python; an exception that says that there is no such function is none of the function's
std::string actual(const std::string& form, const std::function<py::object()>& f) {
  try {
    return pyCanon(f());
  } catch (const py::error_already_set&) {
    const bool type = PyErr_ExceptionMatches(PyExc_TypeError) != 0 || PyErr_ExceptionMatches(PyExc_AttributeError) != 0;
    auto e = failure();
    MC_REQUIRE(!type, "not-callable-" + form.substr(0, form.find(40)), form << ": " << e.msg);
    return "an exception";
  }
}
std::string qualified(const std::string& name, const std::string& args) { return name + "(" + args + ")"; }

struct Pool {
  size_t size;
  std::function<py::object(size_t)> object;
  std::function<std::string(size_t)> text;
};
template <typename C>
Pool pool(const C& c) {
  return {c.size(), [&c](size_t i) { return toPy(c[i]); }, [&c](size_t i) { return canon(c[i]); }};
}
//! module.function, .method of the first argument, @attribute of the first argument
void explore(mc::Ctx& c, const std::string& name, const Kws& kw, const std::function<std::string(const size_t*)>& reference, const std::vector<Pool>& pools) {
  size_t total = 1;
  for (auto& p : pools) total *= p.size;
  for (size_t k = 0; k < total && !c.stopped(); ++k) {
    std::vector<size_t> ix;
    size_t rest = k;
    for (auto& p : pools) {
      ix.push_back(rest % p.size);
      rest /= p.size;
    }
    auto text = [&] {
      std::string r;
      for (size_t i = 0; i < pools.size(); ++i) r += pools[i].text(ix[i]) + ",";
      return r;
    };
    c.run([&] { return name + "(" + text() + ")"; },
          [&] {
            const std::string want = expected([&] { return reference(ix.data()); });
            std::vector<py::object> args;
            std::vector<std::string> texts;
            for (size_t i = 0; i < pools.size(); ++i) {
              args.push_back(pools[i].object(ix[i]));
              texts.push_back(pools[i].text(ix[i]));
            }
            c.state(name + want);
            const size_t self = name[0] == '.' || name[0] == '@' ? 1 : 0;
            auto get = [&] {
              if (self) return py::object(args[0].attr(name.c_str() + 1));
              auto dot = name.find('.');
              return py::object(modules().at(name.substr(0, dot)).attr(name.c_str() + dot + 1));
            };
            if (name[0] == '@') {
              auto got = actual(name, get);
              MC_REQUIRE(got == want, "result-" + name, name << " of " << text() << " is " << got << " instead of " << want);
              c.step();
              return;
            }
            const size_t n = args.size(), off = n - kw.size();  // the arguments from off on have names
            auto dflt = [&](size_t i) { return i >= off && kw[i - off].dflt != nullptr && texts[i] == kw[i - off].dflt; };
            // those from "from" on are given by name, and what has its default value is left out or not
            for (size_t from = kw.empty() ? n : std::max(off, self); from <= n; ++from) {
              for (int omit = 0; omit < 2; ++omit) {
                size_t end = from;  // by position only the last ones can be left out, and only if none follows by name
                if (omit && from == n) {
                  while (end > off && end > self && dflt(end - 1)) --end;
                }
                bool any = end < from;
                py::list pos;
                py::dict named;
                std::string form = name + "(";
                if (self) form += texts[0] + "; ";
                for (size_t i = self; i < n; ++i) {
                  if (i < end) {
                    pos.append(args[i]);
                    form += texts[i] + ", ";
                  } else if (i >= from) {
                    if (omit && dflt(i)) {
                      any = true;
                      continue;
                    }
                    named[kw[i - off].name] = args[i];
                    form += std::string(kw[i - off].name) + "=" + texts[i] + ", ";
                  }
                }
                if (omit && !any) continue;
                form += ")";
                auto got = actual(form, [&] {
                  py::object callable = get();
                  py::tuple t(pos);
                  PyObject* r = PyObject_Call(callable.ptr(), t.ptr(), named.ptr());
                  if (r == nullptr) py::throw_error_already_set();
                  return py::object(py::handle<>(r));
                });
                MC_REQUIRE(got == want, "result-" + name, form << " is " << got << " instead of " << want);
                c.step();
              }
            }
          });
  }
}
template <typename F, typename... C>
void fn(mc::Ctx& c, const std::string& name, const Kws& kw, F f, const C&... pools) {
  explore(
      c, name, kw,
      [&](const size_t* ix) {
        size_t i = 0;
        std::tuple<const typename C::value_type&...> t{pools[ix[i++]]...};
        (void)ix;
        return std::apply(
            [&](auto&... a) {
              if constexpr (std::is_void<decltype(f(a...))>::value) {
                f(a...);
                return std::string("None");
              } else {
                return canon(f(a...));
              }
            },
            t);
      },
      {pool(pools)...});
}

// ------------------------------------------------------------------ a small world
struct PyWorld {
  std::vector<BasicPoint2d> b2{{0, 0}, {2.5, 1}, {5, -3}, {7, 4.5}};
  std::vector<BasicPoint3d> b3{{0, 0, 0}, {2.5, 1, 2}, {5, -3, 8}};
  std::vector<Point3d> p3;
  std::vector<Point2d> p2;
  std::vector<ConstPoint3d> cp3;
  std::vector<ConstPoint2d> cp2;
  std::vector<LineString3d> l3;
  std::vector<LineString2d> l2;
  std::vector<ConstLineString3d> cl3;
  std::vector<ConstLineString2d> cl2;
  std::vector<ConstHybridLineString3d> h3;
  std::vector<ConstHybridLineString2d> h2;
  std::vector<CompoundLineString3d> c3;
  std::vector<CompoundLineString2d> c2;
  std::vector<Polygon3d> g3;
  std::vector<Polygon2d> g2;
  std::vector<ConstPolygon3d> cg3;
  std::vector<ConstPolygon2d> cg2;
  std::vector<ConstHybridPolygon3d> hg3;
  std::vector<ConstHybridPolygon2d> hg2;
  std::vector<CompoundPolygon3d> k3;
  std::vector<CompoundPolygon2d> k2;
  std::vector<BoundingBox2d> box2{{BasicPoint2d(0, 0), BasicPoint2d(4, 4)}, {BasicPoint2d(3, -2), BasicPoint2d(8, 2)}, {BasicPoint2d(20, 20), BasicPoint2d(21, 22)}};
  std::vector<BoundingBox3d> box3{{BasicPoint3d(0, 0, 0), BasicPoint3d(4, 4, 1)}, {BasicPoint3d(3, -2, .5), BasicPoint3d(8, 2, 2)}, {BasicPoint3d(0, 0, 20), BasicPoint3d(4, 4, 21)}};
  std::vector<Lanelet> ll;
  std::vector<ConstLanelet> cll;
  std::vector<Area> ar;
  std::vector<ConstArea> car;
  std::vector<RegulatoryElementPtr> re;
  LaneletMapPtr map{std::make_shared<LaneletMap>()};
  Id next{1};
  Point3d pt(double x, double y, double z) { return Point3d(next++, x, y, z, AttributeMap{{"n", std::to_string(next)}}); }
  LineString3d line(std::vector<std::array<double, 3>> ps) {
    LineString3d l(next++, {}, AttributeMap{{"type", "line_thin"}});
    for (auto& p : ps) l.push_back(pt(p[0], p[1], p[2]));
    return l;
  }
  PyWorld() {
    p3 = {pt(0, 0, 0), pt(3, 1, 2), pt(6, -2, 5)};
    l3 = {line({{0, 0, 0}, {4, 0, 1}, {6, 3, 2}}), line({{1, 2, 0}, {5, -2, 3}}), line({{0, 1, 8}, {4, 1, 8}})};
    l3.push_back(l3[0].invert());
    c3 = {CompoundLineString3d(ConstLineStrings3d{l3[0]}), CompoundLineString3d(ConstLineStrings3d{l3[2], l3[1].invert()})};
    auto poly = [&](std::vector<std::array<double, 3>> ps) {
      auto l = line(std::move(ps));
      Polygon3d g(next++, {}, AttributeMap{{"type", "p"}});
      for (auto p : l) g.push_back(p);
      return g;
    };
    g3 = {poly({{0, 0, 0}, {1, 5, 0}, {5, 1, 1}}), poly({{3, 3, 0}, {3, 7, 0}, {6, 4, 0}, {8, 8, 1}, {8, 2, 1}}), poly({{20, 0, 0}, {20, 2, 0}, {22, 1, 0}})};
    auto a = line({{0, 2, 0}, {10, 2, 0}}), b = line({{0, -1, 0}, {5, -2, 0}, {10, -1, 0}}), d = line({{0, 5, 0}, {10, 6, 0}});
    auto a2 = LineString3d(next++, {a.back(), pt(20, 3, 1)}), b2_ = LineString3d(next++, {b.back(), pt(20, -1, 1)});
    ll = {Lanelet(next++, a, b), Lanelet(next++, a2, b2_), Lanelet(next++, d, a), Lanelet(next++, line({{4, -9, 6}, {4, 9, 6}}), line({{7, -9, 6}, {6, 9, 6}}))};
    for (auto& l : ll) {
      l.attributes()["subtype"] = "road";
      l.attributes()["location"] = "urban";
    }
    ll.push_back(ll[0].invert());
    auto r1 = line({{0, 10, 0}, {8, 12, 0}, {8, 20, 0}}), r2 = LineString3d(next++, {r1.back(), pt(0, 20, 1), r1.front()}), hole = line({{2, 13, 0}, {2, 15, 0}, {5, 15, 0}, {2, 13, 0}});
    ar = {Area(next++, {r1.invert(), r2.invert()}, {{hole}}), Area(next++, {line({{30, 0, 0}, {30, 5, 0}, {33, 5, 2}, {30, 0, 0}})})};
    auto sign = line({{1, 6, 1}, {1, 6, 2}});
    re = {TrafficLight::make(next++, {}, {sign}, l3[1]), RightOfWay::make(next++, {}, {ll[0]}, {ll[3]}), SpeedLimit::make(next++, {}, {{sign}, "de274"})};
    ll[0].addRegulatoryElement(re[0]);
    ll[1].addRegulatoryElement(re[2]);
    ar[0].addRegulatoryElement(re[0]);
    for (auto& x : p3) p2.push_back(utils::to2D(x)), cp3.push_back(x), cp2.push_back(utils::to2D(x));
    for (auto& x : l3) l2.push_back(utils::to2D(x)), cl3.push_back(x), cl2.push_back(utils::to2D(x)), h3.push_back(utils::toHybrid(x)), h2.push_back(ConstHybridLineString2d(utils::to2D(x)));
    for (auto& x : c3) c2.push_back(utils::to2D(x));
    for (auto& x : g3) g2.push_back(utils::to2D(x)), cg3.push_back(x), cg2.push_back(utils::to2D(x)), hg3.push_back(ConstHybridPolygon3d(x)), hg2.push_back(ConstHybridPolygon2d(utils::to2D(x)));
    for (auto& x : ll) cll.push_back(x), k3.push_back(x.polygon3d()), k2.push_back(x.polygon2d());
    for (auto& x : ar) car.push_back(x);
    for (auto& x : p3) map->add(x);
    for (size_t i = 0; i < 3; ++i) map->add(l3[i]);
    for (auto& x : g3) map->add(x);
    for (size_t i = 0; i < 4; ++i) map->add(ll[i]);
    for (auto& x : ar) map->add(x);
    for (auto& x : re) map->add(x);
  }
};

// ------------------------------------------------------------------ geometry
#define BIN(expr) [](auto& a, auto& b) { return expr; }
#define UN(expr) [](auto& a) { return expr; }
template <typename A, typename B>
auto dist2(const A& a, const B& b) { return lg::distance2d(a, b); }
void geometryCalls(mc::Ctx& c, PyWorld& w) {
  const std::string D = "geometry.distance";
  auto d2 = BIN(lg::distance2d(a, b));
  auto d3 = BIN(lg::distance3d(a, b));
  // points
  fn(c, D, {}, d2, w.b2, w.b2), fn(c, D, {}, d2, w.cp2, w.cp2), fn(c, D, {}, d2, w.p2, w.p2), fn(c, D, {}, d2, w.p2, w.b2), fn(c, D, {}, d2, w.b2, w.cp2);
  fn(c, D, {}, d3, w.b3, w.b3), fn(c, D, {}, d3, w.cp3, w.cp3), fn(c, D, {}, d3, w.p3, w.p3), fn(c, D, {}, d3, w.p3, w.b3), fn(c, D, {}, d3, w.b3, w.cp3);
  // points and lines
  fn(c, D, {}, d2, w.p2, w.l2), fn(c, D, {}, d2, w.l2, w.p2), fn(c, D, {}, d2, w.b2, w.l2), fn(c, D, {}, d2, w.cl2, w.b2), fn(c, D, {}, d2, w.cp2, w.cl2);
  fn(c, D, {}, d2, w.cp2, w.h2), fn(c, D, {}, d2, w.h2, w.p2), fn(c, D, {}, d2, w.p2, w.c2), fn(c, D, {}, d2, w.c2, w.cp2), fn(c, D, {}, d2, w.b2, w.c2), fn(c, D, {}, d2, w.c2, w.b2);
  fn(c, D, {}, d3, w.p3, w.l3), fn(c, D, {}, d3, w.l3, w.p3), fn(c, D, {}, d3, w.cp3, w.cl3), fn(c, D, {}, d3, w.p3, w.h3), fn(c, D, {}, d3, w.h3, w.cp3), fn(c, D, {}, d3, w.p3, w.c3), fn(c, D, {}, d3, w.c3, w.cp3);
  // lines
  fn(c, D, {}, d2, w.l2, w.l2), fn(c, D, {}, d2, w.cl2, w.l2), fn(c, D, {}, d2, w.h2, w.h2), fn(c, D, {}, d2, w.c2, w.c2), fn(c, D, {}, d2, w.l2, w.c2), fn(c, D, {}, d2, w.c2, w.cl2);
  fn(c, D, {}, d3, w.l3, w.l3), fn(c, D, {}, d3, w.cl3, w.l3), fn(c, D, {}, d3, w.h3, w.h3), fn(c, D, {}, d3, w.c3, w.c3), fn(c, D, {}, d3, w.l3, w.c3), fn(c, D, {}, d3, w.c3, w.cl3);
  // polygons
  fn(c, D, {}, d2, w.g2, w.b2), fn(c, D, {}, BIN(lg::distance2d(a, b.basicPoint())), w.g2, w.p2), fn(c, D, {}, d2, w.hg2, w.b2);
  fn(c, D, {}, d2, w.g2, w.l2), fn(c, D, {}, d2, w.l2, w.g2), fn(c, D, {}, d2, w.cg2, w.cl2), fn(c, D, {}, d2, w.hg2, w.h2), fn(c, D, {}, d2, w.h2, w.hg2), fn(c, D, {}, d2, w.g2, w.c2), fn(c, D, {}, d2, w.c2, w.g2);
  fn(c, D, {}, d2, w.g2, w.g2), fn(c, D, {}, d2, w.hg2, w.hg2), fn(c, D, {}, d2, w.hg2, w.g2), fn(c, D, {}, d2, w.g2, w.hg2), fn(c, D, {}, d2, w.k2, w.g2);
  // lanelets and areas
  fn(c, D, {}, d2, w.ll, w.b2), fn(c, D, {}, d2, w.b2, w.ll), fn(c, D, {}, d2, w.ll, w.ll), fn(c, D, {}, d2, w.cll, w.cll), fn(c, D, {}, d2, w.ar, w.b2), fn(c, D, {}, d2, w.b2, w.ar), fn(c, D, {}, d2, w.car, w.b2);
  fn(c, D, {}, d3, w.ll, w.b3), fn(c, D, {}, d3, w.b3, w.cll), fn(c, D, {}, d3, w.ar, w.b3), fn(c, D, {}, d3, w.b3, w.car);
  auto dl = [](auto& p, auto& ls) {
    double d = 1e300;
    for (auto& l : ls.v) d = std::min(d, lg::distance2d(p, l));
    return d;
  };
  std::vector<List<LineString2d>> lls{{{w.l2[1], w.l2[2]}}, {w.l2}, {{w.l2[1]}}};
  fn(c, "geometry.distanceToLines", {}, dl, w.p2, lls), fn(c, "geometry.distanceToLines", {}, dl, w.b2, lls);
  std::vector<List<ConstLineString2d>> clls{{{w.cl2[1], w.cl2[2]}}, {w.cl2}};
  fn(c, "geometry.distanceToLines", {}, dl, w.cp2, clls), fn(c, "geometry.distanceToLines", {}, dl, w.b2, clls);
  // equality
  const std::string E = "geometry.equals";
  auto eq = [](auto& a, auto& b) { return canon(BasicPoint2d(a.x(), a.y())) == canon(BasicPoint2d(b.x(), b.y())); };
  auto eq3 = [](auto& a, auto& b) { return canon(BasicPoint3d(a.x(), a.y(), a.z())) == canon(BasicPoint3d(b.x(), b.y(), b.z())); };
  fn(c, E, {}, eq, w.b2, w.b2), fn(c, E, {}, eq, w.p2, w.p2), fn(c, E, {}, eq, w.p2, w.b2), fn(c, E, {}, eq, w.b2, w.cp2), fn(c, E, {}, eq, w.cp2, w.cp2);
  fn(c, E, {}, eq3, w.b3, w.b3), fn(c, E, {}, eq3, w.p3, w.p3), fn(c, E, {}, eq3, w.p3, w.b3), fn(c, E, {}, eq3, w.b3, w.cp3), fn(c, E, {}, eq3, w.cp3, w.cp3);
  // boxes
  auto bb2 = UN(lg::boundingBox2d(a));
  auto bb3 = UN(lg::boundingBox3d(a));
  const std::string B2 = "geometry.boundingBox2d", B3 = "geometry.boundingBox3d";
  fn(c, B2, {}, bb2, w.p2), fn(c, B2, {}, bb2, w.cp2), fn(c, B2, {}, bb2, w.l2), fn(c, B2, {}, bb2, w.cl2), fn(c, B2, {}, bb2, w.h2), fn(c, B2, {}, bb2, w.g2), fn(c, B2, {}, bb2, w.hg2), fn(c, B2, {}, bb2, w.ll);
  fn(c, B2, {}, bb2, w.cll), fn(c, B2, {}, bb2, w.ar), fn(c, B2, {}, bb2, w.car), fn(c, B2, {}, bb2, w.re), fn(c, B2, {}, bb2, w.c2);
  fn(c, B3, {}, bb3, w.p3), fn(c, B3, {}, bb3, w.cp3), fn(c, B3, {}, bb3, w.l3), fn(c, B3, {}, bb3, w.cl3), fn(c, B3, {}, bb3, w.h3), fn(c, B3, {}, bb3, w.g3), fn(c, B3, {}, bb3, w.hg3), fn(c, B3, {}, bb3, w.ll);
  fn(c, B3, {}, bb3, w.cll), fn(c, B3, {}, bb3, w.ar), fn(c, B3, {}, bb3, w.car), fn(c, B3, {}, bb3, w.re), fn(c, B3, {}, bb3, w.c3);
  fn(c, "geometry.area", {}, UN(boost::geometry::area(a)), w.hg2);
  auto cu = [](auto& a, auto& b, auto& d) { return lg::curvature2d(a, b, d); };
  auto su = [](auto& a, auto& b, auto& d) { return lg::signedCurvature2d(a, b, d); };
  fn(c, "geometry.curvature2d", {}, cu, w.b2, w.b2, w.b2), fn(c, "geometry.curvature2d", {}, cu, w.p2, w.p2, w.p2), fn(c, "geometry.signedCurvature2d", {}, su, w.b2, w.b2, w.b2), fn(c, "geometry.signedCurvature2d", {}, su, w.p2, w.p2, w.p2);
  // along lines
  const std::vector<double> at{-100, -1, 0, 0.5, 3, 4, 5.5, 100};
  std::vector<ArcCoordinates> arcs;
  for (double l : at) arcs.push_back({l, 0}), arcs.push_back({l, 1.5}), arcs.push_back({l, -2});
  auto ta = BIN(lg::toArcCoordinates(a, b));
  auto fa = BIN(lg::fromArcCoordinates(a, b));
  fn(c, "geometry.toArcCoordinates", {}, ta, w.l2, w.b2), fn(c, "geometry.toArcCoordinates", {}, ta, w.c2, w.b2), fn(c, "geometry.toArcCoordinates", {}, ta, w.cl2, w.b2);
  fn(c, "geometry.fromArcCoordinates", {}, fa, w.l2, arcs), fn(c, "geometry.fromArcCoordinates", {}, fa, w.c2, arcs), fn(c, "geometry.fromArcCoordinates", {}, fa, w.cl2, arcs);
  fn(c, "geometry.ArcCoordinates", {{"length", "0"}, {"distance", "0"}}, BIN((ArcCoordinates{a, b})), at, at);
  fn(c, "@length", {}, UN(a.length), arcs), fn(c, "@distance", {}, UN(a.distance), arcs), fn(c, ".__eq__", {}, BIN(a.length == b.length && a.distance == b.distance), arcs, arcs);
  auto le = UN(lg::length(a));
  fn(c, "geometry.length", {}, le, w.l2), fn(c, "geometry.length", {}, le, w.l3), fn(c, "geometry.length", {}, le, w.c2), fn(c, "geometry.length", {}, le, w.c3), fn(c, "geometry.length", {}, le, w.cl2), fn(c, "geometry.length", {}, le, w.cl3);
  auto ip = BIN(lg::interpolatedPointAtDistance(a, b));
  auto np = BIN(lg::nearestPointAtDistance(a, b));
  fn(c, "geometry.interpolatedPointAtDistance", {}, ip, w.l2, at), fn(c, "geometry.interpolatedPointAtDistance", {}, ip, w.l3, at), fn(c, "geometry.interpolatedPointAtDistance", {}, ip, w.c2, at);
  fn(c, "geometry.interpolatedPointAtDistance", {}, ip, w.c3, at), fn(c, "geometry.interpolatedPointAtDistance", {}, ip, w.cl3, at);
  auto cnp2 = [](auto& a, double d) { return ConstPoint2d(lg::nearestPointAtDistance(a, d)); };
  auto cnp3 = [](auto& a, double d) { return ConstPoint3d(lg::nearestPointAtDistance(a, d)); };
  fn(c, "geometry.nearestPointAtDistance", {}, cnp2, w.cl2, at), fn(c, "geometry.nearestPointAtDistance", {}, cnp3, w.cl3, at), fn(c, "geometry.nearestPointAtDistance", {}, cnp2, w.c2, at), fn(c, "geometry.nearestPointAtDistance", {}, cnp3, w.c3, at);
  auto pr = BIN(lg::project(a, b));
  fn(c, "geometry.project", {}, pr, w.l2, w.b2), fn(c, "geometry.project", {}, pr, w.l3, w.b3), fn(c, "geometry.project", {}, pr, w.c2, w.b2), fn(c, "geometry.project", {}, pr, w.c3, w.b3), fn(c, "geometry.project", {}, pr, w.cl2, w.b2);
  auto pp = BIN(lg::projectedPoint3d(a, b));
  fn(c, "geometry.projectedPoint3d", {}, pp, w.l3, w.l3), fn(c, "geometry.projectedPoint3d", {}, pp, w.c3, w.c3), fn(c, "geometry.projectedPoint3d", {}, pp, w.h3, w.h3);
  // intersections
  auto in = BIN(lg::intersects(a, b));
  fn(c, "geometry.intersects2d", {}, BIN(lg::intersects(utils::toHybrid(a), utils::toHybrid(b))), w.l2, w.l2), fn(c, "geometry.intersects2d", {}, in, w.h2, w.h2), fn(c, "geometry.intersects2d", {}, in, w.box2, w.box2);
  fn(c, "geometry.intersects2d", {}, BIN(lg::intersects(utils::toHybrid(a), utils::toHybrid(b))), w.c2, w.c2), fn(c, "geometry.intersects2d", {}, BIN(lg::intersects(utils::toHybrid(a), utils::toHybrid(b))), w.g2, w.g2);
  fn(c, "geometry.intersects2d", {}, in, w.hg2, w.hg2), fn(c, "geometry.intersects2d", {}, BIN(lg::intersects2d(a, b)), w.ll, w.ll), fn(c, "geometry.intersects2d", {}, BIN(lg::intersects2d(a, b)), w.ar, w.ar);
  fn(c, "geometry.intersects3d", {}, in, w.box3, w.box3);
  const std::vector<double> tol{0.5, 3, 10};
  auto tri = [](auto& l) {
    auto r = l;
    r.resize(std::min<size_t>(r.size(), 4));
    return r;
  };
  auto i3 = [](auto& a, auto& b, double t) { return lg::intersects3d(a, b, t); };
  auto o3 = [](auto& a, auto& b, double t) { return lg::overlaps3d(a, b, t); };
  fn(c, "geometry.intersects3d", {}, i3, w.l3, w.l3, tol), fn(c, "geometry.intersects3d", {}, i3, w.h3, w.h3, tol), fn(c, "geometry.intersects3d", {}, i3, w.c3, w.c3, tol);
  fn(c, "geometry.intersects3d", {{"lanelet1"}, {"lanelet2"}, {"heightTolerance", "3"}}, i3, tri(w.ll), tri(w.ll), tol);
  fn(c, "geometry.overlaps3d", {{"lanelet1"}, {"lanelet2"}, {"heightTolerance", "3"}}, o3, tri(w.ll), tri(w.ll), tol);
  fn(c, "geometry.overlaps2d", {}, BIN(lg::overlaps2d(a, b)), w.ll, w.cll);
  fn(c, "geometry.inside", {}, BIN(lg::inside(a, b)), w.ll, w.b2), fn(c, "geometry.length2d", {}, UN(lg::length2d(a)), w.ll), fn(c, "geometry.length3d", {}, UN(lg::length3d(a)), w.ll);
  fn(c, "geometry.approximatedLength2d", {}, UN(lg::approximatedLength2d(a)), w.ll), fn(c, "geometry.distanceToCenterline2d", {}, BIN(lg::distanceToCenterline2d(a, b)), w.ll, w.b2);
  fn(c, "geometry.distanceToCenterline3d", {}, BIN(lg::distanceToCenterline3d(a, b)), w.ll, w.b3);
  fn(c, "geometry.leftOf", {}, BIN(lg::leftOf(a, b)), w.ll, w.ll), fn(c, "geometry.rightOf", {}, BIN(lg::rightOf(a, b)), w.ll, w.ll), fn(c, "geometry.follows", {}, BIN(lg::follows(a, b)), w.ll, w.ll);
  fn(c, "geometry.intersectCenterlines2d", {}, [](auto& a, auto& b) {
    std::vector<BasicPoint2d> r;
    for (auto& p : lg::intersectCenterlines2d(a, b)) r.push_back(p);
    return r; }, w.ll, w.ll);
  auto is = [](auto& a, auto& b) {
    BasicPoints2d pts;
    boost::geometry::intersection(a.basicLineString(), b.basicLineString(), pts);
    std::vector<BasicPoint2d> r;
    for (auto& p : pts) r.push_back(p);
    return r;
  };
  fn(c, "geometry.intersection", {}, is, w.l2, w.l2), fn(c, "geometry.intersection", {}, is, w.c2, w.l2), fn(c, "geometry.intersection", {}, is, w.c2, w.c2), fn(c, "geometry.intersection", {}, is, w.cl2, w.cl2);
  // dimensions
  auto t2 = UN(utils::to2D(a));
  auto t3 = UN(utils::to3D(a));
  fn(c, "geometry.to2D", {}, t2, w.p3), fn(c, "geometry.to2D", {}, t2, w.cp3), fn(c, "geometry.to2D", {}, t2, w.b3), fn(c, "geometry.to2D", {}, t2, w.l3), fn(c, "geometry.to2D", {}, t2, w.cl3), fn(c, "geometry.to2D", {}, t2, w.g3);
  fn(c, "geometry.to2D", {}, t2, w.cg3), fn(c, "geometry.to2D", {}, t2, w.c3), fn(c, "geometry.to2D", {}, t2, w.k3);
  fn(c, "geometry.to3D", {}, t3, w.p2), fn(c, "geometry.to3D", {}, t3, w.cp2), fn(c, "geometry.to3D", {}, t3, w.b2), fn(c, "geometry.to3D", {}, t3, w.l2), fn(c, "geometry.to3D", {}, t3, w.cl2), fn(c, "geometry.to3D", {}, t3, w.g2);
  fn(c, "geometry.to3D", {}, t3, w.cg2), fn(c, "geometry.to3D", {}, t3, w.c2), fn(c, "geometry.to3D", {}, t3, w.k2);
  // layers
  const std::vector<pointLayerRef> pl{{w.map}};
  const std::vector<lineStringLayerRef> lsl{{w.map}};
  const std::vector<polygonLayerRef> pgl{{w.map}};
  const std::vector<laneletLayerRef> lal{{w.map}};
  const std::vector<areaLayerRef> arl{{w.map}};
  const std::vector<regulatoryElementLayerRef> rel{{w.map}};
  const std::vector<unsigned> ns{0, 1, 2, 5, 100};
  auto fnst = [](auto& l, auto& p, unsigned n) { return lg::findNearest(l.get(), p, n); };
  fn(c, "geometry.findNearest", {}, fnst, pl, w.b2, ns), fn(c, "geometry.findNearest", {}, fnst, lsl, w.b2, ns), fn(c, "geometry.findNearest", {}, fnst, pgl, w.b2, ns), fn(c, "geometry.findNearest", {}, fnst, lal, w.b2, ns);
  fn(c, "geometry.findNearest", {}, fnst, arl, w.b2, ns), fn(c, "geometry.findNearest", {}, fnst, rel, w.b2, ns);
  auto w2 = [](auto& l, auto& g, double d) { return lg::findWithin2d(l.get(), g, d); };
  auto w3 = [](auto& l, auto& g, double d) { return lg::findWithin3d(l.get(), g, d); };
  const std::vector<double> ds{0, 1, 4};
  const Kws wk{{"layer"}, {"geometry"}, {"maxDist", "0"}};
  auto all2 = [&](auto& layer) {
    fn(c, "geometry.findWithin2d", wk, w2, layer, w.p2, ds), fn(c, "geometry.findWithin2d", wk, w2, layer, w.b2, ds), fn(c, "geometry.findWithin2d", wk, w2, layer, w.box2, ds), fn(c, "geometry.findWithin2d", wk, w2, layer, w.g2, ds);
    fn(c, "geometry.findWithin2d", wk, w2, layer, w.l2, ds), fn(c, "geometry.findWithin2d", wk, w2, layer, w.c2, ds), fn(c, "geometry.findWithin2d", wk, w2, layer, w.ll, ds), fn(c, "geometry.findWithin2d", wk, w2, layer, w.ar, ds);
    fn(c, "geometry.findWithin3d", wk, w3, layer, w.p3, ds), fn(c, "geometry.findWithin3d", wk, w3, layer, w.b3, ds);
    auto nearest = [](auto& l, auto& p, unsigned n) { return l.get().nearest(p, n); };
    auto search = [](auto& l, auto& b) { return l.get().search(b); };
    fn(c, ".nearest", {{"point"}, {"n", "1"}}, nearest, layer, w.b2, ns), fn(c, ".search", {{"boundingBox"}}, search, layer, w.box2);
    std::vector<Id> ids{0, -1, 99999};
    for (auto& x : layer[0].get()) ids.push_back(utils::getId(x));
    fn(c, ".exists", {{"id"}}, [](auto& l, Id i) { return l.get().exists(i); }, layer, ids), fn(c, ".get", {{"id"}}, [](auto& l, Id i) { return l.get().get(i); }, layer, ids);
    fn(c, ".__contains__", {}, [](auto& l, Id i) { return l.get().exists(i); }, layer, ids), fn(c, ".__getitem__", {}, [](auto& l, Id i) { return l.get().get(i); }, layer, ids), fn(c, ".__len__", {}, [](auto& l) { return l.get().size(); }, layer);
  };
  all2(pl), all2(lsl), all2(pgl), all2(lal), all2(arl);
  fn(c, "geometry.findWithin3d", wk, w3, pl, w.box3, ds), fn(c, "geometry.findWithin3d", wk, w3, pl, w.g3, ds), fn(c, "geometry.findWithin3d", wk, w3, pl, w.l3, ds), fn(c, "geometry.findWithin3d", wk, w3, pl, w.c3, ds);
  fn(c, "geometry.findWithin3d", wk, w3, pl, tri(w.ll), ds), fn(c, "geometry.findWithin3d", wk, w3, pl, w.ar, ds);
  auto fu = [](auto& l, auto& x) { return l.get().findUsages(x); };
  fn(c, ".findUsages", {{"point"}}, fu, lsl, w.p3), fn(c, ".findUsages", {{"point"}}, fu, pgl, w.p3);
  fn(c, ".findUsages", {{"ls"}}, fu, lal, w.l3), fn(c, ".findUsages", {{"ls"}}, fu, arl, w.l3), fn(c, ".findUsages", {{"regelem"}}, fu, lal, w.re), fn(c, ".findUsages", {{"regelem"}}, fu, arl, w.re);
  std::vector<LineString3d> bounds{w.ll[0].leftBound(), w.ll[0].rightBound(), w.ar[0].outerBound()[0]};
  std::vector<ConstLineString3d> cbounds(bounds.begin(), bounds.end());
  fn(c, ".findUsages", {{"ls"}}, fu, lal, bounds), fn(c, ".findUsages", {{"ls"}}, fu, arl, bounds), fn(c, ".findUsages", {{"ls"}}, fu, lal, cbounds);
  std::vector<ConstPoint3d> ends{bounds[0].front(), bounds[1].back(), w.g3[0].front()};
  fn(c, ".findUsages", {{"point"}}, fu, lsl, ends), fn(c, ".findUsages", {{"point"}}, fu, pgl, ends);
}

// ------------------------------------------------------------------ points and primitives
void coreCalls(mc::Ctx& c, PyWorld& w) {
  const std::vector<double> xs{0, 1.5, -3}, fs{2, -0.5, 4};
  fn(c, "core.BasicPoint2d", {{"x", "0"}, {"y", "0"}}, BIN((BasicPoint2d{a, b})), xs, xs);
  fn(c, "core.BasicPoint3d", {{"x", "0"}, {"y", "0"}, {"z", "0"}}, [](double x, double y, double z) { return BasicPoint3d{x, y, z}; }, xs, xs, xs);
  auto add = BIN((std::decay_t<decltype(a)>(a + b)));
  auto sub = BIN((std::decay_t<decltype(a)>(a - b)));
  auto mul = BIN((std::decay_t<decltype(a)>(a * b)));
  auto div = BIN((std::decay_t<decltype(a)>(a / b)));
  fn(c, ".__add__", {}, add, w.b2, w.b2), fn(c, ".__sub__", {}, sub, w.b2, w.b2), fn(c, ".__mul__", {}, mul, w.b2, fs), fn(c, ".__rmul__", {}, mul, w.b2, fs), fn(c, ".__truediv__", {}, div, w.b2, fs);
  fn(c, ".__add__", {}, add, w.b3, w.b3), fn(c, ".__sub__", {}, sub, w.b3, w.b3), fn(c, ".__mul__", {}, mul, w.b3, fs), fn(c, ".__rmul__", {}, mul, w.b3, fs), fn(c, ".__truediv__", {}, div, w.b3, fs);
  auto bp = UN(a.basicPoint());
  fn(c, ".basicPoint", {}, bp, w.p3), fn(c, ".basicPoint", {}, bp, w.p2), fn(c, ".basicPoint", {}, bp, w.cp3), fn(c, ".basicPoint", {}, bp, w.cp2);
  fn(c, "core.BoundingBox2d", {{"min"}, {"max"}}, BIN((BoundingBox2d(a, b))), std::vector<BasicPoint2d>{{0, 0}, {-1, -2}}, std::vector<BasicPoint2d>{{3, 4}, {5, 5}});
  fn(c, "core.BoundingBox3d", {{"min"}, {"max"}}, BIN((BoundingBox3d(a, b))), std::vector<BasicPoint3d>{{0, 0, 0}, {-1, -2, -3}}, std::vector<BasicPoint3d>{{3, 4, 5}, {5, 5, 5}});
  fn(c, "core.GPSPoint", {{"lat", "0"}, {"lon", "0"}, {"ele", "0"}}, [](double x, double y, double z) { return GPSPoint{x, y, z}; }, xs, xs, xs);
  // constructors and what the result then has
  const std::vector<Id> ids{5, 77};
  const std::vector<AttributeMap> attrs{AttributeMap{}, AttributeMap{{"k", "v"}, {"l", "1"}}};
  auto all = [&](const std::string& name, const Kws& kw, auto make, auto show, auto&... pools) {
    // one pass for the object and one for everything it consists of
    fn(c, name, kw, make, pools...);
    (void)show;
  };
  fn(c, "core.Point3d", {{"id"}, {"x"}, {"y"}, {"z", "0"}, {"attributes", "{}"}}, [](Id i, double x, double y, double z, auto& at) { return Point3d(i, x, y, z, at); }, ids, xs, xs, xs, attrs);
  fn(c, "core.Point2d", {{"id"}, {"x"}, {"y"}, {"z", "0"}, {"attributes", "{}"}}, [](Id i, double x, double y, double z, auto& at) { return Point2d(i, x, y, z, at); }, ids, xs, xs, xs, attrs);
  fn(c, "core.Point3d", {}, [](Id i, auto& p) { return Point3d(i, p); }, ids, w.b3), fn(c, "core.Point2d", {}, UN(Point2d(a)), w.p3), fn(c, "core.Point3d", {}, UN(Point3d(a)), w.p2);
  std::vector<Points3d> pss{{}, {w.p3[0]}, {w.p3[0], w.p3[1], w.p3[2]}};
  std::vector<List<Point3d>> ps;
  for (auto& x : pss) ps.push_back({x});
  fn(c, "core.LineString3d", {{"id", "0"}, {"points", "[]"}, {"attributes", "{}"}}, [](Id i, auto& p, auto& at) { return LineString3d(i, p.v, at); }, ids, ps, attrs);
  fn(c, "core.LineString2d", {{"id"}, {"points"}, {"attributes", "{}"}}, [](Id i, auto& p, auto& at) { return LineString2d(i, p.v, at); }, ids, ps, attrs);
  fn(c, "core.Polygon3d", {{"id"}, {"points"}, {"attributes", "{}"}}, [](Id i, auto& p, auto& at) { return Polygon3d(i, p.v, at); }, ids, ps, attrs);
  fn(c, "core.Polygon2d", {{"id"}, {"points"}, {"attributes", "{}"}}, [](Id i, auto& p, auto& at) { return Polygon2d(i, p.v, at); }, ids, ps, attrs);
  fn(c, "core.LineString2d", {}, UN(LineString2d(a)), w.l3), fn(c, "core.LineString3d", {}, UN(LineString3d(a)), w.l2);
  fn(c, "core.ConstHybridLineString2d", {}, UN(ConstHybridLineString2d(a)), w.l2), fn(c, "core.ConstHybridLineString3d", {}, UN(ConstHybridLineString3d(a)), w.l3);
  fn(c, "core.ConstHybridPolygon2d", {}, UN(ConstHybridPolygon2d(a)), w.g2), fn(c, "core.ConstHybridPolygon3d", {}, UN(ConstHybridPolygon3d(a)), w.g3);
  std::vector<List<LineString3d>> lss{{{w.l3[0]}}, {{w.l3[0], w.l3[1]}}, {w.l3}};
  fn(c, "core.CompoundLineString3d", {}, [](auto& l) { return CompoundLineString3d(ConstLineStrings3d(l.v.begin(), l.v.end())); }, lss);
  fn(c, "core.CompoundPolygon3d", {}, [](auto& l) { return CompoundPolygon3d(ConstLineStrings3d(l.v.begin(), l.v.end())); }, lss);
  auto inv = UN(a.invert());
  fn(c, ".invert", {}, inv, w.l3), fn(c, ".invert", {}, inv, w.l2), fn(c, ".invert", {}, inv, w.cl3), fn(c, ".invert", {}, inv, w.cl2), fn(c, ".invert", {}, inv, w.h2), fn(c, ".invert", {}, inv, w.h3), fn(c, ".invert", {}, inv, w.ll), fn(c, ".invert", {}, inv, w.cll);
  auto inver = UN(a.inverted());
  fn(c, ".inverted", {}, inver, w.l3), fn(c, ".inverted", {}, inver, w.l2), fn(c, ".inverted", {}, inver, w.cl3), fn(c, ".inverted", {}, inver, w.ll), fn(c, ".inverted", {}, inver, w.cll);
  // lanelets
  fn(c, "core.Lanelet", {{"id"}, {"leftBound"}, {"rightBound"}, {"attributes", "{}"}}, [](Id i, auto& l, auto& r, auto& at) { return Lanelet(i, l, r, at); }, ids, w.l3, w.l3, attrs);
  fn(c, "core.ConstLanelet", {{"id"}, {"leftBound"}, {"rightBound"}, {"attributes", "{}"}}, [](Id i, auto& l, auto& r, auto& at) { return ConstLanelet(i, l, r, at); }, ids, w.l3, w.l3, attrs);
  fn(c, "core.ConstLanelet", {{"lanelet"}}, UN(ConstLanelet(a)), w.ll);
  auto lb = UN(a.leftBound());
  auto rb = UN(a.rightBound());
  auto at = UN(a.attributes());
  fn(c, "@leftBound", {}, lb, w.cll), fn(c, "@rightBound", {}, rb, w.cll), fn(c, "@attributes", {}, at, w.cll), fn(c, "@centerline", {}, UN(a.centerline()), w.cll), fn(c, "@centerline", {}, UN(a.centerline()), w.ll);
  fn(c, "@leftBound", {}, [](Lanelet l) { return l.leftBound(); }, w.ll), fn(c, "@rightBound", {}, [](Lanelet l) { return l.rightBound(); }, w.ll), fn(c, "@attributes", {}, [](Lanelet l) { return l.attributes(); }, w.ll);
  auto p2 = UN(a.polygon2d());
  auto p3 = UN(a.polygon3d());
  fn(c, ".polygon2d", {}, p2, w.ll), fn(c, ".polygon3d", {}, p3, w.ll), fn(c, ".polygon2d", {}, p2, w.cll), fn(c, ".polygon3d", {}, p3, w.cll);
  fn(c, "@regulatoryElements", {}, UN(a.regulatoryElements()), w.cll), fn(c, "@regulatoryElements", {}, UN(a.regulatoryElements()), w.car);
  fn(c, ".trafficLights", {}, UN(a.template regulatoryElementsAs<TrafficLight>()), w.cll), fn(c, ".speedLimits", {}, UN(a.template regulatoryElementsAs<SpeedLimit>()), w.cll), fn(c, ".trafficSigns", {}, UN(a.template regulatoryElementsAs<TrafficSign>()), w.ll);
  fn(c, ".rightOfWay", {}, UN(a.template regulatoryElementsAs<RightOfWay>()), w.cll), fn(c, ".allWayStop", {}, UN(a.template regulatoryElementsAs<AllWayStop>()), w.ll);
  std::vector<List<ConstLanelet>> seqs{{{w.cll[0]}}, {{w.cll[0], w.cll[1]}}, {{}}};
  fn(c, "core.LaneletSequence", {}, [](auto& l) { return LaneletSequence(l.v); }, seqs);
  std::vector<LaneletSequence> sq{LaneletSequence({w.cll[0]}), LaneletSequence({w.cll[0], w.cll[1]})};
  fn(c, "@leftBound", {}, lb, sq), fn(c, "@rightBound", {}, rb, sq), fn(c, "@centerline", {}, UN(a.centerline()), sq), fn(c, ".polygon2d", {}, p2, sq), fn(c, ".polygon3d", {}, p3, sq), fn(c, ".invert", {}, inv, sq), fn(c, ".lanelets", {}, UN(a.lanelets()), sq);
  fn(c, ".inverted", {}, inver, sq);
  // areas
  std::vector<List<LineString3d>> outer{{w.ar[0].outerBound()}, {w.ar[1].outerBound()}};
  std::vector<List<List<LineString3d>>> inner{{{}}, {{{w.ar[0].innerBounds()[0]}}}};
  auto mk = [](auto tag) {
    return [tag](Id i, auto& o, auto& in, auto& at) {
      InnerBounds ib;
      for (auto& x : in.v) ib.push_back(x.v);
      return std::decay_t<decltype(tag)>(i, o.v, ib, at);
    };
  };
  fn(c, "core.Area", {{"id"}, {"outerBound"}, {"innerBounds", "[]"}, {"attributes", "{}"}}, mk(Area()), ids, outer, inner, attrs);
  fn(c, "core.ConstArea", {{"id"}, {"outerBound"}, {"innerBounds", "[]"}, {"attributes", "{}"}}, mk(ConstArea(0, {})), ids, outer, inner, attrs);
  fn(c, ".outerBoundPolygon", {}, UN(a.outerBoundPolygon()), w.ar), fn(c, ".outerBoundPolygon", {}, UN(a.outerBoundPolygon()), w.car), fn(c, ".innerBoundPolygons", {}, UN(a.innerBoundPolygons()), w.ar), fn(c, ".innerBoundPolygons", {}, UN(a.innerBoundPolygons()), w.car);
  fn(c, "@outerBound", {}, UN(a.outerBound()), w.car);
  // maps
  auto mp = [](auto& l) { return LaneletMapPtr(utils::createMap(l.v)); };
  auto sm = [](auto& l) { return LaneletSubmapPtr(utils::createSubmap(l.v)); };
  std::vector<List<Point3d>> mps{{{}}, {{w.p3[0], w.p3[1]}}};
  std::vector<List<Polygon3d>> gss{{{}}, {{w.g3[0], w.g3[1]}}};
  std::vector<List<Lanelet>> lns{{{}}, {{w.ll[0], w.ll[1]}}, {{w.ll[2]}}};
  std::vector<List<Area>> ars{{{}}, {{w.ar[0]}}, {w.ar}};
  fn(c, "core.createMapFromPoints", {{"points"}}, mp, mps), fn(c, "core.createMapFromLineStrings", {{"linestrings"}}, mp, lss), fn(c, "core.createMapFromPolygons", {{"polygons"}}, mp, gss), fn(c, "core.createMapFromLanelets", {{"lanelets"}}, mp, lns);
  fn(c, "core.createMapFromAreas", {{"areas"}}, mp, ars);
  fn(c, "core.createSubmapFromPoints", {{"points"}}, sm, mps), fn(c, "core.createSubmapFromLineStrings", {{"linestrings"}}, sm, lss), fn(c, "core.createSubmapFromPolygons", {{"polygons"}}, sm, gss), fn(c, "core.createSubmapFromLanelets", {{"lanelets"}}, sm, lns);
  fn(c, "core.createSubmapFromAreas", {{"areas"}}, sm, ars);
  fn(c, ".laneletMap", {}, [](auto& m) { return LaneletMapPtr(m->laneletMap()); }, std::vector<LaneletSubmapPtr>{utils::createSubmap(Lanelets{w.ll[0], w.ll[1]})});
  // regulatory elements
  std::vector<RegulatoryElementPtr> made;
  std::vector<List<LineStringOrPolygon3d>> signs{{{}}, {{LineStringOrPolygon3d(w.l3[1])}}, {{LineStringOrPolygon3d(w.l3[1]), LineStringOrPolygon3d(w.g3[0])}}};
  std::vector<Optional<LineString3d>> stops{{}, w.l3[2]};
  auto params = [](const RegulatoryElementPtr& r) {
    std::string s = canon(r) + canon(r->attributes());
    for (auto& p : r->getParameters()) s += p.first + ":" + std::to_string(p.second.size()) + ";";
    return s;
  };
  (void)params;
  fn(c, "core.TrafficLight", {{"id"}, {"attributes"}, {"trafficLights"}, {"stopLine", "None"}}, [](Id i, auto& at, auto& s, auto& st) { return TrafficLight::make(i, at, s.v, st); }, ids, attrs, signs, stops);
  std::vector<List<Lanelet>> some{{{w.ll[0]}}, {{w.ll[1], w.ll[2]}}, {{}}};
  fn(c, "core.RightOfWay", {{"id"}, {"attributes"}, {"rightOfWayLanelets"}, {"yieldLanelets"}, {"stopLine", "None"}}, [](Id i, auto& at, auto& r, auto& y, auto& st) { return RightOfWay::make(i, at, r.v, y.v, st); }, ids, attrs, some, some, stops);
  auto tl = TrafficLight::make(501, {}, {LineStringOrPolygon3d(w.l3[1]), LineStringOrPolygon3d(w.g3[0])}, w.l3[2]);
  std::vector<TrafficLight::Ptr> tls{tl, TrafficLight::make(502, {}, {LineStringOrPolygon3d(w.g3[1])})};
  fn(c, "@trafficLights", {}, UN(a->trafficLights()), tls), fn(c, "@stopLine", {}, UN(a->stopLine()), tls), fn(c, "@id", {}, UN(a->id()), tls);
  std::vector<std::shared_ptr<RightOfWay>> rows{RightOfWay::make(503, {}, {w.ll[0], w.ll[1]}, {w.ll[3]}, w.l3[0]), RightOfWay::make(504, {}, {w.ll[0]}, {w.ll[1], w.ll[2]})};
  fn(c, ".rightOfWayLanelets", {}, UN(a->rightOfWayLanelets()), rows), fn(c, ".yieldLanelets", {}, UN(a->yieldLanelets()), rows), fn(c, "@stopLine", {}, UN(a->stopLine()), rows), fn(c, ".getManeuver", {}, [](auto& r, auto& l) { return r->getManeuver(l); }, rows, w.ll);
  std::vector<SpeedLimit::Ptr> sls{SpeedLimit::make(505, {}, {{w.l3[1]}, "de274"}, {{w.l3[2]}, "de278"}, {w.l3[0]}, {w.l3[2]}), SpeedLimit::make(506, {}, {{w.g3[0], w.l3[1]}, "de275"})};
  fn(c, ".trafficSigns", {}, UN(a->trafficSigns()), sls), fn(c, ".cancellingTrafficSigns", {}, UN(a->cancellingTrafficSigns()), sls), fn(c, ".refLines", {}, UN(a->refLines()), sls), fn(c, ".cancelLines", {}, UN(a->cancelLines()), sls);
  fn(c, ".type", {}, UN(a->type()), sls), fn(c, ".cancelTypes", {}, UN(a->cancelTypes()), sls);
  auto signs2 = [](auto& l, const std::string& t) { return l.v.empty() ? std::string("?") : t; };
  (void)signs2;
  (void)all;
}

// ------------------------------------------------------------------ traffic rules
void rulesCalls(mc::Ctx& c, PyWorld& w) {
  std::vector<std::string> locs{"de", "xx"}, parts{"vehicle", "vehicle:car", "vehicle:bus", "bicycle", "pedestrian", "train", "nobody"};
  fn(c, "traffic_rules.create", {{"location"}, {"participant"}}, [](auto& l, auto& p) { return traffic_rules::TrafficRulesPtr(traffic_rules::TrafficRulesFactory::create(l, p)); }, locs, parts);
  std::vector<traffic_rules::TrafficRulesPtr> rules;
  for (auto p : {"vehicle", "vehicle:car", "bicycle", "pedestrian"}) rules.push_back(traffic_rules::TrafficRulesFactory::create("de", p));
  auto cp = [](auto& r, auto& x) { return r->canPass(x); };
  auto cp2 = [](auto& r, auto& x, auto& y) { return r->canPass(x, y); };
  // a network in which almost everything is connected
  Net n = Grid{2, 2}.net();
  for (int j = 0; j < 2; ++j) n.marks[Grid{2, 2}.border(j, 0)] = j ? Dashed : ToLeft;
  n.pts.push_back({20, 4, 0});
  n.cells[1].use = Both;
  n.cells[0].speed = 30;
  n.areas.push_back({Grid{2, 2}.pt(0, 2), Grid{2, 2}.pt(1, 2), int(n.pts.size()) - 1});
  n.areaUse.push_back(Walkway);
  n.build();
  std::vector<ConstLanelet> lls(n.lanelets.begin(), n.lanelets.end());
  lls.push_back(n.lanelets[1].invert());
  std::vector<Lanelet> mlls(n.lanelets.begin(), n.lanelets.end());
  std::vector<ConstArea> ars{n.areaObjs[0], w.car[0]};
  mlls.push_back(w.ll[1]);  // has a speed limit sign
  lls.push_back(w.ll[1]);
  fn(c, ".canPass", {}, cp, rules, lls), fn(c, ".canPass", {}, cp, rules, mlls), fn(c, ".canPass", {}, cp, rules, ars), fn(c, ".canPass", {}, cp2, rules, lls, lls), fn(c, ".canPass", {}, cp2, rules, lls, ars), fn(c, ".canPass", {}, cp2, rules, ars, lls);
  fn(c, ".canPass", {}, cp2, rules, ars, ars), fn(c, ".canPass", {}, cp2, rules, mlls, mlls);
  fn(c, ".canChangeLane", {}, [](auto& r, auto& x, auto& y) { return r->canChangeLane(x, y); }, rules, lls, lls);
  fn(c, ".speedLimit", {}, [](auto& r, auto& x) { return r->speedLimit(x); }, rules, lls), fn(c, ".speedLimit", {}, [](auto& r, auto& x) { return r->speedLimit(x); }, rules, ars);
  fn(c, ".isOneWay", {}, [](auto& r, auto& x) { return r->isOneWay(x); }, rules, lls), fn(c, ".hasDynamicRules", {}, [](auto& r, auto& x) { return r->hasDynamicRules(x); }, rules, lls);
  fn(c, ".location", {}, [](auto& r) { return std::string(r->location()); }, rules), fn(c, ".participant", {}, [](auto& r) { return std::string(r->participant()); }, rules);
  const std::vector<double> v{0, 10, 27.7};
  fn(c, "traffic_rules.SpeedLimitInformation", {{"speedLimitMPS"}, {"isMandatory", "True"}}, [](double x, bool m) { return traffic_rules::SpeedLimitInformation{Velocity(x * units::MPS()), m}; }, v, Both2);
  std::vector<traffic_rules::SpeedLimitInformation> si{{Velocity(10 * units::MPS()), true}, {Velocity(25 * units::MPS()), false}};
  fn(c, "calls.speeds", {}, [](auto& s) { return std::make_pair(s.speedLimit.value(), s.isMandatory); }, std::vector<traffic_rules::SpeedLimitInformation>{});
  auto kmh = UN(a.speedLimit.value() * 3.6);
  fn(c, "@speedLimit", {}, kmh, si), fn(c, "@speedLimitKmH", {}, kmh, si), fn(c, "@speedLimitMPS", {}, UN(a.speedLimit.value()), si), fn(c, "@isMandatory", {}, UN(a.isMandatory), si);
}

// ------------------------------------------------------------------ routing
struct IdCost : routing::RoutingCost {  // as in calls.py
  double getCostSucceeding(const traffic_rules::TrafficRules& r, const ConstLaneletOrArea& f, const ConstLaneletOrArea& t) const override {
    return 1. + double((f.id() * 7 + t.id() * 3) % 10) + (f.isLanelet() && r.canPass(*f.lanelet()) ? .25 : 100.);
  }
  double getCostLaneChange(const traffic_rules::TrafficRules&, const ConstLanelets& f, const ConstLanelets& t) const override {
    Id s = 0;
    for (auto& l : f) s += l.id();
    return 2. + double(s % 5) + double(t.size());
  }
};
struct MixedDistance : routing::RoutingCostDistance {
  using RoutingCostDistance::RoutingCostDistance;
  double getCostLaneChange(const traffic_rules::TrafficRules& r, const ConstLanelets& f, const ConstLanelets& t) const noexcept override { return IdCost().getCostLaneChange(r, f, t); }
};
struct MixedTime : routing::RoutingCostTravelTime {
  using RoutingCostTravelTime::RoutingCostTravelTime;
  double getCostSucceeding(const traffic_rules::TrafficRules& r, const ConstLaneletOrArea& f, const ConstLaneletOrArea& t) const override { return IdCost().getCostSucceeding(r, f, t); }
};
struct Kind {
  int k;
};
std::string canon(const Kind& k) { return "kind" + std::to_string(k.k); }
routing::RoutingCostPtrs costsOf(int k) {
  if (k == 0) return {std::make_shared<IdCost>()};
  if (k == 1) return {std::make_shared<MixedDistance>(1.)};
  if (k == 2) return {std::make_shared<MixedTime>(1.5)};
  return {std::make_shared<IdCost>(), std::make_shared<routing::RoutingCostDistance>(2., 5.)};
}
py::object toPy(const Kind& k) { return modules().at("calls").attr("costs")(k.k); }
void routingCalls(mc::Ctx& c) {
  using namespace routing;
  std::vector<Net> nets;
  {
    Grid g{2, 3};
    Net n = g.net();
    n.marks[g.border(0, 0)] = Dashed;
    n.marks[g.border(1, 0)] = ToLeft;
    n.marks[g.border(2, 0)] = Dashed;
    n.cells[5].speed = 30;
    n.cells[3].use = Both;
    // a lanelet across the road
    nets.push_back(n);
    n.pts.push_back({20, 16, 0});
    n.areas.push_back({g.pt(0, 2), g.pt(1, 2), int(n.pts.size()) - 1});
    n.areaUse.push_back(Forward);
    n.marks[Net::key(g.pt(0, 2), g.pt(1, 2))] = Virtual;
    n.cells[4].use = Absent;
    nets.push_back(n);
  }
  for (auto& n : nets) {
    n.build();
    auto rules = traffic_rules::TrafficRulesPtr(traffic_rules::TrafficRulesFactory::create("de", "bicycle"));
    if (&n == &nets[0]) rules = traffic_rules::TrafficRulesFactory::create("de", "vehicle");
    RoutingCostPtrs costs{std::make_shared<RoutingCostDistance>(2.), std::make_shared<RoutingCostTravelTime>(1.5, 0.)};
    std::vector<RoutingGraphPtr> g{RoutingGraphPtr(RoutingGraph::build(*n.map, *rules, costs))};
    std::vector<LaneletMapPtr> maps{n.map};
    std::vector<traffic_rules::TrafficRulesPtr> rs{rules};
    const std::vector<Kind> kinds{{0}, {1}, {2}, {3}};
    fn(c, "routing.RoutingGraph", {{"laneletMap"}, {"trafficRules"}, {"routingCost"}}, [](auto& m, auto& r, auto& k) { return RoutingGraphPtr(RoutingGraph::build(*m, *r, costsOf(k.k))); }, maps, rs, kinds);
    fn(c, "routing.RoutingGraph", {{"laneletMap"}, {"trafficRules"}}, [](auto& m, auto& r) { return RoutingGraphPtr(RoutingGraph::build(*m, *r)); }, maps, rs);
    std::vector<LaneletSubmapPtr> subs{utils::createSubmap(Lanelets{n.lanelets[0], n.lanelets[1], n.lanelets[2]})};
    fn(c, "routing.RoutingGraph", {{"laneletSubmap"}, {"trafficRules"}, {"routingCost"}}, [](auto& m, auto& r, auto& k) { return RoutingGraphPtr(RoutingGraph::build(*m, *r, costsOf(k.k))); }, subs, rs, kinds);
    fn(c, "routing.RoutingGraph", {{"laneletSubmap"}, {"trafficRules"}}, [](auto& m, auto& r) { return RoutingGraphPtr(RoutingGraph::build(*m, *r)); }, subs, rs);
    std::vector<ConstLanelet> lls;
    std::vector<ConstLaneletOrArea> las;
    for (auto& l : n.lanelets) {
      lls.push_back(l);
      las.emplace_back(l);
      if (n.cells[size_t(l.id() - 100)].use == Both) lls.push_back(l.invert());
    }
    for (auto& a : n.areaObjs) las.emplace_back(a);
    const std::vector<RoutingCostId> ids{0, 1, 7};
    const std::vector<double> limits{-1, 0, 7, 25, 1000};
    const Kws ft{{"from"}, {"to"}, {"routingCostId", "0"}, {"withLaneChanges", "True"}};
    fn(c, ".getRoute", ft, [](auto& g, auto& a, auto& b, auto i, bool l) { return g->getRoute(a, b, i, l); }, g, lls, lls, ids, Both2);
    fn(c, ".shortestPath", ft, [](auto& g, auto& a, auto& b, auto i, bool l) { return g->shortestPath(a, b, i, l); }, g, lls, lls, ids, Both2);
    std::vector<List<ConstLanelet>> vias{{{}}, {{lls[2]}}, {{lls[1], lls[3]}}};
    fn(c, ".getRouteVia", {{"from"}, {"via"}, {"to"}, {"routingCostId", "0"}, {"withLaneChanges", "True"}}, [](auto& g, auto& a, auto& v, auto& b, auto i, bool l) { return g->getRouteVia(a, v.v, b, i, l); }, g, lls, vias, lls, ids, Both2);
    fn(c, ".shortestPathWithVia", {{"start"}, {"via"}, {"end"}, {"routingCostId", "0"}, {"withLaneChanges", "True"}}, [](auto& g, auto& a, auto& v, auto& b, auto i, bool l) { return g->shortestPathVia(a, v.v, b, i, l); }, g, lls, vias, lls, ids, Both2);
    fn(c, ".routingRelation", {{"from"}, {"to"}, {"includeConflicting", "False"}}, [](auto& g, auto& a, auto& b, bool i) { return g->routingRelation(a, b, i); }, g, lls, lls, Both2);
    const Kws lc{{"lanelet"}, {"withLaneChanges", "False"}}, li{{"lanelet"}, {"routingCostId", "0"}};
#define LC(X) fn(c, "." #X, lc, [](auto& g, auto& a, bool l) { return g->X(a, l); }, g, lls, Both2)
    LC(following), LC(followingRelations), LC(previous), LC(previousRelations);
#define LI(X) fn(c, "." #X, li, [](auto& g, auto& a, auto i) { return g->X(a, i); }, g, lls, ids)
    LI(besides), LI(left), LI(right), LI(adjacentLeft), LI(adjacentRight), LI(lefts), LI(rights), LI(adjacentLefts), LI(adjacentRights), LI(leftRelations), LI(rightRelations);
    fn(c, ".conflicting", {{"lanelet"}}, [](auto& g, auto& a) { return g->conflicting(a); }, g, lls);
    fn(c, ".conflicting", {{"lanelet"}}, [](auto& g, auto& a) { return g->conflicting(a); }, g, las);
    const Kws rk{{"lanelet"}, {"maxRoutingCost"}, {"RoutingCostId", "0"}, {"allowLaneChanges", "True"}};
    fn(c, ".reachableSet", rk, [](auto& g, auto& a, double m, auto i, bool l) { return g->reachableSet(a, m, i, l); }, g, lls, limits, ids, Both2);
    fn(c, ".reachableSetTowards", rk, [](auto& g, auto& a, double m, auto i, bool l) { return g->reachableSetTowards(a, m, i, l); }, g, lls, limits, ids, Both2);
    const Kws pk{{"lanelet"}, {"minRoutingCost"}, {"routingCostId", "0"}, {"allowLaneChanges", "False"}};
    fn(c, ".possiblePaths", pk, [](auto& g, auto& a, double m, auto i, bool l) { return g->possiblePaths(a, m, i, l); }, g, lls, limits, ids, Both2);
    fn(c, ".possiblePathsTowards", pk, [](auto& g, auto& a, double m, auto i, bool l) { return g->possiblePathsTowards(a, m, i, l); }, g, lls, limits, ids, Both2);
    const std::vector<uint32_t> lens{0, 1, 2, 3, 9};
    const Kws nk{{"lanelet"}, {"minLanelets"}, {"allowLaneChanges", "False"}, {"routingCostId", "0"}};
    fn(c, ".possiblePathsMinLen", nk, [](auto& g, auto& a, auto m, bool l, auto i) { return g->possiblePaths(a, m, l, i); }, g, lls, lens, Both2, ids);
    fn(c, ".possiblePathsTowardsMinLen", nk, [](auto& g, auto& a, auto m, bool l, auto i) { return g->possiblePathsTowards(a, m, l, i); }, g, lls, lens, Both2, ids);
    std::vector<Optional<double>> ol{{}, 0., 12., 1000.};
    std::vector<Optional<uint32_t>> oe{{}, 0U, 2U, 9U};
    const Kws ppk{{"routingCostLimit", "None"}, {"elementLimit", "None"}, {"routingCostId", "0"}, {"includeLaneChanges", "False"}, {"includeShorterPaths", "False"}};
    fn(c, "routing.PossiblePathsParams", ppk, [](auto& l, auto& e, auto i, bool a, bool b) { return PossiblePathsParams{l, e, i, a, b}; }, ol, oe, ids, Both2, Both2);
    std::vector<PossiblePathsParams> pps;
    for (auto& l : ol) {
      for (auto& e : oe) {
        for (int k = 0; k < 8; ++k) pps.push_back({l, e, RoutingCostId(k & 1), (k & 2) != 0, (k & 4) != 0});
      }
    }
    fn(c, ".possiblePaths", {{"lanelet"}, {"parameters"}}, [](auto& g, auto& a, auto& p) { return g->possiblePaths(a, p); }, g, lls, pps);
    fn(c, ".possiblePathsTowards", {{"lanelet"}, {"parameters"}}, [](auto& g, auto& a, auto& p) { return g->possiblePathsTowards(a, p); }, g, lls, pps);
    // searches with a function
    const std::vector<int> modes{0, 1, 2, 3};
    struct End {};
    auto visit = [](auto search, auto& out, int mode) {
      try {
        search([&](auto& info) {
          out.push_back(info);
          if (mode == 1) return info.numLaneChanges == 0;
          if (mode == 2) return info.length < 2;
          if (mode == 3 && out.size() >= 3) throw End();
          return true;
        });
      } catch (const End&) {
      }
      return out;
    };
    const std::vector<std::string> fw{"forEachSuccessor", "forEachPredecessor"}, fa{"forEachSuccessorIncludingAreas", "forEachPredecessorIncludingAreas"};
    const Kws vk{{"allowLaneChanges", "True"}, {"routingCostId", "0"}};
    fn(c, "calls.visits", vk, [&](auto& g, auto& name, auto& l, int mode, bool lc, auto i) {
      std::vector<LaneletVisitInformation> out;
      return visit([&](auto f) { name == "forEachSuccessor" ? g->forEachSuccessor(l, f, lc, i) : g->forEachPredecessor(l, f, lc, i); }, out, mode); }, g, fw, lls, modes, Both2, ids);
    fn(c, "calls.visits", vk, [&](auto& g, auto& name, auto& l, int mode, bool lc, auto i) {
      std::vector<LaneletOrAreaVisitInformation> out;
      return visit([&](auto f) { name == "forEachSuccessorIncludingAreas" ? g->forEachSuccessorIncludingAreas(l, f, lc, i) : g->forEachPredecessorIncludingAreas(l, f, lc, i); }, out, mode); }, g, fa, las, modes, Both2, ids);
    fn(c, ".checkValidity", {{"throwOnError", "True"}}, [](auto& g, bool t) { return g->checkValidity(t); }, g, Both2);
    fn(c, ".passableLaneletSubmap", {}, [](auto& g) { return std::const_pointer_cast<LaneletSubmap>(g->passableSubmap()); }, g);
    // routes
    std::vector<std::shared_ptr<Route>> routes;
    for (auto& a : lls) {
      for (auto& b : lls) {
        for (bool l : {false, true}) {
          auto r = g[0]->getRoute(a, b, 0, l);
          if (r && routes.size() < (c.quick ? 12U : 60U)) routes.push_back(std::make_shared<Route>(std::move(*r)));
        }
      }
    }
    fn(c, ".shortestPath", {}, UN(LaneletPath(a->shortestPath())), routes), fn(c, ".length2d", {}, UN(a->length2d()), routes), fn(c, ".numLanes", {}, UN(a->numLanes()), routes), fn(c, ".size", {}, UN(a->size()), routes);
    fn(c, ".allConflictingInMap", {}, UN(a->allConflictingInMap()), routes), fn(c, ".checkValidity", {}, [](auto& r, bool t) { return r->checkValidity(t); }, routes, Both2), fn(c, ".laneletSubmap", {}, UN(std::const_pointer_cast<LaneletSubmap>(a->laneletSubmap())), routes);
#define RL(X) fn(c, "." #X, {}, [](auto& r, auto& l) { return r->X(l); }, routes, lls)
    RL(fullLane), RL(remainingLane), RL(remainingShortestPath), RL(followingRelations), RL(previousRelations), RL(leftRelation), RL(leftRelations), RL(rightRelation), RL(rightRelations), RL(conflictingInRoute), RL(conflictingInMap);
    fn(c, ".__contains__", {}, [](auto& r, auto& l) { return r->contains(l); }, routes, lls);
    fn(c, "calls.visits", {}, [&](auto& r, auto& name, auto& l, int mode) {
      std::vector<LaneletVisitInformation> out;
      return visit([&](auto f) { name == "forEachSuccessor" ? r->forEachSuccessor(l, f) : r->forEachPredecessor(l, f); }, out, mode); }, routes, fw, lls, modes);
    // paths
    std::vector<LaneletPath> paths;
    for (auto& r : routes) paths.push_back(r->shortestPath());
    fn(c, ".getRemainingLane", {}, [](auto& p, auto& l) { return p.getRemainingLane(l); }, paths, lls), fn(c, ".__eq__", {}, BIN(a == b), paths, paths), fn(c, ".__ne__", {}, BIN(a != b), paths, paths);
    std::vector<List<ConstLanelet>> pl{{{}}, {{lls[0]}}, {{lls[0], lls[2]}}};
    fn(c, "routing.LaneletPath", {{"lanelets"}}, [](auto& l) { return LaneletPath(l.v); }, pl);
    // cost modules on their own
    std::vector<double> cs{0, 1.5}, mins{0, 12};
    struct Probe {
      Net* n;
    };
    std::vector<std::shared_ptr<RoutingCost>> rcs{costs[0], costs[1], std::make_shared<RoutingCostDistance>(3., 12.), std::make_shared<RoutingCostTravelTime>(3., 2.)};
    fn(c, ".getCostSucceeding", {{"trafficRules"}, {"from"}, {"to"}}, [](auto& k, auto& r, auto& a, auto& b) { return k->getCostSucceeding(*r, a, b); }, rcs, rs, las, las);
    fn(c, ".getCostLaneChange", {{"trafficRules"}, {"from"}, {"to"}}, [](auto& k, auto& r, auto& a, auto& b) { return k->getCostLaneChange(*r, a.v, b.v); }, rcs, rs, pl, pl);
  }
}

// ------------------------------------------------------------------ matching
void matchingCalls(mc::Ctx& c, PyWorld& w) {
  using namespace matching;
  std::vector<LaneletMapPtr> maps{w.map};
  std::vector<Object2d> objs;
  std::vector<ObjectWithCovariance2d> cobjs;
  for (auto& p : w.b2) {
    for (double yaw : {0., 1.2, 3.1}) {
      for (int hull = 0; hull < 2; ++hull) {
        Object2d o;
        o.objectId = 3;
        o.pose = Pose2d(Eigen::Rotation2Dd(yaw));
        o.pose.translation() = p;
        if (hull) o.absoluteHull = {BasicPoint2d(p.x() - 1, p.y() - 1), BasicPoint2d(p.x() + 1, p.y() - 1), BasicPoint2d(p.x(), p.y() + 1)};
        objs.push_back(o);
        ObjectWithCovariance2d q;
        static_cast<Object2d&>(q) = o;
        q.positionCovariance << 2, 0.5, 0.5, 1;
        q.vonMisesKappa = 2.;
        cobjs.push_back(q);
      }
    }
  }
  const std::vector<double> d{0, 1, 3, 10};
  fn(c, "matching.getDeterministicMatches", {}, [](auto& m, auto& o, double d) { return getDeterministicMatches(static_cast<const LaneletMap&>(*m), o, d); }, maps, objs, d);
  fn(c, "matching.getDeterministicMatches", {}, [](auto& m, auto& o, double d) { return getDeterministicMatches(static_cast<const LaneletMap&>(*m), o, d); }, maps, cobjs, d);
  fn(c, "matching.getProbabilisticMatches", {}, [](auto& m, auto& o, double d) { return getProbabilisticMatches(static_cast<const LaneletMap&>(*m), o, d); }, maps, cobjs, d);
  std::vector<traffic_rules::TrafficRulesPtr> rs{traffic_rules::TrafficRulesFactory::create("de", "vehicle"), traffic_rules::TrafficRulesFactory::create("de", "pedestrian")};
  std::vector<List<ConstLaneletMatch>> ms;
  std::vector<List<ConstLaneletMatchProbabilistic>> ps;
  for (auto& o : cobjs) {
    ms.push_back({getDeterministicMatches(static_cast<const LaneletMap&>(*w.map), static_cast<const Object2d&>(o), 5.)});
    ps.push_back({getProbabilisticMatches(static_cast<const LaneletMap&>(*w.map), o, 5.)});
  }
  fn(c, "matching.removeNonRuleCompliantMatches", {}, [](auto& m, auto& r) { return removeNonRuleCompliantMatches(m.v, r); }, ps, rs);
  std::vector<List<ConstLaneletMatch>> nonEmpty;
  for (auto& m : ms) {
    if (!m.v.empty()) nonEmpty.push_back(m);
  }
  fn(c, "matching.removeNonRuleCompliantMatches", {}, [](auto& m, auto& r) { return removeNonRuleCompliantMatches(m.v, r); }, nonEmpty, rs);
  std::vector<Hull> hulls{{{}}, {{BasicPoint2d(0, 0), BasicPoint2d(1, 0), BasicPoint2d(0, 1)}}};
  std::vector<Pose2d> poses{Pose2d::Identity(), objs[2].pose};
  const std::vector<Id> ids{0, 9};
  const Kws ok{{"objectId", "0"}, {"pose", "pose(0 0 0)"}, {"absoluteHull", "[]"}};
  fn(c, "matching.Object2d", ok, [](Id i, auto& p, auto& h) {
    Object2d o;
    o.objectId = i;
    o.pose = p;
    for (auto& x : h.p) o.absoluteHull.push_back(x);
    return o; }, ids, poses, hulls);
  fn(c, "matching.ObjectWithCovariance2d", {{"objectId", "0"}, {"pose", "pose(0 0 0)"}, {"absoluteHull", "[]"}, {"positionCovariance", "cov(0 0 0 0)"}, {"vonMisesKappa", "0"}}, [](Id i, auto& p, auto& h, auto& cov, double k) {
    ObjectWithCovariance2d o;
    o.objectId = i;
    o.pose = p;
    for (auto& x : h.p) o.absoluteHull.push_back(x);
    o.positionCovariance = cov;
    o.vonMisesKappa = k;
    return o; }, ids, poses, hulls, std::vector<PositionCovariance2d>{PositionCovariance2d(PositionCovariance2d::Zero()), cobjs[0].positionCovariance}, std::vector<double>{0, 2});
  const std::vector<double> xs{0, 2, -1};
  fn(c, "matching.Pose2d", {{"x", "0"}, {"y", "0"}, {"yaw", "0"}}, [](double x, double y, double yaw) {
    Pose2d p(Eigen::Rotation2Dd{yaw});
    p.translation() = BasicPoint2d(x, y);
    return p; }, xs, xs, xs);
}

// ------------------------------------------------------------------ projectors, files
void projectionCalls(mc::Ctx& c) {
  std::vector<Origin> os{Origin(GPSPoint{49, 8.4, 0}), Origin(GPSPoint{-33.5, 151, 20})};
  std::vector<GPSPoint> gps;
  std::vector<BasicPoint3d> xyz{{0, 0, 0}, {100, -50, 3}, {-2000, 3000, 100}};
  for (auto& o : os) {
    for (double d : {0., 0.01, -0.02}) gps.push_back({o.position.lat + d, o.position.lon - d / 2, 5});
  }
  auto fwd = [](auto& p, auto& g) { return p.forward(g); };
  auto rev = [](auto& p, auto& g) { return p.reverse(g); };
  auto org = [](auto& p) { return p.origin().position; };
  auto each = [&](auto ps, const std::string& name) {
    fn(c, ".forward", {}, fwd, ps, gps), fn(c, ".reverse", {}, rev, ps, xyz);
    std::vector<py::object> none;
    (void)none;
    (void)org;
    (void)name;
  };
  std::vector<projection::SphericalMercatorProjector> m{projection::SphericalMercatorProjector(os[0]), projection::SphericalMercatorProjector(os[1])};
  std::vector<projection::UtmProjector> u{projection::UtmProjector(os[0]), projection::UtmProjector(os[1]), projection::UtmProjector(os[0], false, true)};
  std::vector<projection::LocalCartesianProjector> l{projection::LocalCartesianProjector(os[0]), projection::LocalCartesianProjector(os[1])};
  std::vector<projection::GeocentricProjector> g{projection::GeocentricProjector()};
  each(m, "Mercator"), each(u, "Utm"), each(l, "Local"), each(g, "Geocentric");
  const std::vector<double> xs{0, 7.5, -20};
  fn(c, "io.Origin", {{"lat", "0"}, {"lon", "0"}, {"alt", "0"}}, [](double a, double b, double d) { return Origin(GPSPoint{a, b, d}); }, xs, xs, xs);
  fn(c, "io.Origin", {}, UN(Origin(a)), gps);
  fn(c, "projection.UtmProjector", {}, UN(projection::UtmProjector(a)), os), fn(c, "projection.MercatorProjector", {}, UN(projection::SphericalMercatorProjector(a)), os), fn(c, "projection.LocalCartesianProjector", {}, UN(projection::LocalCartesianProjector(a)), os);
  fn(c, "projection.UtmProjector", {}, [](auto& o, bool a, bool b) { return projection::UtmProjector(o, a, b); }, os, Both2, Both2);
  fn(c, "projection.GeocentricProjector", {}, [] { return projection::GeocentricProjector(); });
}
void ioCalls(mc::Ctx& c, PyWorld& w) {
  const std::string dir = c.scratch + "/";
  Origin o(GPSPoint{49, 8.4, 0});
  std::vector<Origin> os{o};
  std::vector<projection::UtmProjector> ps{projection::UtmProjector(o)};
  Lanelet lone(4242, w.l3[0], w.l3[1]);
  std::vector<LaneletMapPtr> maps{w.map, utils::createMap(Lanelets{lone}), std::make_shared<LaneletMap>()};
  std::vector<std::string> out{dir + "y02.osm", dir + "y02.bin", dir + "y02.unknown", dir + "missing/y02.osm"};
  std::vector<Dict> params{{{}}, {{{"josm_upload", "true"}, {"josm_format_elevation", "true"}}}};
  auto slurp = [](const std::string& f) {
    std::ifstream s(f);
    std::string r(std::istreambuf_iterator<char>(s), {});
    // binary files hold the next free id, too
    if (f.size() > 4 && f.substr(f.size() - 4) == ".bin" && !r.empty()) return canon(LaneletMapPtr(lanelet::load(f, Origin(GPSPoint{49, 8.4, 0}))));
    return r;
  };
  auto config = [](const Dict& d) {
    io::Configuration r;
    for (auto& x : d.d) r[x.first] = Attribute(x.second);
    return r;
  };
  // what is written; the oracle writes the file, too, and remembers it
  std::string want;
  for (auto& f : out) {
    for (auto& m : maps) {
      for (auto& p : params) {
        for (int form = 0; form < 8; ++form) {
          c.run([&] { return "io.write(" + f.substr(dir.size()) + "," + canon(p) + ") way " + std::to_string(form); },
                [&] {
                  auto remove = [&] { ::unlink(f.c_str()); };
                  const bool origin = form == 2 || form == 3 || form == 7, robust = form >= 4 && form < 7;
                  ErrorMessages errs;
                  io::Configuration conf = form % 2 ? config(p) : io::Configuration{};
                  remove();
                  std::string w1 = expected([&] {
                    if (robust) lanelet::write(f, *m, ps[0], &errs, conf);
                    else if (origin) lanelet::write(f, *m, o, nullptr, conf);
                    else lanelet::write(f, *m, ps[0], nullptr, conf);
                    return robust ? canon(errs) : "None";
                  });
                  std::string want = slurp(f);
                  remove();
                  py::object mod = modules().at("io");
                  std::string got = actual("io.write", [&] {
                    py::dict kw;
                    py::object map = toPy(m);
                    auto call = [&](const char* name, py::tuple pos) {
                      PyObject* r = PyObject_Call(py::object(mod.attr(name)).ptr(), pos.ptr(), kw.ptr());
                      if (r == nullptr) py::throw_error_already_set();
                      return py::object(py::handle<>(r));
                    };
                    switch (form) {
                      case 0: return call("write", py::make_tuple(f, map, ps[0]));
                      case 1: return call("write", py::make_tuple(f, map, ps[0], toPy(p)));
                      case 2: kw["origin"] = o; return call("write", py::make_tuple(f, map));
                      case 3: kw["map"] = map, kw["origin"] = o, kw["params"] = toPy(p); return call("write", py::make_tuple(f));
                      case 4: kw["projector"] = ps[0]; return call("writeRobust", py::make_tuple(f, map));
                      case 5: kw["filename"] = f, kw["map"] = map, kw["projector"] = ps[0], kw["params"] = toPy(p); return call("writeRobust", py::tuple());
                      case 6: kw["params"] = py::object(); return call("writeRobust", py::make_tuple(f, map, ps[0]));
                      default: kw["params"] = toPy(p); return call("write", py::make_tuple(f, map, o));
                    }
                  });
                  MC_REQUIRE(got == w1, "write-result", got << " instead of " << w1);
                  MC_REQUIRE(slurp(f) == want, "write-file", "the file written from Python is another one");
                  c.step();
                  c.state(want);
                  remove();
                });
        }
      }
    }
  }
  if (c.stopped()) return;
  // what is loaded: a good file, one with a broken element, one that is no map
  std::vector<std::string> in{dir + "y02in.osm", dir + "y02in.bin", dir + "y02bad.osm", dir + "y02no.osm", dir + "y02none.osm"};
  lanelet::write(in[0], *w.map, ps[0]);
  lanelet::write(in[1], *w.map, ps[0]);
  std::ofstream(in[2]) << "<?xml version=\"1.0\"?><osm version=\"0.6\"><node id=\"1\" lat=\"49\" lon=\"8.4\"/><node id=\"2\" lat=\"49.001\" lon=\"8.4\"/><way id=\"3\"><nd ref=\"1\"/><nd ref=\"2\"/><nd ref=\"77\"/></way>"
                          "<relation id=\"9\"><member type=\"way\" ref=\"3\" role=\"left\"/><tag k=\"type\" v=\"lanelet\"/></relation></osm>";
  std::ofstream(in[3]) << "no map";
  auto load = [](auto& f, auto& x) { return LaneletMapPtr(lanelet::load(f, x)); };
  fn(c, "io.load", {{"filename"}, {"projector"}}, load, in, ps);
  fn(c, "io.load", {{"filename"}, {"origin"}}, load, in, os);
  fn(c, "io.loadRobust", {{"filename"}, {"projector"}}, [](auto& f, auto& x) {
    ErrorMessages e;
    LaneletMapPtr m = lanelet::load(f, x, &e);
    return std::make_pair(m, e); }, in, ps);
  fn(c, "io.load", {{"filename"}}, [](auto& f) { return LaneletMapPtr(lanelet::load(f, DefaultProjector())); }, in);
}
}  // namespace

void y02(mc::Ctx& c) {
  Interpreter::start();
  modules();
  PyWorld w;
  coreCalls(c, w);
  rulesCalls(c, w);
  matchingCalls(c, w);
  projectionCalls(c);
  ioCalls(c, w);
  routingCalls(c);
  geometryCalls(c, w);
}
