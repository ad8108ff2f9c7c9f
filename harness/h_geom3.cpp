// G04: overlap, intersection, containment and boxes of lanelets and areas. G05: partitions of polygons. G06: centerlines and
// alignment of bounds. G07: offset line strings.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/Polygon.h>

#include "geo.hpp"

namespace {
Id gId = 1;
LineString3d line(const L& l) {
  Points3d ps;
  for (auto& p : l) ps.emplace_back(gId++, p.x, p.y, p.z);
  return LineString3d(gId++, ps);
}
L raised(L l, double z) {
  for (auto& p : l) p.z = z;
  return l;
}
double area2(const L& l) {
  double s = 0;
  for (size_t i = 0; i < l.size(); ++i) s += crossZ(l[i], l[(i + 1) % l.size()]);
  return s;
}
//! a clockwise shape made of convex clockwise pieces
struct Shape {
  L outline;
  std::vector<L> pieces;
  L left, right;  // as bounds of a lanelet
};
bool convexCw(const L& l, bool strict) {
  for (size_t i = 0; i < l.size(); ++i) {
    double t = crossZ(l[(i + 1) % l.size()] - l[i], l[(i + 2) % l.size()] - l[(i + 1) % l.size()]);
    if (t > 0 || (strict && t == 0)) return false;
  }
  return area2(l) < 0;
}
bool segCross(const V& a, const V& b, const V& p, const V& q, bool touch) {
  auto sg = [](double d) { return d > 0 ? 1 : d < 0 ? -1 : 0; };
  int o1 = sg(crossZ(b - a, p - a)), o2 = sg(crossZ(b - a, q - a)), o3 = sg(crossZ(q - p, a - p)), o4 = sg(crossZ(q - p, b - p));
  if (o1 * o2 < 0 && o3 * o4 < 0) return true;
  if (!touch) return false;
  auto on = [&](const V& s, const V& e, const V& x) { return crossZ(e - s, x - s) == 0 && dot(x - s, x - e) <= 0; };
  return on(a, b, p) || on(a, b, q) || on(p, q, a) || on(p, q, b);
}
bool segTouch(const V& a, const V& b, const V& p, const V& q) {  // an end of one is on the other
  double d[4];
  nearest({a, b}, p, d[0]), nearest({a, b}, q, d[1]), nearest({p, q}, a, d[2]), nearest({p, q}, b, d[3]);
  return *std::min_element(d, d + 4) < 1e-9;
}
bool simple(const L& l) {
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = i + 1; j < n; ++j) {
      if (j == i + 1 || (i == 0 && j == n - 1)) {
        // neighbours must only share the vertex
        size_t a = j == i + 1 ? i : j, m = (a + 1) % n, b = (a + 2) % n;
        if (crossZ(l[m] - l[a], l[b] - l[m]) == 0 && dot(l[m] - l[a], l[b] - l[m]) < 0) return false;
        continue;
      }
      if (segCross(l[i], l[i + 1], l[j], l[(j + 1) % n], true)) return false;
    }
  }
  return area2(l) < 0;
}
bool inConvex(const L& l, const V& p, bool closed) {
  for (size_t i = 0; i < l.size(); ++i) {
    double t = crossZ(l[(i + 1) % l.size()] - l[i], p - l[i]);
    if (t > 0 || (!closed && t == 0)) return false;
  }
  return true;
}
//! interiors (or, closed, the shapes with borders) of convex clockwise polygons have a common point
bool onBorder(const L& l, const V& p) {
  for (size_t i = 0; i < l.size(); ++i) {
    double d = 0;
    nearest({l[i], l[(i + 1) % l.size()]}, p, d);
    if (d < 1e-9) return true;
  }
  return false;
}
bool convexMeet(const L& a, const L& b, bool closed) {
  auto separates = [&](const L& x, const L& y) {
    for (size_t i = 0; i < x.size(); ++i) {
      V d = x[(i + 1) % x.size()] - x[i];
      bool all = true;
      for (auto& q : y) {
        double t = crossZ(d, q - x[i]);
        all = all && (closed ? t > 0 : t >= 0);
      }
      if (all) return true;
    }
    return false;
  };
  return !separates(a, b) && !separates(b, a);
}
bool meet(const Shape& a, const Shape& b, bool closed) {
  for (auto& x : a.pieces) {
    for (auto& y : b.pieces) {
      if (convexMeet(x, y, closed)) return true;
    }
  }
  return false;
}
bool inClosed(const Shape& s, const V& p) {
  for (auto& x : s.pieces) {
    if (inConvex(x, p, true)) return true;
  }
  return false;
}
Shape scaled(const Shape& s, double f, const V& d) {
  auto t = [&](L l) {
    for (auto& p : l) p = V{p.x * f + d.x, p.y * f + d.y, p.z};
    return l;
  };
  Shape r{t(s.outline), {}, t(s.left), t(s.right)};
  for (auto& p : s.pieces) r.pieces.push_back(t(p));
  return r;
}
//! all convex quadrangles on a grid, as lanelets beginning at each of their edges
std::vector<Shape> quads(int w, int h, bool allStarts) {
  std::vector<Shape> r;
  mc::forSequences(w * h, 4, [&](const std::vector<int>& v) {
    L q;
    for (int i : v) q.push_back({double(i % w), double(i / w), 0});
    for (int i = 1; i < 4; ++i) {
      if (v[size_t(i)] == v[0] || (!allStarts && v[size_t(i)] < v[0])) return;
    }
    if (!convexCw(q, true)) return;
    r.push_back({q, {q}, {q[0], q[1]}, {q[3], q[2]}});
  });
  return r;
}
//! bent lanelets: two convex quadrangles one after the other, which may be concave together
std::vector<Shape> bent() {
  std::vector<Shape> r;
  for (int k = 0; k < 27 * 27; ++k) {
    // three gates, each of a left and a right point; the first two fixed up to a few choices
    int a = k % 27, b = k / 27;
    L left{{0, double(1 + a % 3), 0}, {1, double(1 + a / 3 % 3), 0}, {double(2 + b % 3) / 2 + 1, double(b / 3 % 3), 0}};
    L right{{0, 0, 0}, {1, double(a / 9) - 1, 0}, {double(2 + b % 3) / 2 + 1, double(b / 9) - 2, 0}};
    L p1{left[0], left[1], right[1], right[0]}, p2{left[1], left[2], right[2], right[1]};
    if (!convexCw(p1, false) || !convexCw(p2, false)) continue;
    L outline{left[0], left[1], left[2], right[2], right[1], right[0]};
    if (simple(outline)) r.push_back({outline, {p1, p2}, left, right});
  }
  return r;
}
//! lanelets with five points per bound: every sequence of heights of the gates
std::vector<Shape> wavy() {
  std::vector<Shape> r;
  mc::forSequences(3, 5, [&](const std::vector<int>& h) {
    for (bool up : {false, true}) {
      auto pt = [&](int i, double y) { return up ? V{y, -0.75 * i, 0} : V{0.75 * i, y, 0}; };
      Shape s;
      for (int i = 0; i < 5; ++i) {
        s.left.push_back(pt(i, h[size_t(i)] - 0.25 + 0.125 * (i % 2))), s.right.push_back(pt(i, h[size_t(i)] - 1.));
      }
      for (size_t i = 0; i < 4; ++i) s.pieces.push_back({s.left[i], s.left[i + 1], s.right[i + 1], s.right[i]});
      s.outline = s.left;
      s.outline.insert(s.outline.end(), s.right.rbegin(), s.right.rend());
      if (simple(s.outline)) r.push_back(s);
    }
  });
  return r;
}
Lanelet lanelet(const Shape& s, double z) { return Lanelet(gId++, line(raised(s.left, z)), line(raised(s.right, z))); }
Area areaOf(const Shape& s, double z, int parts, const std::vector<L>& holes = {}) {
  auto o = raised(s.outline, z);
  Points3d ps;
  for (auto& p : o) ps.emplace_back(gId++, p.x, p.y, p.z);
  LineStrings3d ls;
  if (parts == 1) {
    ls.emplace_back(gId++, ps);
  } else if (parts == 2) {
    ls.push_back(LineString3d(gId++, {ps[0], ps[1], ps[2]}));
    Points3d rest(ps.begin() + 2, ps.end());
    rest.push_back(ps[0]);
    std::reverse(rest.begin(), rest.end());
    ls.push_back(LineString3d(gId++, rest).invert());
  } else {
    for (size_t i = 0; i < ps.size(); ++i) ls.push_back(LineString3d(gId++, {ps[i], ps[(i + 1) % ps.size()]}));
  }
  InnerBounds inner;
  for (auto& h : holes) inner.push_back({line(raised(h, z))});
  return Area(gId++, ls, inner);
}
//! points two polylines have in common, up to segments they share (then only the ends)
bool properCrossings(const L& a, const L& b, std::vector<V>& out) {
  for (size_t i = 0; i + 1 < a.size(); ++i) {
    for (size_t j = 0; j + 1 < b.size(); ++j) {
      V u = a[i + 1] - a[i], v = b[j + 1] - b[j], w = b[j] - a[i];
      double den = crossZ(u, v);
      if (std::fabs(den) < 1e-12) {
        if (std::fabs(crossZ(u, w)) < 1e-12) return false;  // collinear: left out
        continue;
      }
      double s = crossZ(w, v) / den, t = crossZ(w, u) / den;
      if (s > -1e-9 && s < 1 + 1e-9 && t > -1e-9 && t < 1 + 1e-9) {
        V p = a[i] + u * s;
        bool dup = false;
        for (auto& o : out) dup |= norm(o - p) < 1e-9;
        if (!dup) out.push_back(p);
      }
    }
  }
  return true;
}
L lineOf(const ConstLineString2d& ls) {
  L l;
  for (auto& p : ls) l.push_back({p.x(), p.y(), 0});
  return l;
}

//! every selection of members of a regulatory element; some of them may be gone
void memberBoxes(mc::Ctx& c) {
  struct M {
    double x0, y0, x1, y1, z;  // what it covers
    int kind;                  // point, line, polygon, lanelet, area, lanelet and area that are gone
  };
  const std::vector<M> all{{-7, 1, -7, 1, 2, 0}, {4, 9, 4, 9, -3, 0}, {-2, 5, 6, 5, 1, 1}, {1, -8, 3, -6, 5, 2}, {8, -1, 12, 2, 0, 3}, {-9, -4, -6, -2, -5, 4}, {-30, -30, -20, -20, 40, 5}, {20, 20, 30, 30, -40, 6}};
  for (unsigned set = 0; set < (1U << all.size()); ++set) {
    for (int roles = 0; roles < 2; ++roles) {
      c.run([&] { return "regulatory element with the set of members " + std::to_string(set) + (roles ? " in different roles" : ""); }, [&] {
        std::vector<Lanelet> lls;
        std::vector<Area> ars;
        RuleParameterMap rules;
        double x0 = 1e9, y0 = 1e9, z0 = 1e9, x1 = -1e9, y1 = -1e9, z1 = -1e9;
        std::vector<M> in;
        {
          std::vector<Lanelet> gone;
          std::vector<Area> goneAreas;
          for (size_t k = 0; k < all.size(); ++k) {
            if (!((set >> k) & 1)) continue;
            auto& m = all[k];
            L low{{m.x0, m.y0, m.z}, {m.x1, m.y0, m.z}}, high{{m.x0, m.y1, m.z}, {m.x1, m.y1, m.z}};
            auto& to = rules[roles ? "role" + std::to_string(k) : "role"];
            switch (m.kind) {
              case 0:
                to.push_back(Point3d(gId++, m.x0, m.y0, m.z));
                break;
              case 1:
                to.push_back(line(low));
                break;
              case 2:
                to.push_back(Polygon3d(line({high[0], high[1], low[1], low[0]})));
                break;
              case 3:
              case 5: {
                auto& keep = m.kind == 3 ? lls : gone;
                keep.emplace_back(gId++, line(high), line(low));
                to.push_back(WeakLanelet(keep.back()));
                break;
              }
              default: {
                auto& keep = m.kind == 4 ? ars : goneAreas;
                keep.emplace_back(gId++, LineStrings3d{line(high), line({high[1], low[1]}), line({low[1], low[0], high[0]})});
                to.push_back(WeakArea(keep.back()));
              }
            }
            if (m.kind >= 5) continue;
            in.push_back(m);
            x0 = std::min(x0, m.x0), y0 = std::min(y0, m.y0), z0 = std::min(z0, m.z);
            x1 = std::max(x1, m.x1), y1 = std::max(y1, m.y1), z1 = std::max(z1, m.z);
          }
        }
        RegulatoryElementConstPtr re = std::make_shared<GenericRegulatoryElement>(gId++, rules);
        auto b = lg::boundingBox2d(re);
        auto b3 = lg::boundingBox3d(re);
        c.step(2);
        if (in.empty()) {
          MC_REQUIRE(b.isEmpty() && b3.isEmpty(), "member-box-empty", "an element without members has the box " << b.min().transpose() << " to " << b.max().transpose());
        } else {
          MC_REQUIRE(b.min() == Eigen::Vector2d(x0, y0) && b.max() == Eigen::Vector2d(x1, y1), "member-box", "box is " << b.min().transpose() << " to " << b.max().transpose());
          MC_REQUIRE(b3.min() == Eigen::Vector3d(x0, y0, z0) && b3.max() == Eigen::Vector3d(x1, y1, z1), "member-box-3d", "3d box is " << b3.min().transpose() << " to " << b3.max().transpose());
        }
        for (double x = -12; x <= 14; x += 6.5) {
          for (double y = -10; y <= 12; y += 5.5) {
            double want = std::numeric_limits<double>::infinity();
            for (auto& m : in) want = std::min(want, std::hypot(std::max({0., m.x0 - x, x - m.x1}), std::max({0., m.y0 - y, y - m.y1})));
            double got = lg::distance2d(re, BasicPoint2d(x, y));
            c.step();
            MC_REQUIRE(got == want || std::fabs(got - want) < 1e-9, "member-distance", "distance from " << x << "/" << y << " is " << got << " instead of " << want);
          }
        }
        c.state("members" + std::to_string(set));
      });
    }
  }
}
void g04(mc::Ctx& c) {
  memberBoxes(c);
  // the second shapes lie on a grid shifted by halves, too, so that properly crossing, touching and contained ones occur
  auto first = quads(3, 3, false), small = quads(3, 2, true);
  auto bents = bent(), waves = wavy();
  std::vector<Shape> second;
  for (auto& s : quads(3, 3, !c.quick)) second.push_back(s);
  for (auto& s : small) second.push_back(scaled(s, 0.5, {0.5, 0.5, 0})), second.push_back(scaled(s, 1, {0.5, 0.5, 0})), second.push_back(scaled(s, 1, {2, 1, 0}));
  for (size_t i = 0; i < bents.size(); i += c.quick ? 40 : 6) second.push_back(bents[i]);
  for (size_t i = 0; i < waves.size(); i += c.quick ? 37 : 5) second.push_back(waves[i]);
  auto firstAll = first;
  for (size_t i = 0; i < bents.size(); i += c.quick ? 4 : 1) firstAll.push_back(bents[i]);
  for (size_t i = 0; i < waves.size(); i += c.quick ? 7 : 1) firstAll.push_back(waves[i]);
  c.count("first-shapes", c.shard == 0 ? firstAll.size() : 0);
  c.count("second-shapes", c.shard == 0 ? second.size() : 0);
  std::vector<Lanelet> lls2;
  std::vector<Area> areas2;
  for (auto& s : second) lls2.push_back(lanelet(s, 0)), areas2.push_back(areaOf(s, 0, 1 + int(lls2.size()) % 3));
  for (auto& s : firstAll) {
    c.run([&] { return "lanelet and area " + show(s.outline, false) + " and every second shape"; }, [&] {
      auto ll = lanelet(s, 0);
      ConstLanelet inv = ll.invert();
      for (size_t j = 0; j < second.size(); ++j) {
        bool over = meet(s, second[j], false), inter = meet(s, second[j], true);
        auto d = [&] { return show(s.outline, false) + " and " + show(second[j].outline, false); };
        auto& o = lls2[j];
        MC_REQUIRE(lg::overlaps2d(ll, o) == over, "overlaps2d", d() << ": " << !over << " instead of " << over);
        MC_REQUIRE(lg::overlaps2d(o, ll) == over, "overlaps2d-swapped", d() << ": " << !over << " instead of " << over);
        MC_REQUIRE(!lg::touches2d(ll.polygon2d(), o.polygon2d()) && lg::overlaps2d(ll.polygon2d(), o.polygon2d()) == over, "overlaps2d-polygons", d() << ": " << !over << " instead of " << over);
        MC_REQUIRE(lg::intersects2d(ll, o) == inter, "intersects2d", d() << ": " << !inter << " instead of " << inter);
        MC_REQUIRE(lg::overlaps2d(inv, o) == over, "overlaps2d-inverted", d() << ": " << !over << " instead of " << over);
        c.step(4);
        if (over || j % 7 == 0) {
          for (double z : {0., 2.9, 3., 3.5, -2.9, -3.1}) {
            auto h = lanelet(s, z);
            MC_REQUIRE(lg::overlaps3d(h.polygon3d(), o.polygon3d(), 3.) == (over && std::fabs(z) < 3), "overlaps3d-polygons", d() << " at height " << z);
            MC_REQUIRE(lg::overlaps3d(h, o) == (over && std::fabs(z) < 3), "overlaps3d", d() << " at height " << z);
            MC_REQUIRE(lg::overlaps3d(h, o, 3.2) == (over && std::fabs(z) < 3.2), "overlaps3d-tolerance", d() << " at height " << z);
            MC_REQUIRE(lg::intersects3d(h, o) == (inter && std::fabs(z) < 3), "intersects3d", d() << " at height " << z);
            MC_REQUIRE(lg::intersects3d(h, o, 0.5) == (inter && std::fabs(z) < 0.5), "intersects3d-tolerance", d() << " at height " << z);
            c.step(4);
          }
        }
        // intersections of the centerlines, with their positions along both
        auto c1 = lineOf(ll.centerline2d()), c2 = lineOf(o.centerline2d());
        std::vector<V> want;
        if (properCrossings(c1, c2, want)) {
          std::vector<double> d1, d2;
          auto got = lg::intersectCenterlines2d(ll, o, &d1, &d2);
          MC_REQUIRE(d1.size() == got.size() && d2.size() == got.size(), "centerline-distances", d());
          std::vector<bool> found(want.size());
          for (size_t k = 0; k < got.size(); ++k) {
            bool ok = false;
            for (size_t m = 0; m < want.size(); ++m) {
              if (norm(v2(got[k]) - want[m]) < 1e-8) ok = true, found[m] = true;
            }
            MC_REQUIRE(ok, "centerline-intersection", d() << ": (" << got[k].x() << "," << got[k].y() << ") is not on both centerlines");
            MC_REQUIRE(norm(at(c1, d1[k]) - v2(got[k])) < 1e-6, "distance-this", d() << ": " << d1[k]);
            MC_REQUIRE(norm(at(c2, d2[k]) - v2(got[k])) < 1e-6, "distance-other", d() << ": " << d2[k]);
          }
          for (bool f : found) MC_REQUIRE(f, "centerline-intersection-missing", d());
          c.step(2);
        }
        ++c.states;
      }
      // as areas
      for (int parts = 1; parts <= 3; ++parts) {
        auto a = areaOf(s, 0, parts);
        auto up = areaOf(s, 2.5, parts);
        for (size_t j = size_t(parts) - 1; j < second.size(); j += c.quick ? 3 : 1) {
          bool over = meet(s, second[j], false), inter = meet(s, second[j], true);
          auto d = [&] { return "area of " + std::to_string(parts) + " parts " + show(s.outline, false) + " and " + show(second[j].outline, false); };
          MC_REQUIRE(lg::overlaps2d(a, areas2[j]) == over, "overlaps2d-areas", d());
          MC_REQUIRE(lg::overlaps2d(a, lls2[j]) == over, "overlaps2d-area-lanelet", d());
          MC_REQUIRE(lg::intersects2d(a, areas2[j]) == inter, "intersects2d-areas", d());
          MC_REQUIRE(lg::overlaps3d(up, areas2[j], 2.6) == over, "overlaps3d-areas", d());
          MC_REQUIRE(!lg::overlaps3d(up, areas2[j], 2.4), "overlaps3d-areas", d());
          MC_REQUIRE(lg::overlaps3d(up, lls2[j], 2.6) == over, "overlaps3d-area-lanelet", d());
          MC_REQUIRE(!lg::overlaps3d(up, lls2[j], 2.5), "overlaps3d-area-lanelet", d());
          c.step(7);
        }
      }
    });
  }
  // containment and boxes, with and without a hole
  for (auto& s : firstAll) {
    c.run([&] { return "points in " + show(s.outline, false); }, [&] {
      auto ll = lanelet(s, 1);
      auto a = areaOf(s, 1, 1), b = areaOf(s, 1, 2), e = areaOf(s, 1, 3);
      // the hole: a triangle of the first three vertices of the first piece, drawn in
      L t(s.pieces[0].begin(), s.pieces[0].begin() + 3), hole;
      V m = (t[0] + t[1] + t[2]) * (1. / 3);
      for (auto& p : t) hole.push_back(m + (p - m) * 0.5);
      if (!convexCw(hole, true)) return;
      L inner = hole;
      std::reverse(inner.begin(), inner.end());
      auto holed = areaOf(s, 1, 2, {inner});
      double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
      for (auto& p : s.outline) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
      for (auto& box : {lg::boundingBox2d(ll), lg::boundingBox2d(a), lg::boundingBox2d(b), lg::boundingBox2d(e), lg::boundingBox2d(utils::to2D(a.outerBoundPolygon()))}) {
        MC_REQUIRE(box.min().x() == x0 && box.min().y() == y0 && box.max().x() == x1 && box.max().y() == y1, "bounding-box2d", show(s.outline, false));
      }
      for (auto& box : {lg::boundingBox3d(ll), lg::boundingBox3d(a), lg::boundingBox3d(b), lg::boundingBox3d(e)}) {
        MC_REQUIRE(box.min().x() == x0 && box.min().y() == y0 && box.max().x() == x1 && box.max().y() == y1 && box.min().z() == 1 && box.max().z() == 1, "bounding-box3d", show(s.outline, false));
      }
      double step = c.quick ? 0.5 : 0.25;
      for (double x = -0.5; x <= 3.5; x += step) {
        for (double y = -2.5; y <= 3.5; y += step) {
          V p{x, y, 0};
          bool in = inClosed(s, p), inHole = inConvex(hole, p, false), onHole = onBorder(hole, p);
          auto d = [&] { return show(s.outline, false) + " at (" + std::to_string(x) + "," + std::to_string(y) + ")"; };
          MC_REQUIRE(lg::inside(ll, b2(p)) == in, "inside-lanelet", d());
          MC_REQUIRE(lg::inside(ConstLanelet(ll.invert()), b2(p)) == in, "inside-inverted-lanelet", d());
          for (auto& ar : {a, b, e}) MC_REQUIRE(lg::inside(ar, b2(p)) == in, "inside-area", d());
          if (!onHole) MC_REQUIRE(lg::inside(holed, b2(p)) == (in && !inHole), "inside-area-with-hole", d());
          c.step(6);
        }
      }
      ++c.states;
    });
  }
  // lanelets that share a bound or follow each other do not overlap by definition
  for (size_t i = 0; i < first.size(); ++i) {
    c.run([&] { return "neighbours and successors of " + show(first[i].outline, false); }, [&] {
      auto& s = first[i];
      auto l = line(s.left), r = line(s.right);
      Lanelet a(gId++, l, r);
      for (size_t j = 0; j < first.size(); j += 3) {
        auto x = line(first[j].left);
        Lanelet right(gId++, r, x), left(gId++, x, l), opp(gId++, l.invert(), x), oppR(gId++, x, r.invert());
        for (auto& o : {right, left, opp, oppR}) {
          // as polygons: neighbours have an edge in common
          auto pa = a.polygon2d(), po = o.polygon2d();
          MC_REQUIRE(lg::touches2d(pa, po) && lg::touches2d(po, pa) && !lg::overlaps2d(pa, po) && !lg::overlaps3d(a.polygon3d(), o.polygon3d(), 3.), "polygons-touch", show(s.outline, false) << " and a neighbour with " << show(first[j].left, false));
          MC_REQUIRE(!lg::overlaps2d(a, o) && !lg::overlaps2d(o, a), "overlaps2d-neighbours", show(s.outline, false) << " and a neighbour with " << show(first[j].left, false));
          c.step();
        }
        Lanelet next(gId++, LineString3d(gId++, {l.back(), x.front()}), LineString3d(gId++, {r.back(), x.back()}));
        MC_REQUIRE(!lg::overlaps2d(a, next) && !lg::overlaps2d(next, a), "overlaps2d-successor", show(s.outline, false) << " and a successor to " << show(first[j].left, false));
        MC_REQUIRE(lg::touches2d(a.polygon2d(), next.polygon2d()) && lg::touches2d(next.polygon2d(), a.polygon2d()), "polygons-touch", show(s.outline, false) << " and a successor to " << show(first[j].left, false));
        // one point in common is no edge
        Lanelet tip(gId++, LineString3d(gId++, {l.back(), x.front()}), LineString3d(gId++, {Point3d(gId++, 9, 9, 0), x.back()}));
        MC_REQUIRE(!lg::touches2d(a.polygon2d(), tip.polygon2d()) && !lg::touches2d(tip.polygon2d(), a.polygon2d()), "polygons-one-point", show(s.outline, false) << " and a lanelet at its corner");
        MC_REQUIRE(lg::overlaps2d(a, a) && lg::intersects2d(a, a) && lg::overlaps3d(a, a) && lg::intersects3d(a, a), "overlaps-itself", show(s.outline, false));
        MC_REQUIRE(lg::overlaps2d(a, a.invert()), "overlaps-its-inverse", show(s.outline, false));
        c.step(4);
        ++c.states;
      }
    });
  }
}

// ------------------------------------------------------------------ G05
//! there is a circle through the ends of every edge without any other vertex in or on it
bool delaunayEdges(const L& l) {
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i) {
    const V &a = l[i], &b = l[(i + 1) % n];
    V d = b - a, nrm{-d.y, d.x, 0}, mid = (a + b) * 0.5;
    double lo = -1e18, hi = 1e18;  // centres mid + t nrm
    for (size_t k = 0; k < n; ++k) {
      if (k == i || k == (i + 1) % n) continue;
      // |p-c|^2 > |a-c|^2  <=>  (p-a).(p-b) > 2 t nrm.(p-mid)
      double rhs = dot(l[k] - a, l[k] - b), f = 2 * dot(nrm, l[k] - mid);
      if (f == 0) {
        if (rhs <= 0) return false;
      } else if (f > 0) {
        hi = std::min(hi, rhs / f);
      } else {
        lo = std::max(lo, rhs / f);
      }
    }
    if (lo + 1e-9 >= hi) return false;
  }
  return true;
}
bool inPolygon(const L& l, const V& p) {  // p is not on the border
  bool in = false;
  for (size_t i = 0; i < l.size(); ++i) {
    const V &a = l[i], &b = l[(i + 1) % l.size()];
    if ((a.y > p.y) != (b.y > p.y) && p.x < a.x + (p.y - a.y) / (b.y - a.y) * (b.x - a.x)) in = !in;
  }
  return in;
}
void checkPartition(mc::Ctx& c, const std::string& what, const L& poly, const std::vector<L>& parts) {
  double sum = 0;
  for (size_t i = 0; i < parts.size(); ++i) {
    auto& p = parts[i];
    MC_REQUIRE(p.size() >= 3 && convexCw(p, false), "convex-" + what, show(poly, false) << ": the part " << show(p, false) << " is not a convex clockwise polygon");
    sum += area2(p);
    V m{0, 0, 0};
    for (auto& v : p) m = m + v * (1. / double(p.size()));
    MC_REQUIRE(inPolygon(poly, m), "within-" + what, show(poly, false) << ": the part " << show(p, false) << " is outside");
    for (size_t k = 0; k < p.size(); ++k) {
      for (size_t e = 0; e < poly.size(); ++e) {
        MC_REQUIRE(!segCross(p[k], p[(k + 1) % p.size()], poly[e], poly[(e + 1) % poly.size()], false), "within-" + what, show(poly, false) << ": the part " << show(p, false) << " leaves the polygon");
      }
    }
    for (size_t j = 0; j < i; ++j) MC_REQUIRE(!convexMeet(p, parts[j], false), "disjoint-" + what, show(poly, false) << ": parts " << show(p, false) << " and " << show(parts[j], false) << " overlap");
    c.step();
  }
  MC_REQUIRE(std::fabs(sum - area2(poly)) < 1e-9 * (1 + std::fabs(sum)), "covers-" + what, show(poly, false) << ": " << parts.size() << " parts of area " << sum / -2 << " instead of " << area2(poly) / -2);
}
void partitionCase(mc::Ctx& c, const L& poly, uint64_t& outside) {
  if (!delaunayEdges(poly)) {
    ++outside;
    return;
  }
  BasicPolygon2d bp;
  Points3d ps;
  for (auto& v : poly) bp.push_back(b2(v)), ps.emplace_back(gId++, v.x, v.y, 0);
  Polygon3d p3(gId++, ps);
  auto isVertex = [&](const V& v) {
    for (auto& p : poly) {
      if (p.x == v.x && p.y == v.y) return true;
    }
    return false;
  };
  int reflex = 0;
  for (size_t i = 0; i < poly.size(); ++i) reflex += crossZ(poly[(i + 1) % poly.size()] - poly[i], poly[(i + 2) % poly.size()] - poly[(i + 1) % poly.size()]) > 0 ? 1 : 0;
  auto parts = lg::convexPartition(bp);
  auto fromView = lg::convexPartition(utils::to2D(p3));
  MC_REQUIRE(parts.size() == fromView.size(), "views-partition", show(poly, false));
  std::vector<L> ls;
  for (auto& p : parts) {
    ls.push_back({});
    for (auto& v : p) {
      ls.back().push_back(v2(v));
      MC_REQUIRE(isVertex(ls.back().back()), "vertices-partition", show(poly, false) << ": a part has a vertex the polygon has not");
    }
  }
  checkPartition(c, "partition", poly, ls);
  MC_REQUIRE(int(parts.size()) <= 2 * (reflex + 1) + 1, "count-partition", show(poly, false) << ": " << parts.size() << " parts");
  ls.clear();
  for (auto& t : lg::triangulate(bp)) {
    MC_REQUIRE(t[0] < poly.size() && t[1] < poly.size() && t[2] < poly.size(), "index-triangulation", show(poly, false));
    L tri{poly[t[0]], poly[t[1]], poly[t[2]]};
    if (area2(tri) > 0) std::swap(tri[0], tri[1]);
    ls.push_back(tri);
  }
  MC_REQUIRE(ls.size() == poly.size() - 2, "count-triangulation", show(poly, false) << ": " << ls.size() << " triangles");
  checkPartition(c, "triangulation", poly, ls);
  ++c.states;
  c.count("partitioned");
  c.count("reflex-vertices", uint64_t(reflex));
}
void g05(mc::Ctx& c) {
  // all simple clockwise polygons with vertices on a slightly irregular grid (so that few points lie on one circle) and a regular one
  // and a large regular one whose inner lines are dented by less than half a degree, in either direction
  for (int reg = 0; reg < 4; ++reg) {
    int w = 4, h = c.quick ? 3 : 4;
    auto at = [&](int i) {
      int x = i % w, y = i / w;
      if (reg >= 2) {
        double d = reg == 2 ? 0.0625 : -0.0625;
        return V{20. * x + (y == 1 ? (x == 0 ? d : x == w - 1 ? -d : d / 2) : 0), 20. * y + (x == 1 || x == 2 - (w == 3) ? (y == 0 ? d : y == h - 1 ? -d : 0) : 0), 0};
      }
      return reg ? V{double(x), double(y), 0} : V{x * 1. + (y == 1 ? 0.25 : 0.) + (x == 1 && y == 2 ? 0.125 : 0), y * 1. + (x == 1 ? 0.5 : 0) + (x == 2 && y == 0 ? 0.25 : 0) - (x == 3 ? 0.25 : 0), 0};
    };
    int maxN = c.quick ? 8 : 9;
    std::vector<std::vector<int>> starts;
    for (int a = 0; a < w * h; ++a) {
      for (int b = 0; b < w * h; ++b) {
        for (int d = 0; d < w * h; ++d) {
          if (a != b && b != d && a != d) starts.push_back({a, b, d});
        }
      }
    }
    for (auto& s : starts) {
      c.run([&] { static const char* names[] = {"irregular", "regular", "dented", "bulged"};
        return std::string(names[reg]) + " grid, polygons beginning with " + mc::join(s, ","); }, [&] {
        uint64_t outside = 0;
        std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& v) {
          L l;
          for (int i : v) l.push_back(at(i));
          if (v.size() >= 3 && simple(l)) partitionCase(c, l, outside);
          if (int(v.size()) >= maxN) return;
          for (int i = 0; i < w * h; ++i) {
            if (std::find(v.begin(), v.end(), i) != v.end()) continue;
            V q = at(i);
            bool cross = false;
            for (size_t k = 0; k + 2 < v.size(); ++k) cross |= segCross(l[k], l[k + 1], l.back(), q, true);
            if (cross) continue;
            v.push_back(i);
            rec(v);
            v.pop_back();
          }
        };
        auto v = s;
        rec(v);
        c.count("not-delaunay-edges", outside);
      });
    }
  }
}

// ------------------------------------------------------------------ G06
void checkCenterline(mc::Ctx& c, const L& left, const L& right, bool well) {
  auto l = line(left), r = line(right);
  Lanelet ll(gId++, l, r);
  auto cl = ll.centerline();
  auto d = [&] { return "left " + show(left, true) + " right " + show(right, true); };
  auto isMid = [&](const V& p, const V& a, const V& b) { return norm(p - (a + b) * 0.5) < 1e-9; };
  MC_REQUIRE(cl.size() >= 2, "centerline-size", d());
  L pts;
  for (auto& p : cl) pts.push_back({p.x(), p.y(), p.z()});
  MC_REQUIRE(isMid(pts.front(), left.front(), right.front()), "centerline-begin", d());
  MC_REQUIRE(isMid(pts.back(), left.back(), right.back()), "centerline-end", d());
  // each point is half way between a point of the left and one of the right bound, and both advance
  std::set<std::pair<size_t, size_t>> cur{{0, 0}};
  for (size_t k = 0; k < pts.size(); ++k) {
    std::set<std::pair<size_t, size_t>> next;
    for (auto& s : cur) {
      for (size_t i = s.first; i < left.size(); ++i) {
        for (size_t j = s.second; j < right.size(); ++j) {
          if (k > 0 && i == s.first && j == s.second && k + 1 < pts.size()) continue;
          if (isMid(pts[k], left[i], right[j])) next.insert({i, j});
        }
      }
    }
    MC_REQUIRE(!next.empty(), "centerline-halfway", d() << ": point " << k << " of " << show(pts, true) << " is not half way between points that come later");
    cur = next;
  }
  if (well) {
    L outline = left;
    outline.insert(outline.end(), right.rbegin(), right.rend());
    for (size_t k = 0; k + 1 < pts.size(); ++k) {
      for (size_t e = 0; e < outline.size(); ++e) {
        MC_REQUIRE(!segCross(flat(pts)[k], flat(pts)[k + 1], flat(outline)[e], flat(outline)[(e + 1) % outline.size()], false), "centerline-inside", d() << ": " << show(pts, true) << " leaves the lanelet");
      }
    }
  }
  auto inv = ll.invert().centerline();
  MC_REQUIRE(inv.size() == pts.size(), "centerline-inverted", d());
  for (size_t k = 0; k < pts.size(); ++k) MC_REQUIRE(inv[k].basicPoint() == cl[pts.size() - 1 - k].basicPoint(), "centerline-inverted", d());
  // all orientations of the bounds are aligned to the one of the lanelet
  c.step(3);
  ++c.states;
}
void g06(mc::Ctx& c) {
  // bounds that advance in x, the left one above the right one
  auto columns = [&](int n, int lo, int hi) {
    std::vector<L> r;
    mc::forSequences(hi - lo, n, [&](const std::vector<int>& v) {
      L l;
      for (int i = 0; i < n; ++i) l.push_back({double(i) * 3 / std::max(1, n - 1), double(lo + v[size_t(i)]), double((i + v[size_t(i)]) % 3) * 0.5});
      r.push_back(l);
    });
    return r;
  };
  std::vector<L> lefts, rights;
  for (int n = 1; n <= (c.quick ? 4 : 5); ++n) {
    for (auto& l : columns(n, 2, 5)) lefts.push_back(l);
    for (auto& l : columns(n, -1, 2)) rights.push_back(l);
  }
  for (auto& l : lefts) {
    c.run([&] { return "left " + show(l, true) + " and every right bound"; }, [&] {
      for (auto& r : rights) {
        if (l.size() == 1 && r.size() == 1) continue;
        checkCenterline(c, l, r, l.size() > 1 && r.size() > 1);
      }
    });
  }
  // curves: both bounds on circles of different radius, with any subset of the points
  int n = c.quick ? 6 : 8;
  for (int a = 0; a < (1 << n); ++a) {
    c.run([&] { return "curve, left points " + std::to_string(a); }, [&] {
      for (int b = 0; b < (1 << n); ++b) {
        for (int turn = 0; turn < 2; ++turn) {
          L left, right;
          for (int i = 0; i < n; ++i) {
            double w = (turn ? -1 : 1) * i * 2.5 / (n - 1);
            double rl = turn ? 5 : 3, rr = turn ? 3 : 5;
            V dir{std::cos(w), std::sin(w), 0};
            if ((a >> i & 1) || i == 0 || i == n - 1) left.push_back(dir * rl);
            if ((b >> i & 1) || i == 0 || i == n - 1) right.push_back(dir * rr);
          }
          L outline = left;
          outline.insert(outline.end(), right.rbegin(), right.rend());
          if (!simple(outline)) continue;
          checkCenterline(c, left, right, true);
        }
      }
    });
  }
  // a lanelet without points on one of its bounds has no centerline, as long as it stays like that
  for (int kind = 0; kind < 3; ++kind) {
    for (int n = 1; n <= 3; ++n) {
      c.run([&] { return std::string("lanelet with an empty ") + (kind == 0 ? "left bound" : kind == 1 ? "right bound" : "left and an empty right bound"); },
            [&] {
              L full;
              for (int i = 0; i < n; ++i) full.push_back(V{1. * i, 0, 0});
              LineString3d left = line(kind == 0 || kind == 2 ? L{} : full), right = line(kind == 0 ? full : L{});
              Lanelet ll(gId++, left, right);
              MC_REQUIRE(ll.centerline().empty() && ll.invert().centerline().empty(), "centerline-empty", "a centerline with " << ll.centerline().size() << " points");
              for (auto* ls : {&left, &right}) {
                if (ls->empty()) {
                  for (int i = 0; i < n; ++i) ls->push_back(Point3d(gId++, i, ls == &left ? 2 : -2, 0));
                }
              }
              ll.resetCache();
              MC_REQUIRE(!ll.centerline().empty(), "centerline-empty", "no centerline although both bounds have " << n << " points");
              c.step(2);
            });
    }
  }
  // corridors that follow a path of straight, left and right steps, with different densities of points on both sides
  for (int len = 2; len <= (c.quick ? 4 : 5); ++len) {
    mc::forSequences(3, len - 1, [&](const std::vector<int>& turns) {
      c.run([&] {
        std::string s = "corridor with turns";
        for (int t : turns) s += t == 0 ? " straight" : t == 1 ? " left" : " right";
        return s; },
            [&] {
              std::vector<V> at{{0, 0, 0}};
              std::vector<int> dir{0};
              for (int t : turns) dir.push_back((dir.back() + (t == 1 ? 1 : t == 2 ? 3 : 0)) % 4);
              auto step = [](int d) { return V{d == 0 ? 1. : d == 2 ? -1. : 0., d == 1 ? 1. : d == 3 ? -1. : 0., 0}; };
              for (int d : dir) at.push_back(at.back() + step(d) * 4.);
              for (double w : {1., 1.75}) {
                // corner points; a point in the middle of every step is optional
                std::vector<V> lc, rc;
                for (size_t i = 0; i < at.size(); ++i) {
                  const int d1 = dir[i == 0 ? 0 : i - 1], d2 = dir[i == dir.size() ? i - 1 : i];
                  V n = d1 == d2 ? step((d1 + 1) % 4) : step((d1 + 1) % 4) + step((d2 + 1) % 4);
                  lc.push_back(at[i] + n * w);
                  rc.push_back(at[i] - n * w);
                }
                const int bits = len;
                for (int a = 0; a < (1 << bits); ++a) {
                  for (int b = 0; b < (1 << bits); ++b) {
                    auto fill = [&](const std::vector<V>& v, int m) {
                      L r;
                      for (size_t i = 0; i < v.size(); ++i) {
                        r.push_back(v[i]);
                        if (i + 1 < v.size() && (m >> i & 1)) r.push_back(v[i] * 0.625 + v[i + 1] * 0.375);
                      }
                      return r;
                    };
                    L left = fill(lc, a), right = fill(rc, b);
                    L outline = left;
                    outline.insert(outline.end(), right.rbegin(), right.rend());
                    if (!simple(outline)) continue;
                    checkCenterline(c, left, right, true);
                  }
                }
              }
            });
    });
  }
  // arbitrary bounds on a small grid: convex quadrangles, closed beginnings
  auto qs = quads(4, 3, true);
  for (auto& s : qs) {
    c.run([&] { return "quadrangle " + show(s.outline, false); }, [&] {
      checkCenterline(c, s.left, s.right, true);
      L l3{s.left[0], (s.left[0] + s.left[1]) * 0.5, s.left[1]}, r4{s.right[0], s.right[0] + (s.right[1] - s.right[0]) * 0.25, s.right[0] + (s.right[1] - s.right[0]) * 0.75, s.right[1]};
      checkCenterline(c, l3, s.right, true);
      checkCenterline(c, l3, r4, true);
      checkCenterline(c, s.left, r4, true);
      // alignment of bounds given in any orientation
      auto l = line(s.left), r = line(s.right);
      for (int o = 0; o < 4; ++o) {
        auto res = lg::align(utils::to2D(o & 1 ? l.invert() : l), utils::to2D(o & 2 ? r.invert() : r));
        MC_REQUIRE(res.first == utils::to2D(l) && res.second == utils::to2D(r), "align", show(s.outline, false) << " with orientations " << o);
        c.step();
      }
    });
  }
}

// ------------------------------------------------------------------ G07
void g07(mc::Ctx& c) {
  uint64_t thrown = 0;
  auto one = [&](const L& l) {
    c.run([&] { return "offsets of " + show(l, false); }, [&] {
      auto ls = ls3(l);
      ConstLineString2d c2 = utils::to2D(ls);
      for (double dist : {0.1, -0.1, 0.25, -0.25, 0.5, -0.5, 1., -1.}) {
        BasicLineString2d res;
        try {
          res = lg::offset(c2, dist);
        } catch (GeometryError&) {
          ++thrown;
          c.count("thrown");
          MC_REQUIRE(l.size() > 2 && std::fabs(dist) > 0.15, "offset-throws", show(l, false) << " by " << dist);
          continue;
        }
        c.count("offset");
        L r;
        for (auto& p : res) r.push_back(v2(p));
        if (std::fabs(dist) < 0.15) {  // small enough to keep every segment
          auto shift = [&](size_t i, size_t seg) {
            V d = l[seg + 1] - l[seg];
            return l[i] + V{-d.y, d.x, 0} * (dist / norm(d));
          };
          MC_REQUIRE(norm(r.front() - shift(0, 0)) < 1e-9 && norm(r.back() - shift(l.size() - 1, l.size() - 2)) < 1e-9, "offset-ends", show(l, false) << " by " << dist << ": " << show(r, false));
          MC_REQUIRE(r.size() >= l.size(), "offset-complete", show(l, false) << " by " << dist << ": " << show(r, false));
          // every point of the line is near the offset line
          for (size_t i = 0; i < l.size(); ++i) {
            double d = 0;
            nearest(r, l[i], d);
            MC_REQUIRE(d < 1, "offset-complete", show(l, false) << " by " << dist << ": " << show(r, false));
          }
        }
        for (size_t i = 0; i + 1 < r.size(); ++i) {
          for (size_t j = i + 2; j + 1 < r.size(); ++j) {
            MC_REQUIRE(!segCross(r[i], r[i + 1], r[j], r[j + 1], false) || segTouch(r[i], r[i + 1], r[j], r[j + 1]), "offset-crosses-itself", show(l, false) << " by " << dist << ": " << show(r, false));
          }
        }
        for (auto& p : r) {
          double d = 0;
          auto ns = nearest(l, p, d);
          MC_REQUIRE(d > std::fabs(dist) - 1e-6 && d < std::fabs(dist) * std::sqrt(2) + 1e-6, "offset-distance", show(l, false) << " by " << dist << ": " << show(r, false) << " has a point at distance " << d);
          MC_REQUIRE((sides(l, p, ns, d) & (dist > 0 ? 1 : 2)) != 0, "offset-side", show(l, false) << " by " << dist << ": " << show(r, false) << " has a point on the other side");
          c.step();
        }
        ++c.states;
      }
    });
  };
  for (int n = 2; n <= (c.quick ? 4 : 6); ++n) forLines(n, 3, 3, [&](const L& l) {
    for (size_t i = 0; i + 2 < l.size(); ++i) {
      V a = l[i + 1] - l[i], b = l[i + 2] - l[i + 1];
      if (crossZ(a, b) == 0 && dot(a, b) < 0) return;  // turns back on itself
    }
    for (size_t i = 0; i + 1 < l.size(); ++i) {
      for (size_t j = i + 2; j + 1 < l.size(); ++j) {
        if (segCross(l[i], l[i + 1], l[j], l[j + 1], true)) return;  // touches itself
      }
    }
    one(flat(l));
  });
}
// ---- G08: boxes as sets of points
struct Iv {  // of one axis
  double lo, hi;
};
void g08(mc::Ctx& c) {
  namespace bg = boost::geometry;
  const std::vector<double> at = c.quick ? std::vector<double>{-2.25, -1, 0, 1.5} : std::vector<double>{-2.25, -1, 0, 0.25, 1.5, 4, 7.5};
  const std::vector<double> probe = c.quick ? std::vector<double>{-3, -2.25, -1.5, -1, -0.5, 0, 0.75, 1.5, 2} : std::vector<double>{-3, -2.25, -1.5, -1, -0.5, 0, 0.1, 0.25, 0.75, 1.5, 2, 4, 6, 7.5, 9};
  std::vector<Iv> ivs;
  for (double a : at) {
    for (double b : at) ivs.push_back({a, b});
  }
  struct B {
    Iv x, y;
    bool none;  // made without corners
    bool empty() const { return none || x.lo > x.hi || y.lo > y.hi; }
    BoundingBox2d box() const { return none ? BoundingBox2d() : BoundingBox2d(BasicPoint2d(x.lo, y.lo), BasicPoint2d(x.hi, y.hi)); }
    bool has(double px, double py) const { return !empty() && x.lo <= px && px <= x.hi && y.lo <= py && py <= y.hi; }
    std::string str() const {
      std::ostringstream o;
      if (none) return "no box";
      o << "box " << x.lo << "," << y.lo << " to " << x.hi << "," << y.hi;
      return o.str();
    }
  };
  std::vector<B> boxes{{{0, 0}, {0, 0}, true}};
  for (auto& x : ivs) {
    for (auto& y : ivs) boxes.push_back({x, y, false});
  }
  auto is = [](const BoundingBox2d& b, double x0, double y0, double x1, double y1) { return b.min() == BasicPoint2d(x0, y0) && b.max() == BasicPoint2d(x1, y1); };
  for (auto& a : boxes) {
    c.run([&] { return a.str(); }, [&] {
      const auto box = a.box();
      MC_REQUIRE(box.isEmpty() == a.empty() && box.isNull() == a.empty(), "box-empty", "isEmpty is " << box.isEmpty());
      MC_REQUIRE(box.dim() == 2, "box-dim", box.dim());
      auto reset = box;
      reset.setEmpty();
      MC_REQUIRE(reset.isEmpty(), "box-set-empty", "not empty");
      auto null = box;
      null.setNull();
      MC_REQUIRE(null.isEmpty(), "box-set-empty", "not empty");
      c.step(4);
      if (!a.none) {
        MC_REQUIRE(is(box, a.x.lo, a.y.lo, a.x.hi, a.y.hi), "box-corners", "corners");
        MC_REQUIRE(box.center() == BasicPoint2d((a.x.lo + a.x.hi) / 2, (a.y.lo + a.y.hi) / 2), "box-center", box.center().transpose());
        BasicPoint2d size(a.x.hi - a.x.lo, a.y.hi - a.y.lo);
        MC_REQUIRE(box.sizes() == size && box.diagonal() == size && box.volume() == size.x() * size.y(), "box-size", box.sizes().transpose());
        MC_REQUIRE(box.corner(BoundingBox2d::BottomLeft) == BasicPoint2d(a.x.lo, a.y.lo) && box.corner(BoundingBox2d::BottomRight) == BasicPoint2d(a.x.hi, a.y.lo) && box.corner(BoundingBox2d::TopLeft) == BasicPoint2d(a.x.lo, a.y.hi) &&
                       box.corner(BoundingBox2d::TopRight) == BasicPoint2d(a.x.hi, a.y.hi),
                   "box-corner", "corner");
        Eigen::AlignedBox<double, 2> eb(Eigen::Vector2d(a.x.lo, a.y.lo), Eigen::Vector2d(a.x.hi, a.y.hi));
        MC_REQUIRE(is(BoundingBox2d(eb), a.x.lo, a.y.lo, a.x.hi, a.y.hi), "box-eigen", "conversion from Eigen");
        auto b3 = traits::to3D(box);
        MC_REQUIRE(b3.min() == Eigen::Vector3d(a.x.lo, a.y.lo, 0) && b3.max() == Eigen::Vector3d(a.x.hi, a.y.hi, 0), "box-3d", "three dimensions");
        BoundingBox3d high(Eigen::Vector3d(a.x.lo, a.y.lo, 3), Eigen::Vector3d(a.x.hi, a.y.hi, 5));
        MC_REQUIRE(is(traits::to2D(high), a.x.lo, a.y.lo, a.x.hi, a.y.hi) && is(lg::boundingBox2d(high), a.x.lo, a.y.lo, a.x.hi, a.y.hi) && is(lg::boundingBox2d(box), a.x.lo, a.y.lo, a.x.hi, a.y.hi), "box-2d", "two dimensions");
        MC_REQUIRE(lg::boundingBox3d(box).min() == b3.min() && lg::boundingBox3d(box).max() == b3.max() && lg::boundingBox3d(high).min() == high.min() && lg::boundingBox3d(high).max() == high.max(), "box-3d", "box of the box");
        auto moved = box;
        auto& self = moved.translate(BasicPoint2d(2, -3));
        MC_REQUIRE(&self == &moved && is(moved, a.x.lo + 2, a.y.lo - 3, a.x.hi + 2, a.y.hi - 3), "box-translate", moved.min().transpose() << " to " << moved.max().transpose());
        MC_REQUIRE(box.isApprox(box) && (a.x.lo == 0 || !box.isApprox(moved)), "box-approx", "isApprox");
        BoundingBox2d assigned;
        assigned.min() = BasicPoint2d(a.x.lo, a.y.lo);
        assigned.max() = BasicPoint2d(a.x.hi, a.y.hi);
        MC_REQUIRE(is(assigned, a.x.lo, a.y.lo, a.x.hi, a.y.hi), "box-assign", "corners set one by one");
        if (!a.empty()) {
          for (int k = 0; k < 3; ++k) {
            auto p = box.sample();
            MC_REQUIRE(a.has(p.x(), p.y()), "box-sample", "sample " << p.transpose());
          }
        }
      }
      for (double px : probe) {
        for (double py : probe) {
          c.step();
          BasicPoint2d p(px, py);
          MC_REQUIRE(box.contains(p) == a.has(px, py), "box-contains", "contains " << px << "," << py << " is " << box.contains(p));
          if (a.x.lo == px && a.y.lo == py) {
            BoundingBox2d point(p);
            MC_REQUIRE(is(point, px, py, px, py) && point.contains(p) && !point.isEmpty(), "box-point", "box of a point");
            MC_REQUIRE(is(lg::boundingBox2d(p), px, py, px, py) && is(lg::boundingBox2d(Point2d(1, px, py)), px, py, px, py) && is(lg::boundingBox2d(Point3d(1, px, py, 7)), px, py, px, py) && is(lg::boundingBox2d(BasicPoint3d(px, py, 7)), px, py, px, py), "box-of-point", "box of a point");
            auto z = [&](const BoundingBox3d& b, double h) { return b.min() == Eigen::Vector3d(px, py, h) && b.max() == Eigen::Vector3d(px, py, h); };
            MC_REQUIRE(z(lg::boundingBox3d(Point3d(1, px, py, 7)), 7) && z(lg::boundingBox3d(BasicPoint3d(px, py, 7)), 7) && z(lg::boundingBox3d(p), 0) && z(lg::boundingBox3d(Point2d(1, px, py, 7)), 7), "box-of-point-3d", "box of a point in three dimensions");
          }
          auto ext = box;
          auto& self = ext.extend(p);
          MC_REQUIRE(&self == &ext, "box-extend", "extend returns another box");
          if (a.none) {
            MC_REQUIRE(is(ext, px, py, px, py), "box-extend", "no box extended by " << px << "," << py);
          } else if (!a.empty()) {
            MC_REQUIRE(is(ext, std::min(a.x.lo, px), std::min(a.y.lo, py), std::max(a.x.hi, px), std::max(a.y.hi, py)), "box-extend", "extended by " << px << "," << py << " it is " << ext.min().transpose() << " to " << ext.max().transpose());
            auto viaBoost = box;
            bg::expand(viaBoost, p);
            MC_REQUIRE(is(viaBoost, ext.min().x(), ext.min().y(), ext.max().x(), ext.max().y()), "box-boost", "bg::expand");
            MC_REQUIRE(bg::covered_by(p, box) == a.has(px, py), "box-boost", "bg::covered_by");
            double dx = std::max({0., a.x.lo - px, px - a.x.hi}), dy = std::max({0., a.y.lo - py, py - a.y.hi});
            MC_REQUIRE(box.squaredExteriorDistance(p) == dx * dx + dy * dy && std::fabs(box.exteriorDistance(p) - std::hypot(dx, dy)) < 1e-12, "box-distance", "distance to " << px << "," << py << " is " << box.exteriorDistance(p));
          }
        }
      }
      for (auto& b : boxes) {
        c.step();
        const auto other = b.box();
        auto what = [&] { return " with " + b.str(); };
        auto cut = box.intersection(other);
        auto clamped = box;
        auto& self = clamped.clamp(other);
        MC_REQUIRE(&self == &clamped && clamped.min() == cut.min() && clamped.max() == cut.max(), "box-clamp", "clamp" << what() << " differs from the intersection");
        for (double px : probe) {
          for (double py : probe) MC_REQUIRE(cut.contains(BasicPoint2d(px, py)) == (a.has(px, py) && b.has(px, py)), "box-intersection", "intersection" << what() << " at " << px << "," << py);
        }
        auto ext = box;
        ext.extend(other);
        auto merged = box.merged(other);
        MC_REQUIRE(ext.min() == merged.min() && ext.max() == merged.max(), "box-merged", "merging" << what() << " differs from extending");
        if (a.none) MC_REQUIRE(ext.min() == other.min() && ext.max() == other.max(), "box-merged", "no box extended" << what());
        if (b.none) MC_REQUIRE(ext.min() == box.min() && ext.max() == box.max(), "box-merged", "extended by no box");
        if (!a.empty() && b.none) MC_REQUIRE(!box.intersects(other), "box-intersects", "intersects no box");
        if (a.empty() || b.empty()) continue;
        bool meet = a.x.lo <= b.x.hi && b.x.lo <= a.x.hi && a.y.lo <= b.y.hi && b.y.lo <= a.y.hi;
        MC_REQUIRE(box.intersects(other) == meet && cut.isEmpty() == !meet && bg::intersects(box, other) == meet, "box-intersects", "intersects" << what() << " is " << box.intersects(other));
        bool within = a.has(b.x.lo, b.y.lo) && a.has(b.x.hi, b.y.hi);
        MC_REQUIRE(box.contains(other) == within, "box-contains-box", "contains" << what() << " is " << box.contains(other));
        MC_REQUIRE(is(ext, std::min(a.x.lo, b.x.lo), std::min(a.y.lo, b.y.lo), std::max(a.x.hi, b.x.hi), std::max(a.y.hi, b.y.hi)), "box-merged", "merged" << what());
        double dx = std::max({0., a.x.lo - b.x.hi, b.x.lo - a.x.hi}), dy = std::max({0., a.y.lo - b.y.hi, b.y.lo - a.y.hi});
        MC_REQUIRE(box.squaredExteriorDistance(other) == dx * dx + dy * dy && std::fabs(box.exteriorDistance(other) - std::hypot(dx, dy)) < 1e-12, "box-distance-box", "distance" << what() << " is " << box.exteriorDistance(other));
      }
      c.state(a.str());
    });
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv,
                      {{"G04", g04,
                        "Every pair of shapes (convex quadrangles on a grid and bent strips) as lanelets and areas at several heights: overlap, intersection, containment, boxes and "
                        "intersections of centerlines against exact tests on convex pieces. A state is a pair of shapes.",
                        {"lanelets of two points per bound or two convex pieces", "intersections of centerlines with collinear segments are left out"}},
                       {"G05", g05,
                        "Every simple clockwise polygon with vertices on two 3x3 grids and edges that belong to the Delaunay triangulation of its vertices: parts are convex, disjoint, within "
                        "the polygon and cover it.",
                        {"polygons with edges that are not Delaunay edges are left out"}},
                       {"G06", g06,
                        "Every lanelet with bounds of up to 4 (thorough: 5) points that advance, with points on curves, and convex quadrangles: the centerline begins and ends half way, each "
                        "point is half way between later and later points of the bounds, and it stays inside.",
                        {}},
                       {"G07", g07, "Every line string of 2 to 4 points on a grid with several offsets to both sides.", {"lines do not touch themselves"}},
                       {"G08", g08, "Every box with corners on a grid, empty ones included, with every point of a finer grid and every other box: all operations against the definition by intervals. A state is a box.", {}}});
}
