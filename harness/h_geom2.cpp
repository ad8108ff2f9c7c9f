// G02: shortest connections between line strings. G03: neighbourhood predicates of lanelets and areas.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/Polygon.h>

#include "geo.hpp"

namespace {
//! squared distance of two segments: the best of the four end points and the interior stationary point
double segDist(const V& a, const V& b, const V& p, const V& q) {
  auto toSeg = [](const V& x, const V& s, const V& e) {
    V d = e - s;
    double t = dot(d, d) > 0 ? dot(x - s, d) / dot(d, d) : 0;
    t = std::min(1., std::max(0., t));
    return norm(x - (s + d * t));
  };
  double r = std::min(std::min(toSeg(a, p, q), toSeg(b, p, q)), std::min(toSeg(p, a, b), toSeg(q, a, b)));
  V u = b - a, v = q - p, w = a - p;
  double A = dot(u, u), B = dot(u, v), C = dot(v, v), D = dot(u, w), E = dot(v, w), den = A * C - B * B;
  if (den > 1e-12) {
    double s = (B * E - C * D) / den, t = (A * E - B * D) / den;
    if (s >= 0 && s <= 1 && t >= 0 && t <= 1) r = std::min(r, norm((a + u * s) - (p + v * t)));
  }
  return r;
}
double lineDist(const L& a, const L& b) {
  double r = 1e300;
  auto segs = [](const L& l) {
    std::vector<std::pair<V, V>> s;
    if (l.size() == 1) s.push_back({l[0], l[0]});
    for (size_t i = 0; i + 1 < l.size(); ++i) s.push_back({l[i], l[i + 1]});
    return s;
  };
  for (auto& x : segs(a)) for (auto& y : segs(b)) r = std::min(r, segDist(x.first, x.second, y.first, y.second));
  return r;
}
double pointDist(const L& l, const V& p) {
  if (l.size() == 1) return norm(l[0] - p);
  double d = 0;
  nearest(l, p, d);
  return d;
}
struct Line2 {
  L l, f;
  LineString3d owner;
  ConstLineString3d c3;
  ConstLineString2d c2;
  ConstHybridLineString2d h2;
  ConstHybridLineString3d h3;
  CompoundLineString3d comp3;
  CompoundLineString2d comp2;
  explicit Line2(const L& x) : l(x), f(flat(x)), owner(ls3(x)), c3(owner), c2(utils::to2D(owner)), h2(utils::toHybrid(c2)), h3(utils::toHybrid(c3)), comp3(x.size() > 1 ? compound(x) : CompoundLineString3d(ConstLineStrings3d{owner})), comp2(comp3) {}
};
void checkPair(mc::Ctx& c, const std::string& kind, const L& a, const L& b, const V& p, const V& q, double best) {
  MC_REQUIRE(std::fabs(norm(p - q) - best) < 1e-8, "shortest-" + kind, show(a, true) << " and " << show(b, true) << ": the points are " << norm(p - q) << " apart, the lines " << best);
  MC_REQUIRE(pointDist(a, p) < 1e-8, "first-on-first-" + kind, show(a, true) << " and " << show(b, true) << ": the first point is not on the first line");
  MC_REQUIRE(pointDist(b, q) < 1e-8, "second-on-second-" + kind, show(a, true) << " and " << show(b, true) << ": the second point is not on the second line");
  c.step(3);
}
void checkLines(mc::Ctx& c, const Line2& a, const Line2& b, const std::string& sfx) {
  double d2 = lineDist(a.f, b.f), d3 = lineDist(a.l, b.l);
  auto p2 = lg::projectedPoint2d(a.c2, b.c2);
  checkPair(c, "2d" + sfx, a.f, b.f, v2(p2.first), v2(p2.second), d2);
  p2 = lg::projectedPoint2d(a.comp2, b.comp2);
  checkPair(c, "2d-compound" + sfx, a.f, b.f, v2(p2.first), v2(p2.second), d2);
  p2 = lg::internal::projectedPoint2d(a.h2, utils::toHybrid(b.comp2));
  checkPair(c, "2d-mixed" + sfx, a.f, b.f, v2(p2.first), v2(p2.second), d2);
  auto p3 = lg::projectedPoint3d(a.c3, b.c3);
  checkPair(c, "3d" + sfx, a.l, b.l, v3(p3.first), v3(p3.second), d3);
  p3 = lg::projectedPoint3d(a.comp3, b.comp3);
  checkPair(c, "3d-compound" + sfx, a.l, b.l, v3(p3.first), v3(p3.second), d3);
  p3 = lg::internal::projectedPoint3d(utils::toHybrid(a.comp3), b.h3);
  checkPair(c, "3d-mixed" + sfx, a.l, b.l, v3(p3.first), v3(p3.second), d3);
  MC_REQUIRE(std::fabs(lg::distance3d(a.c3, b.c3) - d3) < 1e-8, "distance3d" + sfx, show(a.l, true) << " and " << show(b.l, true) << ": " << lg::distance3d(a.c3, b.c3) << " instead of " << d3);
  MC_REQUIRE(std::fabs(lg::distance3d(a.c3, b.comp3) - d3) < 1e-8, "distance3d-mixed" + sfx, "distance3d");
  if (a.l.size() > 1 && b.l.size() > 1) {
    MC_REQUIRE(std::fabs(lg::distance2d(a.c2, b.c2) - d2) < 1e-8, "distance2d" + sfx, show(a.f, true) << " and " << show(b.f, true) << ": " << lg::distance2d(a.c2, b.c2) << " instead of " << d2);
    // both at constant heights: they intersect if their projections do and the heights are close enough
    for (double h : {0., 2.5, 3.5}) {
      L ha = a.f, hb = b.f;
      for (auto& p : ha) p.z = 10;
      for (auto& p : hb) p.z = 10 + h;
      auto la = ls3(ha), lb = ls3(hb);
      bool want = d2 < 1e-12 && h < 3;
      MC_REQUIRE(lg::intersects3d(la, lb) == want, "intersects3d" + sfx, show(ha, true) << " and " << show(hb, true) << ": " << lg::intersects3d(la, lb) << " instead of " << want);
      bool wide = d2 < 1e-12;
      MC_REQUIRE(lg::intersects3d(la, lb, 4.) == wide, "intersects3d-tolerance" + sfx, show(ha, true) << " and " << show(hb, true));
      c.step(2);
    }
  }
}
void g02(mc::Ctx& c) {
  std::vector<L> one, two, three;
  for (int i = 0; i < 9; ++i) one.push_back({grid(i, 3)});
  forLines(2, 3, 3, [&](const L& l) { two.push_back(l); });
  forLines(3, 3, 3, [&](const L& l) { three.push_back(l); });
  auto up = [](L l, double z) {
    for (auto& p : l) p.z += z;
    return l;
  };
  auto runCase = [&](const L& a, const std::vector<L>& others, const char* what) {
    c.run([&] { return show(a, true) + " and every line of " + what; }, [&] {
      Line2 la(a);
      for (auto& b : others) {
        checkLines(c, la, Line2(b), "");
        ++c.states;
      }
    });
  };
  for (auto& a : one) runCase(a, two, "2 points"), runCase(a, three, "3 points");
  for (auto& a : two) runCase(a, two, "2 points"), runCase(a, three, "3 points");
  for (size_t i = 0; i < three.size(); ++i) {
    std::vector<L> o;
    for (size_t j = c.quick ? i % 16 : 0; j < three.size(); j += c.quick ? 16 : 1) o.push_back(three[j]);
    runCase(three[i], o, c.quick ? "3 points (every 16th)" : "3 points");
  }
  // in three dimensions, above each other
  for (auto& a : two) {
    std::vector<L> o;
    for (auto& b : two) o.push_back(up(b, 1.25));
    for (auto& b : two) {
      L r = b;
      for (auto& p : r) p.z = 2 - p.z;
      o.push_back(r);
    }
    runCase(a, o, "2 points at other heights");
  }
  // long lines, for which a search tree is used: the second, the first, or both
  for (size_t i = 0; i < two.size(); ++i) {
    c.run([&] { return show(two[i], true) + " and long lines"; }, [&] {
      Line2 a(two[i]), la(subdivided(two[i], 60));
      for (size_t j = 0; j < three.size(); j += c.quick ? 4 : 1) {
        Line2 b(subdivided(three[j], 26));
        checkLines(c, a, b, "-long");
        checkLines(c, b, a, "-long");
        if (j % 8 == 0) checkLines(c, la, b, "-both-long");
        ++c.states;
      }
    });
  }
  // borders of polygons
  auto polys = c.quick ? three : three;
  for (size_t i = 0; i < polys.size(); ++i) {
    if (crossZ(polys[i][1] - polys[i][0], polys[i][2] - polys[i][0]) >= 0) continue;  // clockwise triangles
    c.run([&] { return "polygon " + show(polys[i], true) + " and every polygon"; }, [&] {
      auto poly = [](const L& l, double dx, double z) {
        Points3d ps;
        Id id = 1;
        for (auto& p : l) ps.emplace_back(id++, p.x + dx, p.y, p.z + z);
        return Polygon3d(1000, ps);
      };
      auto p = poly(polys[i], 0, 0);
      for (size_t j = 0; j < polys.size(); ++j) {
        if (crossZ(polys[j][1] - polys[j][0], polys[j][2] - polys[j][0]) >= 0) continue;
        for (double z : {0., 2., 4.}) {
          auto q = poly(polys[j], 1.5, z);
          ConstPolygon3d cp = p, cq = q;
          L la = polys[i], lb = polys[j];
          for (auto& v : lb) v.x += 1.5, v.z += z;
          la.push_back(la[0]);
          lb.push_back(lb[0]);
          double want = lineDist(la, lb);
          double got = lg::distanceToBorder3d(cp, cq);
          MC_REQUIRE(std::fabs(want - got) < 1e-8, "border-distance", show(la, true) << " and " << show(lb, true) << ": " << got << " instead of " << want);
          c.step();
        }
      }
      ++c.states;
    });
  }
}

// ------------------------------------------------------------------ G03
void g03(mc::Ctx& c) {
  // six points on two columns; line strings between them. Bounds are (line, orientation).
  std::vector<Point3d> p;
  for (int i = 0; i < 6; ++i) p.emplace_back(i + 1, i / 3, i % 3, 0);
  p.emplace_back(7, 1, 1, 0);  // another point where the fifth one is
  std::vector<LineString3d> ls;
  Id id = 100;
  auto add = [&](std::initializer_list<int> ix) {
    Points3d ps;
    for (int i : ix) ps.push_back(p[size_t(i)]);
    ls.emplace_back(id++, ps);
  };
  add({0, 3});  // rails, from column 0 to column 1
  add({1, 4});
  add({2, 5});
  add({0, 1});  // connections across
  add({4, 3});
  add({1, 4});  // same points as another one
  if (!c.quick) add({3, 0});
  add({0, 4, 3});
  add({3, 5});
  add({6, 5});
  std::vector<LineString3d> bounds;
  for (auto& l : ls) bounds.push_back(l), bounds.push_back(l.invert());
  struct LL {
    Lanelet l;
    int left, right;  // index into bounds; ^1 is the inverse
  };
  std::vector<LL> lls;
  for (size_t i = 0; i < bounds.size(); ++i) {
    for (size_t j = 0; j < bounds.size(); ++j) {
      if (i / 2 == j / 2) continue;
      lls.push_back({Lanelet(1000 + Id(lls.size()), bounds[i], bounds[j]), int(i), int(j)});
    }
  }
  auto front = [&](int b) { return bounds[size_t(b)].front().id(); };
  auto back = [&](int b) { return bounds[size_t(b)].back().id(); };
  struct Ori {
    ConstLanelet l;
    int left, right;
  };
  auto orient = [&](const LL& l, bool inv) -> Ori {
    if (!inv) return {l.l, l.left, l.right};
    return {ConstLanelet(l.l.invert()), l.right ^ 1, l.left ^ 1};
  };
  auto same = [&](const Optional<ConstLineString3d>& o, int b) {
    if (b < 0) return !o;
    return !!o && *o == bounds[size_t(b)] && o->inverted() == bounds[size_t(b)].inverted();
  };
  for (size_t i = 0; i < lls.size(); ++i) {
    c.run([&] { return "lanelet of bounds " + std::to_string(lls[i].left) + "," + std::to_string(lls[i].right) + " and every other"; }, [&] {
      for (auto& other : lls) {
        for (int inv = 0; inv < 4; ++inv) {
          auto a = orient(lls[i], (inv & 1) != 0), b = orient(other, (inv & 2) != 0);
          auto d = [&] { return "bounds " + std::to_string(a.left) + "," + std::to_string(a.right) + " and " + std::to_string(b.left) + "," + std::to_string(b.right); };
          bool left = a.right == b.left, right = a.left == b.right;
          bool fol = back(a.left) == front(b.left) && back(a.right) == front(b.right);
          MC_REQUIRE(lg::leftOf(a.l, b.l) == left, "left-of", d());
          MC_REQUIRE(lg::rightOf(a.l, b.l) == right, "right-of", d());
          MC_REQUIRE(lg::follows(a.l, b.l) == fol, "follows", d() << ": " << !fol << " instead of " << fol);
          int common = a.left == b.right ? a.left : a.right == b.left ? a.right : -1;
          MC_REQUIRE(same(lg::determineCommonLine(a.l, b.l), common), "common-line", d());
          if (common < 0) common = a.left == (b.left ^ 1) ? a.left : a.right == (b.right ^ 1) ? a.right : -1;
          MC_REQUIRE(same(lg::determineCommonLine(a.l, b.l, true), common), "common-line-inverted", d());
          // what the inverted pair says follows from that
          MC_REQUIRE(lg::leftOf(a.l, b.l) == lg::leftOf(b.l.invert(), a.l.invert()), "left-of-inverted", d());
          MC_REQUIRE(lg::follows(a.l, b.l) == lg::follows(b.l.invert(), a.l.invert()), "follows-inverted", d());
          c.step(7);
        }
        ++c.states;
      }
    });
  }
  // areas: closed chains of bounds
  struct A {
    Area a;
    std::vector<int> outer;
  };
  std::vector<A> areas;
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> chain) {
    if (!chain.empty() && chain.size() > 1 && back(chain.back()) == front(chain.front())) {
      LineStrings3d o;
      for (int b : chain) o.push_back(bounds[size_t(b)]);
      areas.push_back({Area(5000 + Id(areas.size()), o), chain});
    }
    if (int(chain.size()) >= (c.quick ? 3 : 4)) return;
    for (int b = 0; b < int(bounds.size()); ++b) {
      bool used = false;
      for (int x : chain) used |= x / 2 == b / 2;
      if (used || (!chain.empty() && back(chain.back()) != front(b))) continue;
      auto n = chain;
      n.push_back(b);
      rec(n);
    }
  };
  rec({});
  c.count("areas", c.shard == 0 ? areas.size() : 0);
  auto first = [](const std::vector<int>& v, const std::function<bool(int)>& f) {
    for (int x : v) {
      if (f(x)) return x;
    }
    return -1;
  };
  for (auto& ar : areas) {
    c.run([&] { return "area of " + mc::join(ar.outer, ",") + " and every lanelet and area"; }, [&] {
      for (auto& l : lls) {
        for (int inv = 0; inv < 2; ++inv) {
          auto a = orient(l, inv != 0);
          auto d = [&] { return "area of " + mc::join(ar.outer, ",") + " and lanelet of " + std::to_string(a.left) + "," + std::to_string(a.right); };
          // the inner side of an area is right of its bounds
          int onLeft = first(ar.outer, [&](int b) { return (b ^ 1) == a.left; });
          int onRight = first(ar.outer, [&](int b) { return b == a.right; });
          ConstArea ca = ar.a;
          MC_REQUIRE(lg::leftOf(a.l, ca) == (onLeft >= 0), "area-left-of", d());
          MC_REQUIRE(lg::rightOf(a.l, ca) == (onRight >= 0), "area-right-of", d());
          bool endsAt = first(ar.outer, [&](int b) {
                          return (front(b) == back(a.left) && back(b) == back(a.right)) || (back(b) == back(a.left) && front(b) == back(a.right));
                        }) >= 0;
          bool startsAt = first(ar.outer, [&](int b) {
                            return (front(b) == front(a.left) && back(b) == front(a.right)) || (back(b) == front(a.left) && front(b) == front(a.right));
                          }) >= 0;
          MC_REQUIRE(lg::follows(a.l, ca) == endsAt, "area-follows-lanelet", d());
          MC_REQUIRE(lg::follows(ca, a.l) == startsAt, "lanelet-follows-area", d());
          int pre = first(ar.outer, [&](int b) { return back(b) == back(a.left) && front(b) == back(a.right); });
          int fol = first(ar.outer, [&](int b) { return back(b) == front(a.right) && front(b) == front(a.left); });
          int any = first(ar.outer, [&](int b) { return (back(b) == back(a.left) && front(b) == back(a.right)) || (back(b) == front(a.right) && front(b) == front(a.left)); });
          MC_REQUIRE(same(lg::determineCommonLinePreceding(a.l, ca), pre), "common-preceding", d());
          MC_REQUIRE(same(lg::determineCommonLineFollowing(ca, a.l), fol), "common-following", d());
          MC_REQUIRE(same(lg::determineCommonLineFollowingOrPreceding(ca, a.l), any), "common-following-or-preceding", d());
          MC_REQUIRE(same(lg::determineCommonLineRight(a.l, ca), onRight), "common-right", d());
          MC_REQUIRE(same(lg::determineCommonLineLeft(a.l, ca), onLeft < 0 ? -1 : onLeft ^ 1), "common-left", d());
          auto side = lg::determineCommonLineSideways(a.l, ca);
          MC_REQUIRE(same(side, onLeft >= 0 ? onLeft ^ 1 : onRight), "common-sideways", d());
          int sideA = first(ar.outer, [&](int b) { return b == (a.left ^ 1) || b == a.right; });
          MC_REQUIRE(same(lg::determineCommonLineSideways(ca, a.l), sideA), "common-sideways-area", d());
          MC_REQUIRE(same(lg::determineCommonLine(ca, a.l), any >= 0 ? any : sideA), "common-area-lanelet", d());
          c.step(12);
        }
      }
      for (auto& o : areas) {
        auto d = [&] { return "areas of " + mc::join(ar.outer, ",") + " and " + mc::join(o.outer, ","); };
        int common = first(ar.outer, [&](int b) { return first(o.outer, [&](int x) { return x == (b ^ 1); }) >= 0; });
        MC_REQUIRE(same(lg::determineCommonLine(ConstArea(ar.a), ConstArea(o.a)), common), "common-areas", d());
        if (common >= 0) MC_REQUIRE(lg::adjacent(ar.a, o.a), "adjacent", d() << ": not adjacent although they share a bound");
        // adjacent: a segment of one outline is one of the other, in the opposite direction
        auto segs = [&](const A& x) {
          std::vector<Id> pts;
          for (int b : x.outer) {
            for (size_t k = 0; k + 1 < bounds[size_t(b)].size(); ++k) pts.push_back(bounds[size_t(b)][k].id());
          }
          std::set<std::pair<Id, Id>> s;
          for (size_t k = 0; k < pts.size(); ++k) s.insert({pts[k], pts[(k + 1) % pts.size()]});
          return std::make_pair(s, std::set<Id>(pts.begin(), pts.end()).size() == pts.size() && pts.size() > 2);
        };
        auto sa = segs(ar), sb = segs(o);
        bool adj = false;
        for (auto& s : sa.first) adj |= sb.first.count({s.second, s.first}) != 0;
        if (sa.second && sb.second) MC_REQUIRE(lg::adjacent(ar.a, o.a) == adj, "adjacent", d() << ": " << !adj << " instead of " << adj);
        c.step(3);
      }
      ++c.states;
    });
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv,
                      {{"G02", g02,
                        "Every pair of line strings of 1 to 3 points on a 3x3 grid with heights (and refined ones, for which a search tree is used), in several representations: the "
                        "connecting points lie on their lines and are as close as the closest segments; every pair of triangles for borders of polygons. A state is a pair.",
                        {"tolerance 1e-8", "intersects3d is checked for lines of constant height"}},
                       {"G03", g03,
                        "Every pair of lanelets (both orientations) and areas over a pool of line strings that share points, against the definitions by identity of bounds and end points.",
                        {"the pool has 9 (thorough: 10) line strings over 7 points, two of which are at the same position"}}});
}
