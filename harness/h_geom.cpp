// G01, G02: distances, projections and arc coordinates of line strings, compared with brute force over segments.
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/LineString.h>

#include "geo.hpp"

namespace {
template <typename T>
V pointOf(const T& p) {
  return {p.x(), p.y(), 0};
}

template <typename Line>
void checkPoint2d(mc::Ctx& c, const char* kind, const Line& line, const L& l, const V& q, bool isTree) {
  double d = 0;
  auto ns = nearest(l, q, d);
  int side = sides(l, q, ns, d);
  std::string sig = std::string(kind) + (isTree ? "-long" : "");
  auto sd = lg::signedDistance(line, b2(q));
  MC_REQUIRE(std::fabs(std::fabs(sd) - d) < Eps, "signed-distance-" + sig, kind << " " << show(l, false) << " at (" << q.x << "," << q.y << "): |" << sd << "| instead of " << d);
  if (d > Eps) {
    MC_REQUIRE((side & (sd > 0 ? 1 : 2)) != 0, "side-" + sig, kind << " " << show(l, false) << " at (" << q.x << "," << q.y << "): signed distance " << sd << " has the wrong sign");
  }
  auto arc = lg::toArcCoordinates(line, b2(q));
  bool ok = false;
  for (auto& n : ns) ok |= std::fabs(n.s - arc.length) < 1e-7;
  MC_REQUIRE(ok, "arc-length-" + sig, kind << " " << show(l, false) << " at (" << q.x << "," << q.y << "): arc length " << arc.length << " instead of " << ns[0].s);
  MC_REQUIRE(std::fabs(arc.distance - sd) < Eps, "arc-distance-" + sig, kind << " " << show(l, false) << ": arc distance " << arc.distance << " signed distance " << sd);
  auto seg = lg::closestSegment(line, b2(q));
  ok = false;
  for (auto& n : ns) ok |= norm(flat({pointOf(seg.first)})[0] - l[n.seg]) < Eps && norm(pointOf(seg.second) - l[n.seg + 1]) < Eps;
  MC_REQUIRE(ok, "closest-segment-" + sig, kind << " " << show(l, false) << " at (" << q.x << "," << q.y << ")");
  c.step(4);
}
template <typename Line>
void checkProject2d(mc::Ctx& c, const char* kind, const Line& line, const L& l, const V& q, bool isTree) {
  double d = 0;
  auto ns = nearest(l, q, d);
  auto pr = lg::project(line, b2(q));
  bool ok = false;
  for (auto& n : ns) ok |= norm(v2(pr) - n.p) < Eps;
  MC_REQUIRE(ok, std::string("project-") + kind + (isTree ? "-long" : ""), kind << " " << show(l, false) << " at (" << q.x << "," << q.y << "): (" << pr.x() << "," << pr.y() << ")");
  c.step();
}
template <typename Line>
void checkPoint3d(mc::Ctx& c, const char* kind, const Line& line, const L& l, const V& q, bool isTree) {
  double d = 0;
  auto ns = nearest(l, q, d);
  std::string sig = std::string(kind) + (isTree ? "-long" : "");
  auto sd = lg::signedDistance(line, b3(q));
  MC_REQUIRE(std::fabs(std::fabs(sd) - d) < Eps, "signed-distance-3d-" + sig, kind << " " << show(l, true) << " at (" << q.x << "," << q.y << "," << q.z << "): |" << sd << "| instead of " << d);
  auto pr = lg::project(line, b3(q));
  bool ok = false;
  for (auto& n : ns) ok |= norm(v3(pr) - n.p) < Eps;
  MC_REQUIRE(ok, "project-3d-" + sig, kind << " " << show(l, true) << " at (" << q.x << "," << q.y << "," << q.z << "): (" << pr.x() << "," << pr.y() << "," << pr.z() << ")");
  c.step(2);
}
template <typename Line>
void checkAlong(mc::Ctx& c, const char* kind, const Line& line, const L& l, bool threeD) {
  const double total = len(l);
  auto toV = [&](const auto& p) {
    V r{p[0], p[1], 0};
    if (threeD) r.z = p[p.size() - 1];
    return r;
  };
  std::vector<double> ss{0, total};
  double acc = 0;
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    double d = norm(l[i + 1] - l[i]);
    for (double f : {0.25, 0.5, 0.75, 1.}) ss.push_back(acc + f * d);
    acc += d;
  }
  for (double s : ss) {
    auto p = toV(lg::interpolatedPointAtDistance(line, s));
    MC_REQUIRE(norm(p - at(l, s)) < 1e-7, std::string("interpolated-") + kind, kind << " " << show(l, threeD) << " at " << s << ": (" << p.x << "," << p.y << "," << p.z << ")");
    if (s > 0) {
      p = toV(lg::interpolatedPointAtDistance(line, -s));
      MC_REQUIRE(norm(p - at(reversed(l), s)) < 1e-7, std::string("interpolated-backwards-") + kind, kind << " " << show(l, threeD) << " at " << -s << ": (" << p.x << "," << p.y << "," << p.z << ")");
    }
    c.step(2);
  }
  auto p = toV(lg::interpolatedPointAtDistance(line, total + 1));
  MC_REQUIRE(norm(p - l.back()) < Eps, std::string("interpolated-behind-") + kind, "the point behind the end is not the last one");
  p = toV(lg::interpolatedPointAtDistance(line, -total - 1));
  MC_REQUIRE(norm(p - l.front()) < Eps, std::string("interpolated-before-") + kind, "the point before the begin is not the first one");
  auto r = lg::lengthRatios(line);
  auto a = lg::accumulatedLengthRatios(line);
  MC_REQUIRE(r.size() == l.size() - 1 && a.size() == r.size(), std::string("ratios-") + kind, "number of length ratios");
  acc = 0;
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    double d = norm(l[i + 1] - l[i]) / total;
    acc += d;
    MC_REQUIRE(std::fabs(r[i] - d) < Eps && std::fabs(a[i] - acc) < Eps, std::string("ratios-") + kind, kind << " " << show(l, threeD) << " ratio " << i << ": " << r[i] << ", " << a[i] << " instead of " << d << ", " << acc);
  }
  MC_REQUIRE(std::fabs(lg::length(line) - total) < Eps, std::string("length-") + kind, "length");
  MC_REQUIRE(std::fabs(lg::rangedLength(line.begin(), line.end()) - total) < Eps, std::string("ranged-length-") + kind, "rangedLength");
  c.step(4);
}
template <typename Line>
void checkNearestAtDistance(mc::Ctx& c, const char* kind, const Line& line, const L& l) {
  const double total = len(l);
  std::vector<double> cum{0};
  for (size_t i = 0; i + 1 < l.size(); ++i) cum.push_back(cum.back() + norm(l[i + 1] - l[i]));
  for (int k = 0; k <= 20; ++k) {
    double s = total * (k + 0.37) / 20.5;
    for (double sign : {1., -1.}) {
      auto got = v3(lg::nearestPointAtDistance(line, sign * s).basicPoint());
      double best = 1e300;
      double from = sign > 0 ? s : total - s;
      for (double x : cum) best = std::min(best, std::fabs(x - from));
      bool ok = false;
      for (size_t i = 0; i < l.size(); ++i) ok |= norm(got - l[i]) < Eps && std::fabs(cum[i] - from) < best + 1e-7;
      MC_REQUIRE(ok, std::string("nearest-at-distance-") + kind, kind << " " << show(l, true) << " at " << sign * s << ": (" << got.x << "," << got.y << "," << got.z << ")");
      c.step();
    }
  }
}
template <typename Line>
void checkFromArc(mc::Ctx& c, const char* kind, const Line& line, const L& l) {
  const double total = len(l);
  std::vector<std::pair<double, std::vector<size_t>>> ss;  // length and the segments whose normal may be used
  double acc = 0;
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    double d = norm(l[i + 1] - l[i]);
    std::vector<size_t> first{i};
    if (i > 0) first.push_back(i - 1);
    ss.push_back({acc, first});
    for (double f : {0.25, 0.5, 0.75}) ss.push_back({acc + f * d, {i}});
    acc += d;
  }
  ss.push_back({total, {l.size() - 2}});
  ss.push_back({total + 1, {l.size() - 2}});
  for (auto& s : ss) {
    for (double lat : {0., 0.3, -1.2}) {
      auto p = v2(lg::fromArcCoordinates(line, ArcCoordinates{s.first, lat}));
      V on = at(l, s.first);
      bool ok = false;
      for (size_t i : s.second) {
        V d = l[i + 1] - l[i];
        V n = V{-d.y, d.x, 0} * (1 / norm(d));
        ok |= norm(p - (on + n * lat)) < 1e-7;
      }
      MC_REQUIRE(ok, std::string("from-arc-") + kind, kind << " " << show(l, false) << " at (" << s.first << "," << lat << "): (" << p.x << "," << p.y << ")");
      c.step();
    }
  }
}

void g01(mc::Ctx& c) {
  auto lineCase = [&](const L& l3, int qLo, int qHi, double qStep, bool longOnes) {
    c.run([&] { return show(l3, true); }, [&] {
      const L l = flat(l3);
      auto m3 = ls3(l3);
      ConstLineString3d c3 = m3;
      ConstLineString2d c2 = utils::to2D(m3);
      auto i3 = c3.invert();
      auto i2 = c2.invert();
      auto h2 = utils::toHybrid(c2);
      auto h3 = utils::toHybrid(c3);
      auto comp3 = compound(l3);
      CompoundLineString2d comp2(comp3);
      auto basic2 = bl2(l);
      auto basic3 = bl3(l3);
      const L rl = reversed(l), rl3 = reversed(l3);
      const int per = int(60 / (l.size() - 1)) + 1;
      const L sl3 = subdivided(l3, per), sl = flat(sl3);
      auto long3 = ls3(sl3);
      ConstLineString2d long2 = utils::to2D(long3);
      for (double y = qLo; y <= qHi; y += qStep) {
        for (double x = qLo; x <= qHi; x += qStep) {
          V q{x, y, 0};
          checkPoint2d(c, "line", c2, l, q, false);
          checkPoint2d(c, "inverted", i2, rl, q, false);
          checkPoint2d(c, "basic", basic2, l, q, false);
          checkPoint2d(c, "hybrid", h2, l, q, false);
          checkPoint2d(c, "compound", comp2, l, q, false);
          checkProject2d(c, "line", c2, l, q, false);
          checkProject2d(c, "inverted", i2, rl, q, false);
          checkProject2d(c, "compound", comp2, l, q, false);
          checkProject2d(c, "hybrid", h2, l, q, false);
          if (longOnes) {
            checkPoint2d(c, "line", long2, sl, q, true);
            checkProject2d(c, "line", long2, sl, q, true);
          }
          V q3{x, y, std::fmod(std::fabs(x + 2 * y), 3.)};
          checkPoint3d(c, "line", c3, l3, q3, false);
          checkPoint3d(c, "inverted", i3, rl3, q3, false);
          checkPoint3d(c, "basic", basic3, l3, q3, false);
          checkPoint3d(c, "compound", comp3, l3, q3, false);
          if (longOnes) checkPoint3d(c, "line", long3, sl3, q3, true);
        }
      }
      checkAlong(c, "line", c2, l, false);
      checkAlong(c, "inverted", i2, rl, false);
      checkAlong(c, "basic", basic2, l, false);
      checkAlong(c, "hybrid", h2, l, false);
      checkAlong(c, "compound", comp2, l, false);
      checkAlong(c, "line3d", c3, l3, true);
      checkAlong(c, "inverted3d", i3, rl3, true);
      checkAlong(c, "basic3d", basic3, l3, true);
      checkAlong(c, "compound3d", comp3, l3, true);
      checkNearestAtDistance(c, "line", c3, l3);
      checkNearestAtDistance(c, "inverted", i3, rl3);
      checkFromArc(c, "line", c2, l);
      checkFromArc(c, "inverted", i2, rl);
      checkFromArc(c, "basic", basic2, l);
      checkFromArc(c, "compound", comp2, l);
      checkFromArc(c, "long", long2, sl);
      ++c.states;
    });
  };
  // lines that run to and fro often: many segments whose bounding boxes contain the query points, and then a tail
  auto combCase = [&](const L& l, size_t period, const V& shift) {
    L comb;
    for (int r = 0; comb.size() < 66; ++r) {
      for (size_t i = 0; i < period; ++i) comb.push_back(l[i] * 10 + shift * r);
    }
    for (size_t i = period; i < l.size(); ++i) comb.push_back(l[i] * 10);
    c.run([&] { return "comb of " + show(l, true); }, [&] {
      auto m3 = ls3(comb);
      ConstLineString2d c2 = utils::to2D(ConstLineString3d(m3));
      const L f = flat(comb);
      for (double y = -5; y <= 25; y += c.quick ? 5 : 2.5) {
        for (double x = -5; x <= 25; x += c.quick ? 5 : 2.5) {
          V q{x, y, 0}, q3{x, y, std::fmod(std::fabs(x + 2 * y), 30.)};
          checkPoint2d(c, "comb", c2, f, q, true);
          checkProject2d(c, "comb", c2, f, q, true);
          checkPoint3d(c, "comb", ConstLineString3d(m3), comb, q3, true);
        }
      }
      ++c.states;
    });
  };
  for (int n = 3; n <= (c.quick ? 3 : 4); ++n) {
    forLines(n, 3, 3, [&](const L& l) {
      for (size_t period = 2; period < l.size(); ++period) combCase(l, period, V{0.05, 0.02, 0});
    });
  }
  for (int n = 2; n <= 3; ++n) forLines(n, 3, 3, [&](const L& l) { lineCase(l, -1, 3, 0.5, true); });
  forLines(4, 3, c.quick ? 2 : 3, [&](const L& l) { lineCase(l, -1, 3, c.quick ? 1 : 0.5, true); });
  forLines(5, c.quick ? 2 : 3, 2, [&](const L& l) { lineCase(l, -1, 3, 0.5, !c.quick); });
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv,
                      {{"G01", g01,
                        "Every line string of 2 to 5 points on a small grid (in every representation, both orientations, and refined so far that the search tree is used) with every "
                        "query point of a grid; distances, sides, projections, arc coordinates, points along the line and ratios are compared with brute force over the segments.",
                        {"consecutive points differ", "tolerance 1e-9 (1e-7 for lengths along the line)"}}});
}
