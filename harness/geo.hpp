// Small exact-ish geometry used as oracle, and construction of primitives from it.
#pragma once
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/LineString.h>

#include <cmath>

#include "mc.hpp"

using namespace lanelet;
namespace lg = lanelet::geometry;

namespace {
struct V {
  double x, y, z;
  V operator-(const V& o) const { return {x - o.x, y - o.y, z - o.z}; }
  V operator+(const V& o) const { return {x + o.x, y + o.y, z + o.z}; }
  V operator*(double f) const { return {x * f, y * f, z * f}; }
};
double dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
double norm(const V& a) { return std::sqrt(dot(a, a)); }
double crossZ(const V& a, const V& b) { return a.x * b.y - a.y * b.x; }
using L = std::vector<V>;
constexpr double Eps = 1e-9;

L flat(L l) {
  for (auto& p : l) p.z = 0;
  return l;
}
double len(const L& l) {
  double s = 0;
  for (size_t i = 1; i < l.size(); ++i) s += norm(l[i] - l[i - 1]);
  return s;
}
struct Near {
  size_t seg;
  double t;  // 0..1
  V p;
  double s;  // length until there
};
//! all nearest points of the line (one per segment at most)
std::vector<Near> nearest(const L& l, const V& p, double& dist) {
  std::vector<Near> r;
  dist = 1e300;
  std::vector<std::pair<double, Near>> all;
  double s = 0;
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    V d = l[i + 1] - l[i];
    double t = dot(d, d) > 0 ? dot(p - l[i], d) / dot(d, d) : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    V q = l[i] + d * t;
    all.push_back({norm(p - q), {i, t, q, s + norm(d) * t}});
    dist = std::min(dist, all.back().first);
    s += norm(d);
  }
  for (auto& a : all) {
    if (a.first <= dist + Eps) r.push_back(a.second);
  }
  return r;
}
//! the sides the point may be on: bit 0 left, bit 1 right
int sides(const L& l, const V& p, const std::vector<Near>& ns, double dist) {
  if (dist < Eps) return 3;
  int m = 0;
  auto sgn = [](double c) { return c > Eps ? 1 : c < -Eps ? 2 : 3; };
  for (auto& n : ns) {
    V d = l[n.seg + 1] - l[n.seg];
    bool atFirst = n.t < Eps, atLast = n.t > 1 - Eps;
    if ((!atFirst && !atLast) || (atFirst && n.seg == 0) || (atLast && n.seg + 2 == l.size())) {
      m |= sgn(crossZ(d, p - l[n.seg]));
      continue;
    }
    size_t b = atFirst ? n.seg : n.seg + 1;  // inner vertex
    V in = l[b] - l[b - 1], out = l[b + 1] - l[b];
    double turn = crossZ(in, out);
    if (std::fabs(turn) > Eps) {
      m |= turn > 0 ? 2 : 1;  // nearest to the outer side of the corner
    } else if (dot(in, out) > 0) {
      m |= sgn(crossZ(in, p - l[b]));
    } else {
      m |= 3;  // the line turns back
    }
  }
  return m;
}
V at(const L& l, double s, int* seg = nullptr) {
  double a = 0;
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    double d = norm(l[i + 1] - l[i]);
    if (a + d >= s - Eps) {
      if (seg != nullptr) *seg = int(i);
      return l[i] + (l[i + 1] - l[i]) * std::max(0., (s - a) / d);
    }
    a += d;
  }
  if (seg != nullptr) *seg = int(l.size()) - 2;
  return l.back();
}
L subdivided(const L& l, int perSegment) {
  L r;
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    for (int k = 0; k < perSegment; ++k) r.push_back(l[i] + (l[i + 1] - l[i]) * (double(k) / perSegment));
  }
  r.push_back(l.back());
  return r;
}
L reversed(const L& l) { return L(l.rbegin(), l.rend()); }
BasicPoint2d b2(const V& v) { return {v.x, v.y}; }
BasicPoint3d b3(const V& v) { return {v.x, v.y, v.z}; }
V v2(const BasicPoint2d& p) { return {p.x(), p.y(), 0}; }
V v3(const BasicPoint3d& p) { return {p.x(), p.y(), p.z()}; }
BasicLineString2d bl2(const L& l) {
  BasicLineString2d r;
  for (auto& p : l) r.push_back(b2(p));
  return r;
}
BasicLineString3d bl3(const L& l) {
  BasicLineString3d r;
  for (auto& p : l) r.push_back(b3(p));
  return r;
}
LineString3d ls3(const L& l) {
  Points3d ps;
  Id id = 1;
  for (auto& p : l) ps.emplace_back(id++, p.x, p.y, p.z);
  return LineString3d(1000, ps);
}
CompoundLineString3d compound(const L& l) {  // one part per segment, every second one stored the other way round
  ConstLineStrings3d parts;
  Points3d ps;
  Id id = 1;
  for (auto& p : l) ps.emplace_back(id++, p.x, p.y, p.z);
  for (size_t i = 0; i + 1 < ps.size(); ++i) {
    if (i % 2 == 0) {
      parts.push_back(LineString3d(id++, {ps[i], ps[i + 1]}));
    } else {
      parts.push_back(LineString3d(id++, {ps[i + 1], ps[i]}).invert());
    }
  }
  return CompoundLineString3d(parts);
}
std::string show(const L& l, bool z) {
  std::ostringstream o;
  for (auto& p : l) {
    o << "(" << p.x << "," << p.y;
    if (z) o << "," << p.z;
    o << ")";
  }
  return o.str();
}
V grid(int i, int w) {
  double x = i % w, y = i / w;
  return {x, y, double((3 * i + i / w) % 4) * 0.5};
}
//! all lines of n points on a w x h grid without a point that repeats the one before
template <typename F>
void forLines(int n, int w, int h, F&& f) {
  mc::forSequences(w * h, n, [&](const std::vector<int>& v) {
    for (size_t i = 1; i < v.size(); ++i) {
      if (v[i] == v[i - 1]) return;
    }
    L l;
    for (int i : v) l.push_back(grid(i, w));
    f(l);
  });
}
}  // namespace
