// M01, M02: matching objects to lanelets, against distances worked out from coordinates.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_matching/LaneletMatching.h>

#include "geo.hpp"
using namespace lanelet::matching;

namespace {
double segDist(const V& a, const V& b, const V& p, const V& q) {
  auto toSeg = [](const V& x, const V& s, const V& t) {
    V d = t - s;
    double f = dot(d, d) > 0 ? dot(x - s, d) / dot(d, d) : 0;
    f = f < 0 ? 0 : f > 1 ? 1 : f;
    return norm(x - (s + d * f));
  };
  double d1 = crossZ(b - a, p - a), d2 = crossZ(b - a, q - a), d3 = crossZ(q - p, a - p), d4 = crossZ(q - p, b - p);
  double d = std::min({toSeg(a, p, q), toSeg(b, p, q), toSeg(p, a, b), toSeg(q, a, b)});
  if (d1 * d2 < 0 && d3 * d4 < 0) return d > Eps ? -1 : 0;  // -1: certainly met
  return d;
}
bool inside(const L& ring, const V& p) {
  bool in = false;
  for (size_t i = 0, j = ring.size() - 1; i < ring.size(); j = i++) {
    if ((ring[i].y > p.y) != (ring[j].y > p.y) && p.x < (ring[j].x - ring[i].x) * (p.y - ring[i].y) / (ring[j].y - ring[i].y) + ring[i].x) in = !in;
  }
  return in;
}
//! a shape is an area (ring), a line or a point
struct Shape {
  L l;
  bool area;
};
//! -1: they certainly meet; up to Eps: they touch, which is a matter of rounding
double dist(const Shape& a, const Shape& b) {
  auto segs = [](const Shape& s) { return s.area ? s.l.size() : std::max<size_t>(1, s.l.size() - 1); };
  double d = 1e300;
  for (size_t i = 0; i < segs(a); ++i) {
    for (size_t k = 0; k < segs(b); ++k) d = std::min(d, segDist(a.l[i], a.l[(i + 1) % a.l.size()], b.l[k], b.l[(k + 1) % b.l.size()]));
  }
  if (d < 0 || d <= Eps) return d;
  return (a.area && inside(a.l, b.l[0])) || (b.area && inside(b.l, a.l[0])) ? -1 : d;
}
bool mustBeWithin(double d, double lim) { return d < 0 || d < lim - Eps; }
bool mayBeWithin(double d, double lim) { return d <= lim + Eps; }

struct Road {
  L left, right;
  const char *subtype, *oneWay;
};
const std::vector<Road>& roads() {
  static const std::vector<Road> r{
      {{{0, 2, 0}, {10, 2, 0}}, {{0, -2, 0}, {10, -2, 0}}, "road", nullptr},
      {{{3, 5, 0}, {9, 11, 0}}, {{5, 3, 0}, {11, 9, 0}}, "road", "no"},
      {{{-4, -9, 0}, {-4, 0, 0}, {-12, 0, 0}}, {{-1, -9, 0}, {-1, 3, 0}, {-12, 3, 0}}, "road", nullptr},
      {{{4, -8, 0}, {4, 8, 0}}, {{6, -8, 0}, {6, 8, 0}}, "walkway", nullptr},
      {{{10, 2, 0}, {18, 4, 0}}, {{10, -2, 0}, {18, 0, 0}}, "bicycle_lane", "no"},
      {{{0, 102, 0}, {10, 102, 0}}, {{0, 98, 0}, {10, 98, 0}}, "play_street", nullptr}};
  return r;
}
Shape outline(const Road& r) {
  Shape s{r.left, true};
  s.l.insert(s.l.end(), r.right.rbegin(), r.right.rend());
  return s;
}
struct Map {
  LaneletMapPtr map{std::make_shared<LaneletMap>()};
  std::vector<int> which;
  std::vector<Lanelet> lls;  // by index of the road
  explicit Map(unsigned set) : lls(roads().size()) {
    Id id = 1;
    auto line = [&](const L& l) {
      Points3d ps;
      for (auto& p : l) ps.emplace_back(id++, p.x, p.y, p.z);
      return LineString3d(id++, ps);
    };
    for (size_t i = 0; i < roads().size(); ++i) {
      if (!((set >> i) & 1)) continue;
      which.push_back(int(i));
      auto& r = roads()[i];
      lls[i] = Lanelet(1000 + Id(i), line(r.left), line(r.right));
      lls[i].attributes()["type"] = "lanelet";
      lls[i].attributes()["subtype"] = r.subtype;
      lls[i].attributes()["location"] = "urban";
      if (r.oneWay) lls[i].attributes()["one_way"] = r.oneWay;
      map->add(lls[i]);
    }
  }
};
//! hulls relative to the object
const std::vector<L>& hulls() {
  static const std::vector<L> h{
      {},
      {{-1, -0.9, 0}, {2, -0.9, 0}, {2, 0.9, 0}, {1, 0.9, 0}},
      {{-1, -1, 0}, {-1, 1, 0}, {2, 1, 0}, {2, -1, 0}, {-1, -1, 0}},
      {{0, 0, 0}, {0.5, 3, 0}, {3, 0.5, 0}},
      {{-30, -30, 0}, {30, -30, 0}, {30, 30, 0}, {-30, 30, 0}},
      {{-5, -0.2, 0}, {-5, 0.2, 0}, {5, 0.2, 0}, {5, -0.2, 0}},
      {{-3, -3, 0}, {-3, 3, 0}, {0, 3, 0}, {0, 0, 0}, {3, 0, 0}, {3, -3, 0}}};
  return h;
}
struct Pose {
  double x, y, yaw;
};
void forPoses(bool quick, const std::function<void(const Pose&)>& f) {
  const double xs[] = {-14, -4, -2.5, 0.3, 4.7, 5, 10, 13.3}, ys[] = {-12, -5.5, -2, 0, 1.4, 5.5, 9.1};
  for (double x : xs) {
    for (double y : ys) {
      for (int k = 0; k < (quick ? 8 : 24); ++k) f({x, y, k * (quick ? 45 : 15) * M_PI / 180});
    }
  }
}
template <typename ObjT>
ObjT object(const Pose& p, size_t hull, Shape& shape) {
  ObjT o;
  o.pose.translation() = BasicPoint2d(p.x, p.y);
  o.pose.linear() = Eigen::Rotation2D<double>(p.yaw).matrix();
  shape = {{}, false};
  for (auto& h : hulls()[hull]) {
    V v{p.x + std::cos(p.yaw) * h.x - std::sin(p.yaw) * h.y, p.y + std::sin(p.yaw) * h.x + std::cos(p.yaw) * h.y, 0};
    shape.l.push_back(v);
    o.absoluteHull.push_back(b2(v));
  }
  if (shape.l.empty()) {
    shape.l.push_back({p.x, p.y, 0});
  } else {
    shape.area = true;
    if (norm(shape.l.front() - shape.l.back()) < 1e-9) shape.l.pop_back();
  }
  return o;
}
using Key = std::pair<Id, bool>;
const char* partNames[] = {Participants::VehicleCar, Participants::Bicycle, Participants::Pedestrian};
std::vector<traffic_rules::TrafficRulesPtr> allRules() {
  std::vector<traffic_rules::TrafficRulesPtr> r;
  for (auto* p : partNames) r.push_back(traffic_rules::TrafficRulesFactory::create(Locations::Germany, p));
  return r;
}
//! who may use the roads above, as documented: by road, direction, participant
bool compliant(int road, bool inv, int part) {
  const bool fwd[6][3] = {{true, true, false}, {true, true, false}, {true, true, false}, {false, false, true}, {false, true, false}, {true, true, true}};
  const bool both[6][3] = {{false, false, true}, {true, true, true}, {false, false, true}, {false, false, true}, {true, true, true}, {false, false, true}};
  return fwd[road][part] && (!inv || both[road][part]);
}
template <typename M>
void checkFilter(const std::vector<M>& ms, const std::vector<traffic_rules::TrafficRulesPtr>& rules) {
  for (size_t k = 0; k < rules.size(); ++k) {
    auto got = removeNonRuleCompliantMatches(ms, rules[k]);
    std::vector<const M*> want;
    for (auto& m : ms) {
      if (compliant(int(m.lanelet.id() - 1000), m.lanelet.inverted(), int(k))) want.push_back(&m);
    }
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].lanelet == want[i]->lanelet && got[i].distance == want[i]->distance;
    MC_REQUIRE(ok, "filter", "for " << partNames[k] << ", " << got.size() << " of " << ms.size() << " matches remain instead of " << want.size());
  }
}
template <typename M>
void checkMatches(const std::vector<M>& ms, const std::map<Id, double>& d, double maxDist, const char* what) {
  std::map<Key, int> seen;
  for (auto& m : ms) {
    auto it = d.find(m.lanelet.id());
    MC_REQUIRE(it != d.end() && mayBeWithin(it->second, maxDist), "match-too-far", what << ": lanelet " << m.lanelet.id() << " does not match");
    MC_REQUIRE(std::fabs(m.distance - std::max(0., it->second)) < 1e-9, "match-distance", what << ": distance of lanelet " << m.lanelet.id() << " is " << m.distance << " instead of " << it->second);
    MC_REQUIRE(++seen[Key(m.lanelet.id(), m.lanelet.inverted())] == 1, "match-twice", what << ": lanelet " << m.lanelet.id() << " matches twice");
  }
  for (auto& x : d) {
    int n = seen[Key(x.first, false)] + seen[Key(x.first, true)];
    MC_REQUIRE(n == 2 || (n == 0 && !mustBeWithin(x.second, maxDist)), "match-missing", what << ": " << n << " matches with lanelet " << x.first);
  }
}
std::string nameOf(unsigned set, size_t hull, const Pose& p) {
  std::ostringstream o;
  o << "roads ";
  for (size_t i = 0; i < roads().size(); ++i) {
    if ((set >> i) & 1) o << i;
  }
  o << ", hull " << hull << " at (" << p.x << "," << p.y << ") turned by " << p.yaw * 180 / M_PI;
  return o.str();
}
std::vector<double> limits(const std::map<Id, double>& d) {
  std::set<double> l{0., 1e3};
  for (auto& x : d) {
    // a distance of exactly (or, rounded, almost) zero is touching: either answer is fine, see checkMatches
    if (x.second > 1e-5) l.insert({x.second - 1e-6, x.second + 1e-6});
  }
  return {l.begin(), l.end()};
}

void m01(mc::Ctx& c) {
  auto rules = allRules();
  for (unsigned set = 0; set < 64; ++set) {
    if (c.quick && __builtin_popcount(set) > 3) continue;
    Map m(set);
    const LaneletMap& constMap = *m.map;
    for (size_t hull = 0; hull < hulls().size(); ++hull) {
      forPoses(c.quick, [&](const Pose& p) {
        c.run([&] { return "matches: " + nameOf(set, hull, p); },
              [&] {
                Shape s;
                auto obj = object<Object2d>(p, hull, s);
                std::map<Id, double> d, lineD, pointD;
                for (int i : m.which) {
                  d[1000 + i] = dist(s, outline(roads()[size_t(i)]));
                  for (bool left : {true, false}) {
                    auto& src = left ? roads()[size_t(i)].left : roads()[size_t(i)].right;
                    auto b = left ? m.lls[size_t(i)].leftBound() : m.lls[size_t(i)].rightBound();
                    lineD[b.id()] = dist(s, Shape{src, false});
                    for (size_t k = 0; k < src.size(); ++k) pointD[b[k].id()] = dist(s, Shape{{src[k]}, false});
                  }
                }
                c.state(std::to_string(set) + "/" + std::to_string(hull));
                std::string sig;
                for (double lim : limits(d)) {
                  c.step();
                  auto ms = getDeterministicMatches(*m.map, obj, lim);
                  auto cs = getDeterministicMatches(constMap, obj, lim);
                  checkMatches(ms, d, lim, "getDeterministicMatches");
                  checkMatches(cs, d, lim, "getDeterministicMatches of a const map");
                  for (size_t i = 1; i < ms.size(); ++i) MC_REQUIRE(ms[i - 1].distance <= ms[i].distance && cs[i - 1].distance <= cs[i].distance, "match-order", "matches are not sorted by distance");
                  checkFilter(ms, rules);
                  checkFilter(cs, rules);
                  MC_REQUIRE(isCloseTo(m.map->laneletLayer, obj, lim) == !ms.empty(), "close", "isCloseTo within " << lim << " is " << ms.empty());
                  sig += std::to_string(ms.size());
                }
                for (double lim : limits(lineD)) {
                  c.step();
                  size_t n = 0, may = 0;
                  for (auto& x : lineD) {
                    n += mustBeWithin(x.second, lim);
                    may += mayBeWithin(x.second, lim);
                  }
                  auto got = matching::utils::findWithin(m.map->lineStringLayer, obj, lim);
                  MC_REQUIRE(got.size() >= n && got.size() <= may && isCloseTo(m.map->lineStringLayer, obj, lim) == !got.empty(), "close-lines", got.size() << " of " << n << " line strings are within " << lim);
                  for (auto& g : got) MC_REQUIRE(std::fabs(g.first - std::max(0., lineD[g.second.id()])) < 1e-9, "close-line", "distance of line string " << g.second.id() << " is " << g.first);
                }
                for (double lim : limits(pointD)) {
                  size_t n = 0, may = 0;
                  for (auto& x : pointD) {
                    n += mustBeWithin(x.second, lim);
                    may += mayBeWithin(x.second, lim);
                  }
                  auto got = matching::utils::findWithin(m.map->pointLayer, obj, lim);
                  MC_REQUIRE(got.size() >= n && got.size() <= may && isCloseTo(m.map->pointLayer, obj, lim) == !got.empty(), "close-points", got.size() << " of " << n << " points are within " << lim);
                }
                bool within = false, mayBe = false;
                for (auto& x : d) {
                  within |= mustBeWithin(x.second, 0);
                  mayBe |= mayBeWithin(x.second, 0);
                }
                bool got = isWithin(m.map->laneletLayer, obj);
                MC_REQUIRE(got ? mayBe : !within, "within", "isWithin is " << got);
                c.outcome(sig);
              });
      });
    }
  }
}
void m02(mc::Ctx& c) {
  auto rules = allRules();
  const double covs[][3] = {{2, 0, 2}, {0.25, 0, 4}, {1, 0.6, 0.5}, {3, -1, 1}};
  const double kappas[] = {0, 1, 1 / (10. / 180 * M_PI)};
  for (unsigned set = 0; set < 64; ++set) {
    if (c.quick && __builtin_popcount(set) > 2) continue;
    Map m(set);
    const LaneletMap& constMap = *m.map;
    for (size_t hull : {0, 1, 4}) {
      forPoses(c.quick, [&](const Pose& p) {
        for (int cv = 0; cv < 4; ++cv) {
          for (double kappa : kappas) {
            c.run([&] { std::ostringstream o; o << "probabilistic matches: " << nameOf(set, hull, p) << ", covariance " << cv << ", kappa " << kappa; return o.str(); },
                  [&] {
                    Shape s;
                    auto obj = object<ObjectWithCovariance2d>(p, hull, s);
                    const double a = covs[cv][0], b = covs[cv][1], e = covs[cv][2], det = a * e - b * b;
                    obj.positionCovariance << a, b, b, e;
                    obj.vonMisesKappa = kappa;
                    std::map<Id, double> d;
                    std::map<Key, double> maha;  // absent: not unique
                    for (int i : m.which) {
                      d[1000 + i] = dist(s, outline(roads()[size_t(i)]));
                      for (bool inv : {false, true}) {
                        ConstLanelet ll = inv ? ConstLanelet(m.lls[size_t(i)]).invert() : ConstLanelet(m.lls[size_t(i)]);
                        L center;
                        for (auto& q : ll.centerline()) center.push_back({q.x(), q.y(), 0});
                        double unused = 0;
                        auto ns = nearest(center, {p.x, p.y, 0}, unused);
                        bool unique = true;
                        for (auto& n : ns) {
                          unique &= norm(n.p - ns[0].p) < 1e-9;
                          double s0 = 0;
                          for (size_t k = 1; k + 1 < center.size(); ++k) {
                            s0 += norm(center[k] - center[k - 1]);
                            unique &= std::fabs(n.s - s0) > 0.5 + 1e-6;  // the direction is smoothed at bends
                          }
                        }
                        if (!unique) continue;
                        auto& n = ns[0];
                        V dir = center[n.seg + 1] - center[n.seg];
                        double yaw = std::acos(std::max(-1., std::min(1., (dir.x * std::cos(p.yaw) + dir.y * std::sin(p.yaw)) / norm(dir))));
                        double dx = p.x - n.p.x, dy = p.y - n.p.y;
                        maha[Key(1000 + i, inv)] = yaw * yaw * kappa * kappa + (e * dx * dx - 2 * b * dx * dy + a * dy * dy) / det;
                      }
                    }
                    auto check = [&](double got, Key k) {
                      auto it = maha.find(k);
                      if (it == maha.end()) return;
                      MC_REQUIRE(std::fabs(got - it->second) < 1e-5 * (1 + it->second), "maha", "squared Mahalanobis distance to lanelet " << k.first << (k.second ? " inverted" : "") << " is " << got << " instead of " << it->second);
                    };
                    c.state(std::to_string(set) + "/" + std::to_string(hull));
                    std::string sig;
                    for (double lim : limits(d)) {
                      c.step();
                      auto ms = getProbabilisticMatches(*m.map, obj, lim);
                      auto cs = getProbabilisticMatches(constMap, obj, lim);
                      checkMatches(ms, d, lim, "getProbabilisticMatches");
                      checkMatches(cs, d, lim, "getProbabilisticMatches of a const map");
                      for (auto& x : ms) check(x.mahalanobisDistSq, Key(x.lanelet.id(), x.lanelet.inverted()));
                      for (auto& x : cs) check(x.mahalanobisDistSq, Key(x.lanelet.id(), x.lanelet.inverted()));
                      for (size_t i = 1; i < ms.size(); ++i) {
                        MC_REQUIRE(ms[i - 1].mahalanobisDistSq <= ms[i].mahalanobisDistSq && cs[i - 1].mahalanobisDistSq <= cs[i].mahalanobisDistSq, "maha-order", "matches are not sorted by Mahalanobis distance");
                      }
                      checkFilter(ms, rules);
                      for (auto& x : ms) sig += std::to_string(x.lanelet.id()) + (x.lanelet.inverted() ? "' " : " ");
                    }
                    c.outcome(sig);
                    for (int i : m.which) {
                      for (int bad = 0; bad < 3; ++bad) {
                        auto o = obj;
                        if (bad == 0) o.positionCovariance.setZero();
                        if (bad == 1) o.positionCovariance << 1, 1, 1, 1;
                        if (bad == 2) o.positionCovariance << 2, 0, 0, 0;
                        bool threw = false;
                        try {
                          (void)matching::utils::getMahalanobisDistSq(m.lls[size_t(i)], o);
                        } catch (const MatchingError&) {
                          threw = true;
                        }
                        MC_REQUIRE(threw, "singular", "a singular covariance was accepted");
                      }
                    }
                  });
          }
        }
      });
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv, {
    {"M01", m01, "all sets of up to three (thorough: six) of six roads; objects at a grid of positions and angles with seven hulls; every limit at which the answer changes; three participants", {}},
    {"M02", m02, "all sets of up to two (thorough: six) of six roads; objects at a grid of positions and angles with three hulls, four covariances, three kappas", {}},
  });
}
