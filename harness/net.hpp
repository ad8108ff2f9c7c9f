// Small road networks: an abstract description, the lanelet2 primitives made from it, and the relations between its
// elements as documented, worked out from the description alone.
#pragma once
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_routing/RoutingCost.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_traffic_rules/TrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include <algorithm>
#include <cmath>

#include "mc.hpp"
using namespace lanelet;
using routing::RelationType;

namespace {
constexpr double Inf = std::numeric_limits<double>::infinity();
//! what a line between two cells permits, relative to the direction from its lower to its higher point
enum Mark : int { Solid, Dashed, ToLeft, ToRight, Virtual };
enum Use : int { Absent, Forward, Both, Walkway };  // Walkway: not for vehicles

struct Net {
  struct Pt {
    double x, y, z;
  };
  struct Cell {
    int l0, l1, r0, r1;  // points: begin and end of the left and right bound
    Use use{Forward};
    int speed{0};  // km/h; 0: not given
  };
  struct Node {
    bool area;
    int idx;
    bool inv;
    bool operator==(const Node& o) const { return area == o.area && idx == o.idx && inv == o.inv; }
  };
  using Key = std::pair<int, int>;
  std::vector<Pt> pts;
  std::vector<Cell> cells;
  std::vector<std::vector<int>> areas;  // rings of points, clockwise
  std::vector<Use> areaUse;
  std::map<Key, Mark> marks;
  bool mids{false};   // lines have a point in between
  unsigned flips{0};  // bit k: the k-th line is stored from its higher to its lower point

  // ---- primitives
  std::vector<Point3d> points;
  std::map<Key, LineString3d> lines;
  std::map<Key, bool> flipped;
  std::vector<Lanelet> lanelets;
  std::vector<Area> areaObjs;
  LaneletMapPtr map;

  static Key key(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
  Mark mark(int a, int b) const {
    auto it = marks.find(key(a, b));
    return it == marks.end() ? Solid : it->second;
  }
  //! may the line be crossed from right to left, seen in direction a to b?
  bool crossLeft(int a, int b, bool forArea = false) const {
    switch (mark(a, b)) {
      case Solid:
        return false;
      case Dashed:
        return true;
      case Virtual:
        return forArea;
      case ToLeft:
        return a < b;
      case ToRight:
        return a > b;
    }
    return false;
  }
  bool crossRight(int a, int b, bool forArea = false) const { return crossLeft(b, a, forArea); }

  LineString3d line(int a, int b) {
    auto k = key(a, b);
    auto it = lines.find(k);
    if (it == lines.end()) {
      const bool f = (flips >> (lines.size() % 32)) & 1U;
      LineString3d ls(1000 + Id(lines.size()), {});
      ls.push_back(points[size_t(f ? k.second : k.first)]);
      if (mids) {
        auto &p = pts[size_t(k.first)], &q = pts[size_t(k.second)];
        ls.push_back(Point3d(500 + Id(lines.size()), p.x + (q.x - p.x) / 4, p.y + (q.y - p.y) / 4, p.z + (q.z - p.z) / 4));
      }
      ls.push_back(points[size_t(f ? k.first : k.second)]);
      auto m = mark(a, b);
      ls.attributes()["type"] = m == Virtual ? "virtual" : "line_thin";
      if (m != Virtual) {
        ls.attributes()["subtype"] = m == Solid ? "solid" : m == Dashed ? "dashed" : (m == ToLeft) != f ? "solid_dashed" : "dashed_solid";
      }
      it = lines.emplace(k, ls).first;
      flipped[k] = f;
    }
    return (it->second.front() == points[size_t(a)]) ? it->second : it->second.invert();
  }
  void build() {
    points.clear();
    lines.clear();
    lanelets.clear();
    areaObjs.clear();
    for (size_t i = 0; i < pts.size(); ++i) {
      points.emplace_back(1 + Id(i), pts[i].x, pts[i].y, pts[i].z);
    }
    map = std::make_shared<LaneletMap>();
    for (size_t i = 0; i < cells.size(); ++i) {
      auto& c = cells[i];
      Lanelet ll(100 + Id(i), line(c.l0, c.l1), line(c.r0, c.r1));
      ll.attributes()["type"] = "lanelet";
      ll.attributes()["subtype"] = c.use == Walkway ? "walkway" : "road";
      ll.attributes()["location"] = "urban";
      if (c.use == Both) {
        ll.attributes()["one_way"] = "no";
      }
      if (c.speed) {
        ll.attributes()["speed_limit"] = std::to_string(c.speed) + " km/h";
      }
      lanelets.push_back(ll);
      if (c.use != Absent) {
        map->add(ll);
      }
    }
    for (size_t i = 0; i < areas.size(); ++i) {
      LineStrings3d outer;
      for (size_t k = 0; k < areas[i].size(); ++k) {
        outer.push_back(line(areas[i][k], areas[i][(k + 1) % areas[i].size()]));
      }
      Area a(200 + Id(i), outer);
      a.attributes()["subtype"] = "parking";
      a.attributes()[areaUse[i] == Walkway ? "participant:pedestrian" : "participant:bicycle"] = "yes";
      a.attributes()["location"] = "urban";
      areaObjs.push_back(a);
      if (areaUse[i] != Absent) {
        map->add(a);
      }
    }
  }

  // ---- the documented relations
  std::vector<Node> nodes;  //!< everything a vehicle may pass
  struct Edge {
    int u, v;
    RelationType rel;  //!< Left and Right mean: crossing the line is permitted
  };
  std::vector<Edge> edges;
  int left(const Node& n, bool end) const {
    auto& c = cells[size_t(n.idx)];
    return n.inv ? (end ? c.r0 : c.r1) : (end ? c.l1 : c.l0);
  }
  int right(const Node& n, bool end) const {
    auto& c = cells[size_t(n.idx)];
    return n.inv ? (end ? c.l0 : c.l1) : (end ? c.r1 : c.r0);
  }
  bool ringHas(int area, int a, int b) const {
    auto& r = areas[size_t(area)];
    for (size_t k = 0; k < r.size(); ++k) {
      if (r[k] == a && r[(k + 1) % r.size()] == b) {
        return true;
      }
    }
    return false;
  }
  bool canPass(const Node& u, const Node& v) const {  // at least one of them is an area
    if (u.area && v.area) {
      auto& r = areas[size_t(u.idx)];
      for (size_t k = 0; k < r.size(); ++k) {
        int a = r[k], b = r[(k + 1) % r.size()];
        if (ringHas(v.idx, b, a) && crossLeft(a, b, true)) {
          return true;
        }
      }
      return false;
    }
    if (v.area) {
      int l0 = left(u, false), l1 = left(u, true), r0 = right(u, false), r1 = right(u, true);
      return (ringHas(v.idx, l1, l0) && crossLeft(l0, l1, true)) || (ringHas(v.idx, r0, r1) && crossRight(r0, r1, true)) ||
             (ringHas(v.idx, r1, l1) && crossRight(r1, l1, true));
    }
    int l0 = left(v, false), l1 = left(v, true), r0 = right(v, false), r1 = right(v, true);
    return (ringHas(u.idx, l1, l0) && crossRight(l0, l1, true)) || (ringHas(u.idx, r0, r1) && crossLeft(r0, r1, true)) ||
           (ringHas(u.idx, l0, r0) && crossLeft(l0, r0, true));
  }
  std::vector<Pt> polygon(const Node& n) const {
    std::vector<Pt> p;
    if (n.area) {
      for (int i : areas[size_t(n.idx)]) {
        p.push_back(pts[size_t(i)]);
      }
    } else {
      auto& c = cells[size_t(n.idx)];
      for (int i : {c.l0, c.l1, c.r1, c.r0}) {
        p.push_back(pts[size_t(i)]);
      }
    }
    return p;
  }
  //! do the interiors of two convex polygons meet? (separating axes)
  static bool overlap(const std::vector<Pt>& a, const std::vector<Pt>& b) {
    for (auto* poly : {&a, &b}) {
      for (size_t i = 0; i < poly->size(); ++i) {
        auto& p = (*poly)[i];
        auto& q = (*poly)[(i + 1) % poly->size()];
        double nx = q.y - p.y, ny = p.x - q.x;
        if (nx == 0 && ny == 0) {
          continue;
        }
        double amin = 1e300, amax = -1e300, bmin = 1e300, bmax = -1e300;
        for (auto& x : a) {
          double d = nx * x.x + ny * x.y;
          amin = std::min(amin, d);
          amax = std::max(amax, d);
        }
        for (auto& x : b) {
          double d = nx * x.x + ny * x.y;
          bmin = std::min(bmin, d);
          bmax = std::max(bmax, d);
        }
        if (amax <= bmin + 1e-9 || bmax <= amin + 1e-9) {
          return false;
        }
      }
    }
    return true;
  }
  double height{0};  //!< of the participant; 0: not configured, levels do not matter
  bool conflict(const Node& u, const Node& v) const {
    if (!u.area && !v.area && u.idx == v.idx) {
      return true;  // the two directions of one lanelet
    }
    auto a = polygon(u), b = polygon(v);
    if (height > 0 && std::fabs(a[0].z - b[0].z) >= height) {
      return false;
    }
    return overlap(a, b);
  }
  void relate() {
    nodes.clear();
    edges.clear();
    for (size_t i = 0; i < cells.size(); ++i) {
      if (cells[i].use == Forward || cells[i].use == Both) {
        nodes.push_back({false, int(i), false});
      }
      if (cells[i].use == Both) {
        nodes.push_back({false, int(i), true});
      }
    }
    for (size_t i = 0; i < areas.size(); ++i) {
      if (areaUse[i] == Forward) {
        nodes.push_back({true, int(i), false});
      }
    }
    const int n = int(nodes.size());
    for (int u = 0; u < n; ++u) {
      for (int v = 0; v < n; ++v) {
        if (u == v) {
          continue;
        }
        auto r = relation(nodes[size_t(u)], nodes[size_t(v)]);
        if (r != RelationType::None) {
          edges.push_back({u, v, r});
        }
      }
    }
    // Conflicting: overlap without any other relation in either direction
    for (int u = 0; u < n; ++u) {
      for (int v = u + 1; v < n; ++v) {
        bool related = false;
        for (auto& e : edges) {
          related |= (e.u == u && e.v == v) || (e.u == v && e.v == u);
        }
        // a lanelet usable in both directions is related to an area if one of its directions is
        for (int x = 0; x < n && !related; ++x) {
          auto same = [&](int a, int b) { return nodes[size_t(a)].area == nodes[size_t(b)].area && nodes[size_t(a)].idx == nodes[size_t(b)].idx; };
          if (!nodes[size_t(u)].area && !nodes[size_t(v)].area) {
            break;
          }
          for (auto& e : edges) {
            related |= e.rel == RelationType::Area && ((same(e.u, u) && same(e.v, v)) || (same(e.u, v) && same(e.v, u)));
          }
        }
        if (!related && conflict(nodes[size_t(u)], nodes[size_t(v)])) {
          edges.push_back({u, v, RelationType::Conflicting});
          edges.push_back({v, u, RelationType::Conflicting});
        }
      }
    }
  }
  RelationType relation(const Node& u, const Node& v) const {
    if (u.area || v.area) {
      return canPass(u, v) ? RelationType::Area : RelationType::None;
    }
    if (left(u, true) == left(v, false) && right(u, true) == right(v, false)) {
      return RelationType::Successor;
    }
    if (left(u, false) == right(v, false) && left(u, true) == right(v, true)) {
      return crossLeft(left(u, false), left(u, true)) ? RelationType::Left : RelationType::AdjacentLeft;
    }
    if (right(u, false) == left(v, false) && right(u, true) == left(v, true)) {
      return crossRight(right(u, false), right(u, true)) ? RelationType::Right : RelationType::AdjacentRight;
    }
    return RelationType::None;
  }
  // ---- access
  ConstLanelet ll(const Node& n) const {
    ConstLanelet l = lanelets[size_t(n.idx)];
    return n.inv ? l.invert() : l;
  }
  ConstLaneletOrArea obj(const Node& n) const {
    if (n.area) {
      return ConstLaneletOrArea(ConstArea(areaObjs[size_t(n.idx)]));
    }
    return ConstLaneletOrArea(ll(n));
  }
  int find(const ConstLanelet& l) const {
    for (size_t i = 0; i < nodes.size(); ++i) {
      if (!nodes[i].area && l.id() == 100 + nodes[i].idx && l.inverted() == nodes[i].inv) {
        return int(i);
      }
    }
    return -1;
  }
  int find(const ConstLaneletOrArea& o) const {
    if (o.isLanelet()) {
      return find(*o.lanelet());
    }
    for (size_t i = 0; i < nodes.size(); ++i) {
      if (nodes[i].area && o.id() == 200 + nodes[i].idx) {
        return int(i);
      }
    }
    return -1;
  }
  std::string name(int n) const {
    if (n < 0) {
      return "?";
    }
    auto& d = nodes[size_t(n)];
    return (d.area ? "a" : "c") + std::to_string(d.idx) + (d.inv ? "'" : "");
  }
  std::string show() const {
    std::ostringstream o;
    auto use = [](Use u) { return std::string(u == Absent ? "-" : u == Forward ? "" : u == Both ? "<>" : "walk"); };
    for (size_t i = 0; i < cells.size(); ++i) {
      auto& c = cells[i];
      if (c.speed) {
        o << c.speed;
      }
      o << "c" << i << use(c.use) << "[" << c.l0 << ">" << c.l1 << "," << c.r0 << ">" << c.r1 << "] ";
    }
    for (size_t i = 0; i < areas.size(); ++i) {
      o << "a" << i << use(areaUse[i]) << "[";
      for (int p : areas[i]) {
        o << p << " ";
      }
      o << "] ";
    }
    const char* mn[] = {"solid", "dashed", "tohigh-left", "tohigh-right", "virtual"};
    for (auto& m : marks) {
      if (m.second != Solid) {
        o << m.first.first << "-" << m.first.second << "=" << mn[m.second] << " ";
      }
    }
    if (flips) {
      o << "flips=" << flips << " ";
    }
    if (height > 0) {
      o << "height=" << height;
    }
    return o.str();
  }
};

// ---- the families
//! lanes side by side; cell (lane i, column j) drives to the right; point (j, i): column border j, lane border i
struct Grid {
  int lanes, cols;
  int pt(int j, int i) const { return j * (lanes + 1) + i; }
  Net net(bool ring = false) const {
    Net n;
    for (int j = 0; j <= cols - (ring ? 1 : 0); ++j) {
      for (int i = 0; i <= lanes; ++i) {
        if (ring) {  // left (i high) is inside
          double r = 10 + 4 * (lanes - i);
          const double dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
          n.pts.push_back({dx[j % 4] * r, dy[j % 4] * r, 0});
        } else {
          const double xs[] = {0, 10, 16, 29, 40, 48, 61};
          n.pts.push_back({xs[j], 4. * i, 0});
        }
      }
    }
    for (int j = 0; j < cols; ++j) {
      for (int i = 0; i < lanes; ++i) {
        n.cells.push_back(cell(j, i, i, ring));
      }
    }
    return n;
  }
  Net::Cell cell(int j, int from, int to, bool ring = false) const {
    int k = ring ? (j + 1) % cols : j + 1;
    return {pt(j, from + 1), pt(k, to + 1), pt(j, from), pt(k, to), Forward};
  }
  //! the line between lane i and lane i+1 in column j
  Net::Key border(int j, int i, bool ring = false) const { return Net::key(pt(j, i + 1), pt(ring ? (j + 1) % cols : j + 1, i + 1)); }
};

// ---- costs
inline double noise(mc::U64 a, mc::U64 b) {
  mc::U64 v[2] = {a, b};
  return double(mc::fnv(v, sizeof v) % 1000003) / 1000003.;
}
mc::U64 code(const ConstLaneletOrArea& o) { return mc::U64(o.id()) * 2 + (o.isLanelet() && o.lanelet()->inverted() ? 1 : 0); }
//! user-defined costs that are different for every transition and every sequence of lane changes
class GenericCost : public routing::RoutingCost {
 public:
  //! kind 0: generic; 1: some transitions are impossible; 2: generic, lane changes need two lanelets
  explicit GenericCost(int kind) : kind_{kind} {}
  static double succeeding(int kind, mc::U64 from, mc::U64 to) {
    double f = noise(from * 7 + 1, to * 13 + 5);
    if (kind == 1 && f < 0.3) {
      return Inf;
    }
    return 5 + 4 * f;
  }
  static double change(int kind, const std::vector<mc::U64>& from, const std::vector<mc::U64>& to) {
    if (kind == 2 && from.size() < 2) {
      return Inf;
    }
    double s = 2.5;
    for (size_t i = 0; i < from.size(); ++i) {
      s += noise(from[i] * 3 + i, to[i] * 5 + 2 * i) / double(i + 1);
    }
    return s;
  }
  double getCostSucceeding(const traffic_rules::TrafficRules&, const ConstLaneletOrArea& from, const ConstLaneletOrArea& to) const override {
    return succeeding(kind_, code(from), code(to));
  }
  double getCostLaneChange(const traffic_rules::TrafficRules&, const ConstLanelets& from, const ConstLanelets& to) const override {
    std::vector<mc::U64> f, t;
    for (auto& l : from) f.push_back(code(l));
    for (auto& l : to) t.push_back(code(l));
    return change(kind_, f, t);
  }

 private:
  int kind_;
};

//! the cost modules: those above and the ones that come with the library, with their parameters
struct Module {
  bool time;
  double change, least;
};
const std::map<int, Module> BuiltIn{{10, {false, 2., 0.}}, {11, {false, 3., 16.}}, {12, {true, 1.5, 0.}}, {13, {true, 0.7, 1.7}}};
double cost1(const Net& n, int kind, int u) {
  auto& c = n.cells[size_t(n.nodes[size_t(u)].idx)];
  auto &p = n.pts[size_t(c.l0)], &q = n.pts[size_t(c.l1)];
  double len = std::hypot(p.x - q.x, p.y - q.y);
  return BuiltIn.at(kind).time ? len / ((c.speed ? c.speed : 50) / 3.6) : len;
}
double succCost(const Net& n, int kind, int u, int v) {
  if (kind >= 10) {
    return (cost1(n, kind, u) + cost1(n, kind, v)) / 2;
  }
  return GenericCost::succeeding(kind, code(n.obj(n.nodes[size_t(u)])), code(n.obj(n.nodes[size_t(v)])));
}
double changeCost(const Net& n, int kind, const std::vector<int>& us, const std::vector<int>& vs) {
  if (kind >= 10) {
    double sum = 0;
    for (int u : us) sum += cost1(n, kind, u);
    return sum >= BuiltIn.at(kind).least ? BuiltIn.at(kind).change : Inf;
  }
  std::vector<mc::U64> f, t;
  for (int u : us) f.push_back(code(n.obj(n.nodes[size_t(u)])));
  for (int v : vs) t.push_back(code(n.obj(n.nodes[size_t(v)])));
  return GenericCost::change(kind, f, t);
}

//! the routing graph as documented: relations and costs, per cost module
struct Ref {
  const Net* net;
  int n;
  std::vector<int> kinds;  // of the cost modules
  struct E {
    int u, v;
    RelationType rel;
    double cost;
  };
  std::vector<std::vector<E>> e;  // per module

  Ref(const Net& nt, std::vector<int> k) : net{&nt}, n{int(nt.nodes.size())}, kinds{std::move(k)} {
    e.resize(kinds.size());
    for (size_t m = 0; m < kinds.size(); ++m) {
      for (auto& d : nt.edges) {
        switch (d.rel) {
          case RelationType::Successor:
          case RelationType::Area: {
            double c = succCost(nt, kinds[m], d.u, d.v);
            if (std::isfinite(c)) {
              e[m].push_back({d.u, d.v, d.rel, c});
            }
            break;
          }
          case RelationType::Left:
          case RelationType::Right: {
            std::vector<int> f, t;
            int u = d.u, v = d.v;
            // all lanelets from here on between which the lane can be changed without leaving the pair of lanes
            std::set<int> seen;
            while (true) {
              f.push_back(u);
              t.push_back(v);
              seen.insert(u);
              auto su = succ(u), sv = succ(v);
              if (su.size() != 1 || sv.size() != 1 || seen.count(su[0]) || !changeable(su[0], sv[0], d.rel)) {
                break;
              }
              u = su[0];
              v = sv[0];
            }
            double c = changeCost(nt, kinds[m], f, t);
            if (std::isfinite(c)) {
              e[m].push_back({d.u, d.v, d.rel, c});
            } else {
              e[m].push_back({d.u, d.v, d.rel == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight, 1});
            }
            break;
          }
          default:
            e[m].push_back({d.u, d.v, d.rel, 1});
        }
      }
    }
  }
  std::vector<int> succ(int u) const {  // followers that the first cost module permits
    std::vector<int> r;
    for (auto& d : net->edges) {
      if (d.u == u && d.rel == RelationType::Successor &&
          std::isfinite(succCost(*net, kinds[0], d.u, d.v))) {
        r.push_back(d.v);
      }
    }
    return r;
  }
  bool changeable(int u, int v, RelationType r) const {
    for (auto& d : net->edges) {
      if (d.u == u && d.v == v && d.rel == r) {
        return true;
      }
    }
    return false;
  }
  std::vector<int> out(size_t m, int u, RelationType mask) const {
    std::vector<int> r;
    for (auto& x : e[m]) {
      if (x.u == u && (x.rel & mask) != RelationType::None) {
        r.push_back(x.v);
      }
    }
    std::sort(r.begin(), r.end());
    return r;
  }
  std::vector<int> in(size_t m, int v, RelationType mask) const {
    std::vector<int> r;
    for (auto& x : e[m]) {
      if (x.v == v && (x.rel & mask) != RelationType::None) {
        r.push_back(x.u);
      }
    }
    std::sort(r.begin(), r.end());
    return r;
  }
  const E* edge(size_t m, int u, int v, RelationType mask) const {
    for (auto& x : e[m]) {
      if (x.u == u && x.v == v && (x.rel & mask) != RelationType::None) {
        return &x;
      }
    }
    return nullptr;
  }
  //! costs of the cheapest paths from s; closed[u]: u is reached but not left
  std::vector<double> dist(size_t m, int s, RelationType mask, bool back, const std::vector<char>* closed = nullptr, const std::vector<char>* within = nullptr) const {
    std::vector<double> d(size_t(n), Inf);
    d[size_t(s)] = 0;
    for (bool ch = true; ch;) {
      ch = false;
      for (auto& x : e[m]) {
        if ((x.rel & mask) == RelationType::None) continue;
        int a = back ? x.v : x.u, b = back ? x.u : x.v;
        if (closed && (*closed)[size_t(a)]) continue;
        if (within && (!(*within)[size_t(a)] || !(*within)[size_t(b)])) continue;
        if (d[size_t(a)] + x.cost < d[size_t(b)]) {
          d[size_t(b)] = d[size_t(a)] + x.cost;
          ch = true;
        }
      }
    }
    return d;
  }
};
constexpr RelationType Lanes = RelationType::Successor | RelationType::Left | RelationType::Right;
constexpr RelationType NoLanes = RelationType::Successor;

//! cars never pass areas
traffic_rules::TrafficRulesPtr rules(bool areas) {
  static traffic_rules::TrafficRulesPtr car = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::VehicleCar);
  static traffic_rules::TrafficRulesPtr bicycle = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::Bicycle);
  return areas ? bicycle : car;
}
struct World {
  Net net;
  routing::RoutingGraphUPtr graph;
  std::unique_ptr<Ref> ref;
  World(Net nt, std::vector<int> kinds) : net(std::move(nt)) {
    net.build();
    net.relate();
    routing::RoutingCostPtrs costs;
    for (int k : kinds) {
      if (k >= 10) {
        auto& b = BuiltIn.at(k);
        if (b.time) {
          costs.push_back(std::make_shared<routing::RoutingCostTravelTime>(b.change, b.least));
        } else {
          costs.push_back(std::make_shared<routing::RoutingCostDistance>(b.change, b.least));
        }
        continue;
      }
      costs.push_back(std::make_shared<GenericCost>(k));
    }
    routing::RoutingGraph::Configuration conf;
    if (net.height > 0) {
      conf[routing::RoutingGraph::ParticipantHeight] = std::to_string(net.height);
    }
    graph = routing::RoutingGraph::build(*net.map, *rules(!net.areas.empty()), costs, conf);
    ref = std::make_unique<Ref>(net, std::move(kinds));
  }
  int n() const { return ref->n; }
  ConstLanelet ll(int i) const { return net.ll(net.nodes[size_t(i)]); }
  ConstLaneletOrArea obj(int i) const { return net.obj(net.nodes[size_t(i)]); }
  bool area(int i) const { return net.nodes[size_t(i)].area; }
  template <typename C>
  std::vector<int> ids(const C& c) const {  // sorted
    auto r = seq(c);
    std::sort(r.begin(), r.end());
    return r;
  }
  template <typename C>
  std::vector<int> seq(const C& c) const {
    std::vector<int> r;
    for (auto& x : c) {
      r.push_back(net.find(x));
    }
    return r;
  }
  std::string names(const std::vector<int>& v) const {
    std::string s = "{";
    for (int i : v) {
      s += net.name(i) + " ";
    }
    return s + "}";
  }
};
}  // namespace
