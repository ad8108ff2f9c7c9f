// R01-R10: the routing graph against relations, costs and paths worked out from the description of a network.
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingGraphContainer.h>

#include <boost/filesystem.hpp>
#include <fstream>

#include "net.hpp"
using namespace lanelet::routing;

namespace {
#define SAME(got, want, sig, what)                                                                            \
  do {                                                                                                        \
    auto got_ = (got);                                                                                        \
    auto want_ = (want);                                                                                      \
    MC_REQUIRE(got_ == want_, sig, what << " is " << w.names(got_) << " instead of " << w.names(want_));      \
  } while (false)

std::string relName(RelationType r) { return relationToString(r); }

// ---- R01: relations
void checkRelations(mc::Ctx& c, World& w) {
  auto& g = *w.graph;
  auto& r = *w.ref;
  auto& net = w.net;
  using RT = RelationType;
  // what is in the graph
  std::vector<Id> wantLl, wantAr;
  for (auto& d : net.nodes) {
    if (d.area) {
      wantAr.push_back(200 + d.idx);
    } else if (!d.inv) {
      wantLl.push_back(100 + d.idx);
    }
  }
  auto sub = g.passableSubmap();
  std::vector<Id> gotLl, gotAr;
  for (auto& l : sub->laneletLayer) gotLl.push_back(l.id());
  for (auto& a : sub->areaLayer) gotAr.push_back(a.id());
  std::sort(gotLl.begin(), gotLl.end());
  std::sort(gotAr.begin(), gotAr.end());
  MC_REQUIRE(gotLl == wantLl && gotAr == wantAr, "passable", "passableSubmap has " << gotLl.size() << " lanelets and " << gotAr.size() << " areas");
  // nothing is known about what cannot be passed
  for (auto& l : net.lanelets) {
    for (bool inv : {false, true}) {
      ConstLanelet ll = inv ? ConstLanelet(l).invert() : ConstLanelet(l);
      if (net.find(ll) >= 0) continue;
      c.step();
      MC_REQUIRE(g.following(ll).empty() && g.previous(ll).empty() && !g.left(ll) && !g.right(ll) && !g.adjacentLeft(ll) && !g.adjacentRight(ll) &&
                     g.conflicting(ll).empty() && g.leftRelations(ll).empty() && g.rightRelations(ll).empty() && g.reachableSet(ll, 100).empty() && g.possiblePaths(ll, 1.).empty(),
                 "impassable", "lanelet " << ll.id() << (inv ? " inverted" : "") << " cannot be passed but has relations");
    }
  }
  std::ostringstream sig;
  for (int u = 0; u < w.n(); ++u) {
    c.step();
    for (auto& e : r.e[0]) {
      if (e.u == u) sig << int(e.rel) << ">" << e.v << ",";
    }
    sig << ";";
    SAME(w.ids(g.conflicting(w.obj(u))), r.out(0, u, RT::Conflicting), "conflicting", "conflicting(" << net.name(u) << ")");
    if (w.area(u)) continue;
    auto ll = w.ll(u);
    for (bool lc : {false, true}) {
      auto mask = lc ? Lanes : NoLanes;
      SAME(w.ids(g.following(ll, lc)), r.out(0, u, mask), "following", "following(" << net.name(u) << "," << lc << ")");
      SAME(w.ids(g.previous(ll, lc)), r.in(0, u, mask), "previous", "previous(" << net.name(u) << "," << lc << ")");
      auto check = [&](const LaneletRelations& rels, bool fwd) {
        std::vector<int> got;
        for (auto& x : rels) {
          int v = net.find(x.lanelet);
          got.push_back(v);
          auto* e = fwd ? r.edge(0, u, v, mask) : r.edge(0, v, u, mask);
          MC_REQUIRE(e && e->rel == x.relationType, "relation-type", "relation of " << net.name(u) << " and " << net.name(v) << " is " << relName(x.relationType));
        }
        std::sort(got.begin(), got.end());
        SAME(got, fwd ? r.out(0, u, mask) : r.in(0, u, mask), "relations", (fwd ? "followingRelations(" : "previousRelations(") << net.name(u) << ")");
      };
      check(g.followingRelations(ll, lc), true);
      check(g.previousRelations(ll, lc), false);
    }
    for (int v = 0; v < w.n(); ++v) {
      if (w.area(v)) continue;
      for (bool conf : {false, true}) {
        auto got = g.routingRelation(ll, w.ll(v), conf);
        auto* e = r.edge(0, u, v, conf ? allRelations() : allRelations() & ~RT::Conflicting);
        if (conf && r.kinds.size() > 1 && !e) continue;  // another cost module may know a relation
        MC_REQUIRE(bool(got) == bool(e) && (!e || e->rel == *got), "routing-relation",
                   "routingRelation(" << net.name(u) << "," << net.name(v) << "," << conf << ") is " << (got ? relName(*got) : "nothing") << " instead of " << (e ? relName(e->rel) : "nothing"));
      }
    }
    for (size_t m = 0; m < r.kinds.size(); ++m) {
      auto id = RoutingCostId(m);
      auto chain = [&](RT a, RT b) {  // repeatedly the next lanelet on this side
        std::vector<std::pair<int, RT>> res;
        int x = u;
        while (true) {
          auto o = r.out(m, x, a | b);
          if (o.empty() || res.size() > 20) break;
          res.push_back({o[0], r.edge(m, x, o[0], a | b)->rel});
          x = o[0];
        }
        return res;
      };
      auto prefix = [&](RT a) {
        std::vector<int> res;
        for (auto& x : chain(a, a)) res.push_back(x.first);
        return res;
      };
      auto one = [&](const Optional<ConstLanelet>& got, RT a, const char* what) {
        auto want = r.out(m, u, a);
        MC_REQUIRE(want.size() <= 1, "harness", "two neighbours");
        std::vector<int> gv;
        if (got) gv.push_back(net.find(*got));
        SAME(gv, want, what, what << "(" << net.name(u) << ", module " << m << ")");
      };
      one(g.left(ll, id), RT::Left, "left");
      one(g.right(ll, id), RT::Right, "right");
      one(g.adjacentLeft(ll, id), RT::AdjacentLeft, "adjacentLeft");
      one(g.adjacentRight(ll, id), RT::AdjacentRight, "adjacentRight");
      SAME(w.seq(g.lefts(ll, id)), prefix(RT::Left), "lefts", "lefts(" << net.name(u) << ")");
      SAME(w.seq(g.rights(ll, id)), prefix(RT::Right), "rights", "rights(" << net.name(u) << ")");
      SAME(w.seq(g.adjacentLefts(ll, id)), prefix(RT::AdjacentLeft), "adjacentLefts", "adjacentLefts(" << net.name(u) << ")");
      SAME(w.seq(g.adjacentRights(ll, id)), prefix(RT::AdjacentRight), "adjacentRights", "adjacentRights(" << net.name(u) << ")");
      auto bes = prefix(RT::Left);
      std::reverse(bes.begin(), bes.end());
      bes.push_back(u);
      for (int x : prefix(RT::Right)) bes.push_back(x);
      SAME(w.seq(g.besides(ll, id)), bes, "besides", "besides(" << net.name(u) << ")");
      for (bool isLeft : {true, false}) {
        auto got = isLeft ? g.leftRelations(ll, id) : g.rightRelations(ll, id);
        auto want = isLeft ? chain(RT::Left, RT::AdjacentLeft) : chain(RT::Right, RT::AdjacentRight);
        bool ok = got.size() == want.size();
        for (size_t i = 0; ok && i < got.size(); ++i) {
          ok = net.find(got[i].lanelet) == want[i].first && got[i].relationType == want[i].second;
        }
        MC_REQUIRE(ok, "side-relations", (isLeft ? "leftRelations(" : "rightRelations(") << net.name(u) << ", module " << m << ") has " << got.size() << " entries, expected " << want.size());
      }
    }
    for (auto f : {0, 1}) {
      bool threw = false;
      try {
        f ? (void)g.left(ll, RoutingCostId(r.kinds.size())) : (void)g.shortestPath(ll, ll, RoutingCostId(r.kinds.size()));
      } catch (const InvalidInputError&) {
        threw = true;
      }
      MC_REQUIRE(threw, "cost-id", "a routing cost module that does not exist was accepted");
    }
  }
  c.outcome(sig.str());
  // neighbours are always neighbours of each other here
  auto errs = g.checkValidity(false);
  MC_REQUIRE(errs.empty(), "validity", errs.front());
}

// ---- R02-R04: searching
template <typename PathT>
std::string pathNames(const World& w, const PathT& p) {
  return w.names(w.seq(p));
}
//! cost of a path; Inf if two neighbours are not connected
double pathCost(const World& w, size_t m, const std::vector<int>& p, RelationType mask) {
  double s = 0;
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    auto* e = p[i] < 0 || p[i + 1] < 0 ? nullptr : w.ref->edge(m, p[i], p[i + 1], mask);
    if (!e) return Inf;
    s += e->cost;
  }
  return s;
}
bool near(double a, double b) { return a == b || std::fabs(a - b) < 1e-9; }

struct Visit {
  int v, pred;
  double cost;
  size_t len, changes;
};
void checkVisits(mc::Ctx& c, World& w, size_t m, int s, RelationType mask, bool back, const std::vector<char>& closed, const std::vector<Visit>& vs, const std::vector<double>& want, const std::string& what) {
  std::map<int, Visit> at;
  double last = 0;
  for (size_t i = 0; i < vs.size(); ++i) {
    auto& v = vs[i];
    c.step();
    MC_REQUIRE(v.v >= 0 && !at.count(v.v), "visit-twice", what << " visits " << w.net.name(v.v) << " twice");
    MC_REQUIRE(v.cost >= last - 1e-12, "visit-order", what << " visits " << w.net.name(v.v) << " too late");
    last = v.cost;
    MC_REQUIRE(near(v.cost, want[size_t(v.v)]), "visit-cost", what << " reaches " << w.net.name(v.v) << " at " << v.cost << " instead of " << want[size_t(v.v)]);
    if (i == 0) {
      MC_REQUIRE(v.v == s && v.len == 1 && v.changes == 0 && v.pred == s, "visit-start", what << " starts with " << w.net.name(v.v));
    } else {
      MC_REQUIRE(at.count(v.pred) && !closed[size_t(v.pred)], "visit-pred", what << ": predecessor of " << w.net.name(v.v) << " is " << w.net.name(v.pred));
      auto& p = at[v.pred];
      auto* e = back ? w.ref->edge(m, v.v, v.pred, mask) : w.ref->edge(m, v.pred, v.v, mask);
      MC_REQUIRE(e && near(p.cost + e->cost, v.cost), "visit-pred-cost", what << ": " << w.net.name(v.v) << " is not reached through " << w.net.name(v.pred));
      MC_REQUIRE(v.len == p.len + 1, "visit-length", what << ": length of " << w.net.name(v.v) << " is " << v.len);
      bool change = (e->rel & (RelationType::Left | RelationType::Right)) != RelationType::None;
      MC_REQUIRE(v.changes == p.changes + (change ? 1 : 0), "visit-changes", what << ": " << v.changes << " lane changes to " << w.net.name(v.v));
    }
    at[v.v] = v;
  }
  size_t reach = 0;
  for (double d : want) reach += std::isfinite(d);
  MC_REQUIRE(vs.size() == reach, "visit-count", what << " visits " << vs.size() << " of " << reach);
}

void checkSearch(mc::Ctx& c, World& w, bool withAreas) {
  auto& g = *w.graph;
  auto& r = *w.ref;
  for (size_t m = 0; m < r.kinds.size(); ++m) {
    auto id = RoutingCostId(m);
    for (int s = 0; s < w.n(); ++s) {
      for (bool lc : {true, false}) {
        for (bool ar : {false, true}) {
          if ((w.area(s) || withAreas) && !ar && w.area(s)) continue;
          if (ar && !withAreas) continue;
          auto mask = (lc ? Lanes : NoLanes) | (ar ? RelationType::Area : RelationType::None);
          for (bool back : {false, true}) {
            // the predicate says no on one element, or on none
            for (int stop = -1; stop < w.n(); ++stop) {
              std::vector<char> closed(size_t(w.n()), 0);
              if (stop >= 0) closed[size_t(stop)] = 1;
              auto want = r.dist(m, s, mask, back, &closed);
              if (stop >= 0 && !std::isfinite(want[size_t(stop)])) continue;
              std::vector<Visit> vs;
              auto what = std::string(back ? "forEachPredecessor" : "forEachSuccessor") + (ar ? "IncludingAreas" : "") + " from " + w.net.name(s) + " module " + std::to_string(m) + (lc ? " with lane changes" : "") +
                          (stop >= 0 ? " stopping at " + w.net.name(stop) : "");
              if (ar) {
                auto f = [&](const LaneletOrAreaVisitInformation& i) {
                  vs.push_back({w.net.find(i.laneletOrArea), w.net.find(i.predecessor), i.cost, i.length, i.numLaneChanges});
                  return vs.back().v != stop;
                };
                back ? g.forEachPredecessorIncludingAreas(w.obj(s), f, lc, id) : g.forEachSuccessorIncludingAreas(w.obj(s), f, lc, id);
              } else {
                auto f = [&](const LaneletVisitInformation& i) {
                  vs.push_back({w.net.find(i.lanelet), w.net.find(i.predecessor), i.cost, i.length, i.numLaneChanges});
                  return vs.back().v != stop;
                };
                back ? g.forEachPredecessor(w.ll(s), f, lc, id) : g.forEachSuccessor(w.ll(s), f, lc, id);
              }
              checkVisits(c, w, m, s, mask, back, closed, vs, want, what);
            }
          }
          // shortest paths
          auto want = r.dist(m, s, mask, false);
          for (int t = 0; t < w.n(); ++t) {
            if (!ar && w.area(t)) continue;
            c.step();
            std::vector<int> p;
            bool has;
            if (ar) {
              auto got = g.shortestPathIncludingAreas(w.obj(s), w.obj(t), id, lc);
              has = !!got;
              if (got) p = w.seq(*got);
            } else {
              auto got = g.shortestPath(w.ll(s), w.ll(t), id, lc);
              has = !!got;
              if (got) p = w.seq(*got);
            }
            auto what = "path from " + w.net.name(s) + " to " + w.net.name(t) + " module " + std::to_string(m) + (lc ? " with lane changes" : "") + (ar ? " with areas" : "");
            MC_REQUIRE(has == std::isfinite(want[size_t(t)]), "path-exists", what << (has ? " found but there is none" : " not found"));
            if (!has) continue;
            MC_REQUIRE(!p.empty() && p.front() == s && p.back() == t, "path-ends", what << " is " << w.names(p));
            MC_REQUIRE(near(pathCost(w, m, p, mask), want[size_t(t)]), "path-cost", what << " " << w.names(p) << " costs " << pathCost(w, m, p, mask) << " instead of " << want[size_t(t)]);
          }
        }
      }
    }
  }
}

// ---- R03: paths through given points
void checkVia(mc::Ctx& c, World& w, bool withAreas) {
  auto& g = *w.graph;
  auto& r = *w.ref;
  const auto id = RoutingCostId(0);
  for (bool lc : {true, false}) {
    auto mask = (lc ? Lanes : NoLanes) | (withAreas ? RelationType::Area : RelationType::None);
    std::vector<std::vector<double>> d;
    for (int s = 0; s < w.n(); ++s) d.push_back(r.dist(0, s, mask, false));
    auto one = [&](const std::vector<int>& pts) {
      double want = 0;
      for (size_t i = 0; i + 1 < pts.size(); ++i) want += d[size_t(pts[i])][size_t(pts[i + 1])];
      std::vector<int> p;
      bool has;
      c.step();
      if (withAreas) {
        ConstLaneletOrAreas via;
        for (size_t i = 1; i + 1 < pts.size(); ++i) via.push_back(w.obj(pts[i]));
        auto got = g.shortestPathIncludingAreasVia(w.obj(pts.front()), via, w.obj(pts.back()), id, lc);
        has = !!got;
        if (got) p = w.seq(*got);
      } else {
        ConstLanelets via;
        for (size_t i = 1; i + 1 < pts.size(); ++i) via.push_back(w.ll(pts[i]));
        auto got = g.shortestPathVia(w.ll(pts.front()), via, w.ll(pts.back()), id, lc);
        has = !!got;
        if (got) p = w.seq(*got);
      }
      auto what = "path through " + w.names(pts) + (lc ? " with lane changes" : "");
      MC_REQUIRE(has == std::isfinite(want), "via-exists", what << (has ? " found but there is none" : " not found"));
      if (!has) return;
      MC_REQUIRE(!p.empty() && p.front() == pts.front() && p.back() == pts.back(), "via-ends", what << " is " << w.names(p));
      MC_REQUIRE(near(pathCost(w, 0, p, mask), want), "via-cost", what << ": " << w.names(p) << " costs " << pathCost(w, 0, p, mask) << " instead of " << want);
      size_t k = 0;
      for (int x : p) {
        while (k < pts.size() && pts[k] == x) ++k;
      }
      MC_REQUIRE(k == pts.size(), "via-order", what << " is " << w.names(p));
    };
    auto ok = [&](int x) { return withAreas || !w.area(x); };
    for (int a = 0; a < w.n(); ++a) {
      for (int b = 0; b < w.n(); ++b) {
        if (!ok(a) || !ok(b)) continue;
        one({a, b});
        for (int x = 0; x < w.n(); ++x) {
          if (!ok(x)) continue;
          one({a, x, b});
          for (int y = 0; y < w.n() && w.n() <= 6; ++y) {
            if (ok(y)) one({a, x, y, b});
          }
        }
      }
    }
  }
}

// ---- R04: what can be reached within limits
void checkReach(mc::Ctx& c, World& w, bool withAreas) {
  auto& g = *w.graph;
  auto& r = *w.ref;
  for (size_t m = 0; m < r.kinds.size(); ++m) {
    auto id = RoutingCostId(m);
    for (int s = 0; s < w.n(); ++s) {
      for (bool lc : {true, false}) {
        for (bool ar : {false, true}) {
          if (ar != (withAreas && (ar || w.area(s))) && ar) continue;
          if (!ar && w.area(s)) continue;
          auto mask = (lc ? Lanes : NoLanes) | (ar ? RelationType::Area : RelationType::None);
          for (bool back : {false, true}) {
            auto d = r.dist(m, s, mask, back);
            std::set<double> limits{0, 1e9};
            for (double x : d) {
              if (std::isfinite(x) && x > 0) limits.insert({x - 1e-3, x + 1e-3});
            }
            for (double lim : limits) {
              std::vector<int> want;
              for (int v = 0; v < w.n(); ++v) {
                if (d[size_t(v)] <= lim) want.push_back(v);
              }
              c.step();
              if (ar) {
                if (back || !lc) continue;
                SAME(w.ids(g.reachableSetIncludingAreas(w.obj(s), lim, id)), want, "reachable-areas", "reachableSetIncludingAreas(" << w.net.name(s) << "," << lim << ")");
              } else {
                SAME(w.ids(back ? g.reachableSetTowards(w.ll(s), lim, id, lc) : g.reachableSet(w.ll(s), lim, id, lc)), want, back ? "reachable-towards" : "reachable",
                     (back ? "reachableSetTowards(" : "reachableSet(") << w.net.name(s) << "," << lim << "," << lc << ", module " << m << ")");
              }
            }
            if (ar && back) continue;
            // possible paths: the cheapest paths that do not go on from an element at which the limit is reached
            std::vector<std::pair<Optional<double>, Optional<uint32_t>>> params;
            for (double lim : limits) {
              if (lim < 1e8) params.push_back({lim, {}});
            }
            for (uint32_t k = 1; k <= 4; ++k) params.push_back({{}, k});
            params.push_back({8., 3U});
            params.push_back({17., 2U});
            params.push_back({17., 3U});
            for (auto& pm : params) {
              auto reached = [&](double cost, size_t len) { return (pm.first && cost >= *pm.first) || (pm.second && len >= *pm.second); };
              struct St {
                double cost;
                std::vector<int> path;
                bool done, leaf;
              };
              std::map<int, St> st;
              st[s] = {0, {s}, false, true};
              while (true) {
                int u = -1;
                for (auto& x : st) {
                  if (!x.second.done && (u < 0 || x.second.cost < st[u].cost)) u = x.first;
                }
                if (u < 0) break;
                st[u].done = true;
                auto here = st[u];
                if (here.path.size() > 1) st[here.path[here.path.size() - 2]].leaf = false;
                if (reached(here.cost, here.path.size())) continue;
                for (auto& e : r.e[m]) {
                  if ((e.rel & mask) == RelationType::None || (back ? e.v : e.u) != u) continue;
                  int v = back ? e.u : e.v;
                  if (st.count(v) && (st[v].done || st[v].cost <= here.cost + e.cost)) continue;
                  auto p = here.path;
                  p.push_back(v);
                  st[v] = {here.cost + e.cost, p, false, true};
                }
              }
              for (bool shorter : {false, true}) {
                std::vector<std::vector<int>> want, got;
                for (auto& x : st) {
                  if (x.second.leaf && (shorter || reached(x.second.cost, x.second.path.size()))) {
                    auto p = x.second.path;
                    if (back) std::reverse(p.begin(), p.end());
                    want.push_back(p);
                  }
                }
                PossiblePathsParams pp{pm.first, pm.second, id, lc, shorter};
                c.step();
                if (ar) {
                  for (auto& p : g.possiblePathsIncludingAreas(w.obj(s), pp)) got.push_back(w.seq(p));
                } else {
                  for (auto& p : back ? g.possiblePathsTowards(w.ll(s), pp) : g.possiblePaths(w.ll(s), pp)) got.push_back(w.seq(p));
                  if (!shorter && pm.first.has_value() != pm.second.has_value()) {  // the short forms
                    auto sf = pm.first ? (back ? g.possiblePathsTowards(w.ll(s), *pm.first, id, lc) : g.possiblePaths(w.ll(s), *pm.first, id, lc))
                                       : (back ? g.possiblePathsTowards(w.ll(s), *pm.second, lc, id) : g.possiblePaths(w.ll(s), *pm.second, lc, id));
                    std::vector<std::vector<int>> gs;
                    for (auto& p : sf) gs.push_back(w.seq(p));
                    MC_REQUIRE(gs == got, "possible-short-form", "short form of possiblePaths differs");
                  }
                }
                std::sort(want.begin(), want.end());
                std::sort(got.begin(), got.end());
                auto all = [&](const std::vector<std::vector<int>>& v) {
                  std::string o;
                  for (auto& p : v) o += w.names(p);
                  return o;
                };
                MC_REQUIRE(want == got, "possible-paths",
                           (back ? "possiblePathsTowards(" : "possiblePaths(") << w.net.name(s) << ", cost " << (pm.first ? *pm.first : -1) << ", elements " << (pm.second ? int(*pm.second) : -1) << ", shorter " << shorter
                                                                               << ", lane changes " << lc << ") are " << all(got) << " instead of " << all(want));
              }
            }
          }
        }
      }
    }
  }
  if (w.n() > 0 && !w.area(0)) {
    bool threw = false;
    try {
      (void)g.possiblePaths(w.ll(0), PossiblePathsParams{});
    } catch (const InvalidInputError&) {
      threw = true;
    }
    MC_REQUIRE(threw, "possible-no-limit", "possiblePaths without limits was accepted");
    // what is left out is as documented: the first cost module; lane changes are part of a reachable set, but not of a possible path
    auto same = [&](const LaneletPaths& a, const LaneletPaths& b) { return a == b; };
    for (int s = 0; s < w.n(); ++s) {
      if (w.area(s)) {
        continue;
      }
      auto ll = w.ll(s);
      for (double lim : {1., 9., 18., 30.}) {
        c.step(6);
        MC_REQUIRE(w.ids(g.reachableSet(ll, lim)) == w.ids(g.reachableSet(ll, lim, 0, true)) && w.ids(g.reachableSetTowards(ll, lim)) == w.ids(g.reachableSetTowards(ll, lim, 0, true)) &&
                       w.ids(g.reachableSetIncludingAreas(w.obj(s), lim)) == w.ids(g.reachableSetIncludingAreas(w.obj(s), lim, 0)),
                   "defaults", "reachable sets of " << w.net.name(s) << " without the optional arguments");
        MC_REQUIRE(same(g.possiblePaths(ll, lim), g.possiblePaths(ll, lim, 0, false)) && same(g.possiblePathsTowards(ll, lim), g.possiblePathsTowards(ll, lim, 0, false)) &&
                       g.possiblePathsIncludingAreas(w.obj(s), lim) == g.possiblePathsIncludingAreas(w.obj(s), lim, 0, false),
                   "defaults", "possible paths of " << w.net.name(s) << " to a cost without the optional arguments");
      }
      for (uint32_t k : {1U, 2U, 3U}) {
        c.step(3);
        MC_REQUIRE(same(g.possiblePaths(ll, k), g.possiblePaths(ll, k, false, 0)) && same(g.possiblePathsTowards(ll, k), g.possiblePathsTowards(ll, k, false, 0)) &&
                       g.possiblePathsIncludingAreas(w.obj(s), k) == g.possiblePathsIncludingAreas(w.obj(s), k, false, 0),
                   "defaults", "possible paths of " << w.net.name(s) << " of some elements without the optional arguments");
      }
      for (int t = 0; t < w.n(); ++t) {
        if (w.area(t)) {
          continue;
        }
        c.step(2);
        auto p = g.shortestPath(ll, w.ll(t)), q = g.shortestPath(ll, w.ll(t), 0, true);
        MC_REQUIRE(!!p == !!q && (!p || *p == *q), "defaults", "shortest path without the optional arguments");
        auto r1 = g.getRoute(ll, w.ll(t)), r2 = g.getRoute(ll, w.ll(t), 0, true);
        MC_REQUIRE(!!r1 == !!r2 && (!r1 || r1->size() == r2->size()), "defaults", "route without the optional arguments");
      }
    }
  }
}

// ---- R05: routes
void checkRoute(mc::Ctx& c, World& w, size_t m, const std::vector<int>& points, bool lc, const Optional<Route>& route, double wantCost) {
  auto& r = *w.ref;
  auto& net = w.net;
  using RT = RelationType;
  const auto mask = lc ? Lanes : NoLanes;
  auto what = "route through " + w.names(points) + " module " + std::to_string(m) + (lc ? " with lane changes" : "") + ": ";
  c.step();
  MC_REQUIRE(bool(route) == std::isfinite(wantCost), "route-exists", what << (route ? "found but there is none" : "not found"));
  if (!route) return;
  // the path
  auto p = w.seq(route->shortestPath());
  MC_REQUIRE(!p.empty() && p.front() == points.front() && p.back() == points.back(), "route-path", what << "path " << w.names(p));
  MC_REQUIRE(near(pathCost(w, m, p, mask), wantCost), "route-path-cost", what << "path " << w.names(p) << " costs " << pathCost(w, m, p, mask) << " instead of " << wantCost);
  size_t at = 0;
  for (int x : p) {
    if (at < points.size() && points[at] == x) ++at;
  }
  // points given twice in a row appear once
  std::vector<int> uniq = points;
  uniq.erase(std::unique(uniq.begin(), uniq.end()), uniq.end());
  // the members
  std::vector<char> in(size_t(w.n()), 0);
  std::set<Id> ids;
  size_t members = 0;
  std::string ms;
  for (int i = 0; i < w.n(); ++i) {
    if (!w.area(i) && route->contains(w.ll(i))) {
      in[size_t(i)] = 1;
      ++members;
      ids.insert(w.ll(i).id());
      ms += net.name(i) + " ";
    }
  }
  what += "{" + ms + "} ";
  c.outcome(net.show() + what);
  MC_REQUIRE(route->size() == members, "route-size", what << "size is " << route->size());
  std::set<Id> sub;
  for (auto& l : route->laneletSubmap()->laneletLayer) sub.insert(l.id());
  MC_REQUIRE(sub == ids && route->laneletSubmap()->areaLayer.empty(), "route-submap", what << "submap has " << sub.size() << " lanelets");
  for (int x : p) MC_REQUIRE(in[size_t(x)], "route-has-path", what << net.name(x) << " of the path is missing");
  auto fwd = r.dist(m, p.front(), mask, false, nullptr, &in), bwd = r.dist(m, p.back(), mask, true, nullptr, &in);
  const auto sides = RT::Left | RT::Right | RT::AdjacentLeft | RT::AdjacentRight;
  for (int i = 0; i < w.n(); ++i) {
    if (in[size_t(i)]) {
      c.step();
      MC_REQUIRE(std::isfinite(fwd[size_t(i)]), "route-reachable", what << net.name(i) << " cannot be reached within the route");
      MC_REQUIRE(std::isfinite(bwd[size_t(i)]), "route-leads-to-goal", what << net.name(i) << " does not lead to the goal within the route");
      bool close = std::find(p.begin(), p.end(), i) != p.end();
      for (auto& e : r.e[m]) {
        close |= e.u == i && in[size_t(e.v)] && (e.rel & (sides | RT::Conflicting)) != RT::None;
      }
      MC_REQUIRE(close, "route-close", what << net.name(i) << " is neither next to nor in conflict with the rest of the route");
    } else if (lc) {
      for (auto& e : r.e[m]) {
        if (e.u == i && in[size_t(e.v)] && (e.rel & (RT::Left | RT::Right)) != RT::None) {
          MC_REQUIRE(!r.edge(m, e.v, i, RT::Left | RT::Right), "route-complete", what << net.name(i) << " is missing though the lane can be changed between it and " << net.name(e.v));
        }
      }
    }
  }
  // relations are those of the graph between members
  auto within = [&](std::vector<int> v) {
    v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return !in[size_t(x)]; }), v.end());
    return v;
  };
  auto succ = [&](int u) { return within(r.out(m, u, RT::Successor)); };
  auto pred = [&](int u) { return within(r.in(m, u, RT::Successor)); };
  std::set<int> allConf;
  std::set<std::vector<int>> lanes;
  auto remaining = [&](int u) {
    std::vector<int> lane;
    int v = u;
    while (true) {
      lane.push_back(v);
      auto s = succ(v);
      if (s.size() != 1 || pred(s[0]).size() != 1 || s[0] == u) break;
      v = s[0];
    }
    return lane;
  };
  double len = 0;
  for (auto& l : route->shortestPath()) len += geometry::length2d(l);
  MC_REQUIRE(near(route->length2d(), len), "route-length", what << "length2d is " << route->length2d() << " instead of " << len);
  for (int u = 0; u < w.n(); ++u) {
    if (w.area(u)) continue;
    auto ll = w.ll(u);
    c.step();
    if (!in[size_t(u)]) {
      size_t visits = 0;
      route->forEachSuccessor(ll, [&](auto&) { return bool(++visits); });
      route->forEachPredecessor(ll, [&](auto&) { return bool(++visits); });
      MC_REQUIRE(route->following(ll).empty() && route->previous(ll).empty() && route->followingRelations(ll).empty() && route->previousRelations(ll).empty() && !route->leftRelation(ll) && !route->rightRelation(ll) &&
                     route->leftRelations(ll).empty() && route->rightRelations(ll).empty() && route->conflictingInRoute(ll).empty() && route->conflictingInMap(ll).empty() && route->fullLane(ll).empty() &&
                     route->remainingLane(ll).empty() && route->remainingShortestPath(ll).empty() && visits == 0,
                 "route-stranger", what << "something is known about " << net.name(u) << " which is not part of it");
      continue;
    }
    SAME(w.ids(route->following(ll)), succ(u), "route-following", what << "following(" << net.name(u) << ")");
    SAME(w.ids(route->previous(ll)), pred(u), "route-previous", what << "previous(" << net.name(u) << ")");
    for (bool f : {true, false}) {
      std::vector<int> v;
      for (auto& x : f ? route->followingRelations(ll) : route->previousRelations(ll)) {
        v.push_back(net.find(x.lanelet));
        MC_REQUIRE(x.relationType == RT::Successor, "route-relation-type", what << "relation is " << relName(x.relationType));
      }
      std::sort(v.begin(), v.end());
      SAME(v, f ? succ(u) : pred(u), "route-relations", what << "relations(" << net.name(u) << ")");
    }
    SAME(w.ids(route->conflictingInRoute(ll)), within(r.out(m, u, RT::Conflicting)), "route-conflicting", what << "conflictingInRoute(" << net.name(u) << ")");
    SAME(w.ids(route->conflictingInMap(ll)), r.out(m, u, RT::Conflicting), "route-conflicting-map", what << "conflictingInMap(" << net.name(u) << ")");
    for (int x : r.out(m, u, RT::Conflicting)) allConf.insert(x);
    for (bool isLeft : {true, false}) {
      auto mk = isLeft ? RT::Left | RT::AdjacentLeft : RT::Right | RT::AdjacentRight;
      std::vector<std::pair<int, RT>> want, got;
      for (int x = u; lc && want.size() < 20;) {
        auto o = within(r.out(m, x, mk));
        if (o.empty()) break;
        want.push_back({o[0], r.edge(m, x, o[0], mk)->rel});
        x = o[0];
      }
      for (auto& x : isLeft ? route->leftRelations(ll) : route->rightRelations(ll)) got.push_back({net.find(x.lanelet), x.relationType});
      MC_REQUIRE(got == want, "route-sides", what << (isLeft ? "leftRelations(" : "rightRelations(") << net.name(u) << ") has " << got.size() << " entries, expected " << want.size());
      auto one = isLeft ? route->leftRelation(ll) : route->rightRelation(ll);
      MC_REQUIRE(bool(one) == !want.empty() && (!one || (net.find(one->lanelet) == want[0].first && one->relationType == want[0].second)), "route-side", what << (isLeft ? "leftRelation(" : "rightRelation(") << net.name(u) << ")");
    }
    // lanes
    auto rem = remaining(u);
    SAME(w.seq(route->remainingLane(ll).lanelets()), rem, "route-remaining-lane", what << "remainingLane(" << net.name(u) << ")");
    int b = u;
    while (true) {
      auto q = pred(b);
      if (q.size() != 1 || succ(q[0]).size() != 1 || q[0] == u) break;
      b = q[0];
    }
    {
      auto q = pred(b);
      if (q.size() == 1 && succ(q[0]).size() == 1 && q[0] == u) b = u;  // a loop
    }
    auto full = remaining(b);
    SAME(w.seq(route->fullLane(ll).lanelets()), full, "route-full-lane", what << "fullLane(" << net.name(u) << ")");
    std::sort(full.begin(), full.end());
    lanes.insert(full);
    // what remains of the path
    auto it = std::find(p.begin(), p.end(), u);
    std::vector<int> rest;
    if (it != p.end()) {
      rest.assign(it, p.end());
      if (p.size() > 1 && p.front() == p.back()) {
        rest.pop_back();
        rest.insert(rest.end(), p.begin(), it);
      }
    }
    SAME(w.seq(route->remainingShortestPath(ll)), rest, "route-remaining-path", what << "remainingShortestPath(" << net.name(u) << ")");
    // searches
    for (bool back : {false, true}) {
      std::vector<Visit> vs;
      auto f = [&](const LaneletVisitInformation& i) {
        vs.push_back({net.find(i.lanelet), net.find(i.predecessor), i.cost, i.length, i.numLaneChanges});
        return true;
      };
      back ? route->forEachPredecessor(ll, f) : route->forEachSuccessor(ll, f);
      checkVisits(c, w, m, u, mask, back, std::vector<char>(size_t(w.n()), 0), vs, r.dist(m, u, mask, back, nullptr, &in), what + (back ? "forEachPredecessor" : "forEachSuccessor"));
    }
  }
  SAME(w.ids(route->allConflictingInMap()).size() == 0 ? std::vector<int>{} : [&] { auto v = w.ids(route->allConflictingInMap()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }(),
       std::vector<int>(allConf.begin(), allConf.end()), "route-all-conflicting", what << "allConflictingInMap");
  MC_REQUIRE(route->numLanes() == lanes.size(), "route-lanes", what << "numLanes is " << route->numLanes() << " instead of " << lanes.size());
  auto errs = route->checkValidity(false);
  MC_REQUIRE(errs.empty(), "route-validity", what << errs.front());
}
void checkRoutes(mc::Ctx& c, World& w) {
  auto& g = *w.graph;
  auto& r = *w.ref;
  for (size_t m = 0; m < r.kinds.size(); ++m) {
    auto id = RoutingCostId(m);
    for (bool lc : {true, false}) {
      std::vector<std::vector<double>> d;
      for (int s = 0; s < w.n(); ++s) d.push_back(r.dist(m, s, lc ? Lanes : NoLanes, false));
      for (int s = 0; s < w.n(); ++s) {
        for (int t = 0; t < w.n(); ++t) {
          if (w.area(s) || w.area(t)) continue;
          checkRoute(c, w, m, {s, t}, lc, g.getRoute(w.ll(s), w.ll(t), id, lc), d[size_t(s)][size_t(t)]);
          for (int v = 0; m == 0 && v < w.n(); ++v) {
            if (v == s || v == t || w.area(v) || (s != t && v % 2)) continue;
            checkRoute(c, w, m, {s, v, t}, lc, g.getRouteVia(w.ll(s), {w.ll(v)}, w.ll(t), id, lc), d[size_t(s)][size_t(v)] + d[size_t(v)][size_t(t)]);
          }
        }
      }
    }
  }
}

// ---- R10: what the graph shows of itself
using DirectedEdge = std::tuple<Id, Id, std::string>;
std::string showEdges(const std::multimap<DirectedEdge, double>& es) {
  std::ostringstream o;
  for (auto& e : es) o << std::get<0>(e.first) << ">" << std::get<1>(e.first) << " " << std::get<2>(e.first) << " " << e.second << ", ";
  return o.str();
}
//! two sets of edges with costs are the same
bool sameEdges(std::multimap<DirectedEdge, double> got, const std::multimap<DirectedEdge, double>& want, double tol) {
  if (got.size() != want.size()) return false;
  for (auto& e : want) {
    auto r = got.equal_range(e.first);
    auto it = std::find_if(r.first, r.second, [&](auto& x) { return std::abs(x.second - e.second) <= tol * std::max(1., std::abs(e.second)); });
    if (it == r.second) return false;
    got.erase(it);
  }
  return true;
}
//! center of gravity of what an element covers
std::pair<double, double> gravity(const Net& net, const Net::Node& d) {
  std::vector<std::pair<double, double>> ps;
  if (d.area) {
    for (auto& p : ConstArea(net.areaObjs[size_t(d.idx)]).outerBoundPolygon()) ps.push_back({p.x(), p.y()});
  } else {
    auto& l = net.lanelets[size_t(d.idx)];
    for (auto& p : l.leftBound()) ps.push_back({p.x(), p.y()});
    std::vector<std::pair<double, double>> right;
    for (auto& p : l.rightBound()) right.push_back({p.x(), p.y()});
    ps.insert(ps.end(), right.rbegin(), right.rend());
  }
  double a = 0, x = 0, y = 0;
  for (size_t i = 0; i < ps.size(); ++i) {
    auto &p = ps[i], &q = ps[(i + 1) % ps.size()];
    double cr = p.first * q.second - q.first * p.second;
    a += cr;
    x += (p.first + q.first) * cr;
    y += (p.second + q.second) * cr;
  }
  return {x / (3 * a), y / (3 * a)};
}
Id idOf(const Net::Node& d) { return d.area ? 200 + d.idx : 100 + d.idx; }
void checkPoints(mc::Ctx& c, World& w, const LaneletMap& map, const std::vector<int>& nodes, const std::string& what) {
  std::set<Id> want, got;
  for (int u : nodes) want.insert(idOf(w.net.nodes[size_t(u)]));
  for (auto& p : map.pointLayer) got.insert(p.id());
  MC_REQUIRE(got == want && map.pointLayer.size() == want.size(), "debug-points", what << "has " << map.pointLayer.size() << " points instead of " << want.size());
  for (int u : nodes) {
    c.step();
    auto& d = w.net.nodes[size_t(u)];
    auto p = *map.pointLayer.find(idOf(d));
    auto g = gravity(w.net, d);
    MC_REQUIRE(std::abs(p.x() - g.first) < 1e-6 && std::abs(p.y() - g.second) < 1e-6, "debug-position", what << "point of " << w.net.name(u) << " is at " << p.x() << "/" << p.y() << " instead of " << g.first << "/" << g.second);
    MC_REQUIRE(p.attributeOr("id", Id(0)) == idOf(d), "debug-id", what << "point of " << w.net.name(u) << " has id attribute " << p.attributeOr("id", Id(0)));
  }
  std::set<Id> lines;
  for (auto& l : map.lineStringLayer) {
    c.step();
    MC_REQUIRE(l.size() == 2, "debug-line", what << "a line has " << l.size() << " points");
    MC_REQUIRE(l.id() != InvalId && lines.insert(l.id()).second, "debug-line-id", what << "a line has the id " << l.id());
    for (auto& p : l) {
      MC_REQUIRE(map.pointLayer.exists(p.id()) && map.pointLayer.find(p.id())->constData() == p.constData(), "debug-line-point", what << "point " << p.id() << " of a line is not the one of the map");
    }
  }
}
void checkShown(mc::Ctx& c, World& w, const std::string& file) {
  using RT = RelationType;
  auto& g = *w.graph;
  auto& r = *w.ref;
  std::vector<int> all;
  for (int u = 0; u < w.n(); ++u) all.push_back(u);
  auto edges = [&](size_t m, RT mask) {
    std::multimap<DirectedEdge, double> es;
    for (auto& e : r.e[m]) {
      if ((e.rel & mask) != RT::None) es.insert({{idOf(w.net.nodes[size_t(e.u)]), idOf(w.net.nodes[size_t(e.v)]), relName(e.rel)}, e.cost});
    }
    return es;
  };
  const auto basic = RT::Successor | RT::Left | RT::Right | RT::Area;
  for (size_t m = 0; m < r.kinds.size(); ++m) {
    for (bool adj : {false, true}) {
      for (bool conf : {false, true}) {
        auto what = "debug map " + std::to_string(m) + (adj ? " adjacent" : "") + (conf ? " conflicting" : "") + ": ";
        auto map = g.getDebugLaneletMap(RoutingCostId(m), adj, conf);
        checkPoints(c, w, *map, all, what);
        std::multimap<DirectedEdge, double> got;
        for (auto& l : map->lineStringLayer) {
          got.insert({{l.front().id(), l.back().id(), l.attributeOr("relation", std::string("?"))}, l.attributeOr("routing_cost", -1.)});
          if (l.hasAttribute("relation_reverse")) got.insert({{l.back().id(), l.front().id(), l.attributeOr("relation_reverse", std::string("?"))}, l.attributeOr("routing_cost_reverse", -1.)});
        }
        auto mask = basic;
        if (adj) mask = mask | RT::AdjacentLeft | RT::AdjacentRight;
        if (conf) mask = mask | RT::Conflicting;
        auto want = edges(m, mask);
        MC_REQUIRE(sameEdges(got, want, 1e-5), "debug-edges", what << "shows " << showEdges(got) << " instead of " << showEdges(want));
        c.outcome(w.net.show() + what);
      }
    }
    const auto everything = basic | RT::AdjacentLeft | RT::AdjacentRight | RT::Conflicting;
    for (auto excluded : {RT::None, RT::Conflicting, RT::Successor | RT::Area, RT::Left | RT::Right | RT::AdjacentLeft | RT::AdjacentRight, RT::Successor | RT::Left | RT::Right | RT::Area | RT::AdjacentLeft | RT::AdjacentRight | RT::Conflicting}) {
      auto what = "export " + std::to_string(m) + " without " + std::to_string(int(excluded)) + ": ";
      auto read = [&] {
        std::ifstream in(file);
        std::stringstream ss;
        ss << in.rdbuf();
        return ss.str();
      };
      auto after = [](const std::string& l, const std::string& key, char end) {
        auto at = l.find(key);
        return at == std::string::npos ? std::string() : l.substr(at + key.size(), l.find(end, at + key.size()) - at - key.size());
      };
      auto want = edges(m, everything & ~excluded);
      auto compare = [&](const std::map<std::string, Id>& vs, const std::multimap<DirectedEdge, double>& got, const char* fmt, double tol, std::multimap<DirectedEdge, double> wanted) {
        c.step();
        std::multiset<Id> wantIds, gotIds;
        for (auto& d : w.net.nodes) wantIds.insert(idOf(d));
        for (auto& v : vs) gotIds.insert(v.second);
        MC_REQUIRE(gotIds == wantIds, "export-vertices", what << fmt << " has " << gotIds.size() << " vertices instead of " << wantIds.size());
        MC_REQUIRE(sameEdges(got, wanted, tol), "export-edges", what << fmt << " has " << showEdges(got) << " instead of " << showEdges(wanted));
      };
      g.exportGraphViz(file, excluded, RoutingCostId(m));
      {
        std::istringstream in(read());
        std::map<std::string, Id> vs;
        std::multimap<DirectedEdge, double> got;
        for (std::string l; std::getline(in, l);) {
          auto arrow = l.find("->");
          if (arrow != std::string::npos) {
            auto from = l.substr(0, arrow), to = l.substr(arrow + 2, l.find_first_of(" [", arrow + 2) - arrow - 2);
            auto weight = after(l, "weight=\"", '"');
            MC_REQUIRE(vs.count(from) && vs.count(to), "export-ends", what << "GraphViz edge " << l);
            MC_REQUIRE(after(l, "routingCostId=\"", '"') == std::to_string(m), "export-cost-id", what << "GraphViz edge " << l);
            got.insert({{vs[from], vs[to], after(l, "label=\"", '"')}, weight.empty() ? 1. : std::stod(weight)});
          } else if (l.find("label=") != std::string::npos) {
            MC_REQUIRE(after(l, "label=\"", '"') == after(l, "lanelet=\"", '"'), "export-label", what << "GraphViz vertex " << l);
            vs[l.substr(0, l.find_first_of(" ["))] = std::stoll(after(l, "label=\"", '"'));
          }
        }
        compare(vs, got, "GraphViz", 1e-5, want);
      }
      g.exportGraphML(file, excluded, RoutingCostId(m));
      {
        auto text = read();
        MC_REQUIRE(text.find("</graphml>") != std::string::npos, "export-graphml", what << "GraphML is " << text.substr(0, 200));
        std::map<std::string, std::string> keys;  // key id -> name
        std::map<std::string, Id> vs;
        std::multimap<DirectedEdge, double> got;
        std::istringstream in(text);
        for (std::string l; std::getline(in, l);) {
          if (l.find("<key ") != std::string::npos) keys[after(l, "id=\"", '"')] = after(l, "attr.name=\"", '"');
          auto values = [&](const std::string& endTag) {
            std::map<std::string, std::string> v;
            while (std::getline(in, l) && l.find(endTag) == std::string::npos) {
              auto k = after(l, "<data key=\"", '"');
              if (!k.empty()) v[keys[k]] = after(l, "\">", '<');
            }
            return v;
          };
          if (l.find("<node ") != std::string::npos) {
            auto id = after(l, "id=\"", '"');
            auto v = values("</node>");
            vs[id] = std::stoll(after(v["info"], "id: ", ' '));
          } else if (l.find("<edge ") != std::string::npos) {
            auto from = after(l, "source=\"", '"'), to = after(l, "target=\"", '"');
            auto v = values("</edge>");
            MC_REQUIRE(vs.count(from) && vs.count(to), "export-ends", what << "GraphML edge from " << from << " to " << to);
            got.insert({{vs[from], vs[to], v["relation"]}, v["routingCost"].empty() ? -1. : std::stod(v["routingCost"])});
          }
        }
        compare(vs, got, "GraphML", 1e-5, want);
      }
    }
  }
}
//! the debug maps of the routes between all elements
void checkShownRoutes(mc::Ctx& c, World& w) {
  using RT = RelationType;
  auto& r = *w.ref;
  for (size_t m = 0; m < r.kinds.size(); ++m) {
    for (bool lc : {true, false}) {
      for (int s = 0; s < w.n(); ++s) {
        for (int t = 0; t < w.n(); ++t) {
          if (w.area(s) || w.area(t)) continue;
          auto route = w.graph->getRoute(w.ll(s), w.ll(t), RoutingCostId(m), lc);
          if (!route) continue;
          auto what = "debug map of the route " + w.net.name(s) + "-" + w.net.name(t) + " module " + std::to_string(m) + (lc ? " with lane changes" : "") + ": ";
          std::vector<int> in;
          std::vector<char> isIn(size_t(w.n()), 0);
          for (int u = 0; u < w.n(); ++u) {
            if (!w.area(u) && route->contains(w.ll(u))) in.push_back(u), isIn[size_t(u)] = 1;
          }
          auto map = route->getDebugLaneletMap();
          checkPoints(c, w, *map, in, what);
          std::multimap<DirectedEdge, double> got, want;
          for (auto& l : map->lineStringLayer) {
            for (auto& a : l.attributes()) {
              if (a.first.rfind("relation_reverse_", 0) == 0) {
                got.insert({{l.back().id(), l.front().id(), a.second.value()}, 0.});
              } else if (a.first.rfind("relation_", 0) == 0) {
                got.insert({{l.front().id(), l.back().id(), a.second.value()}, 0.});
              }
            }
          }
          for (auto& e : r.e[m]) {
            // a route without lane changes knows of no neighbours
            if (!lc && (e.rel & (RT::Left | RT::Right | RT::AdjacentLeft | RT::AdjacentRight)) != RT::None) continue;
            if (isIn[size_t(e.u)] && isIn[size_t(e.v)] && e.rel != RT::Area) want.insert({{idOf(w.net.nodes[size_t(e.u)]), idOf(w.net.nodes[size_t(e.v)]), relName(e.rel)}, 0.});
          }
          MC_REQUIRE(sameEdges(got, want, 0), "route-debug-edges", what << "shows " << showEdges(got) << " instead of " << showEdges(want));
          std::set<Id> path, marked;
          for (auto& l : route->shortestPath()) path.insert(l.id());
          for (auto& p : map->pointLayer) {
            if (p.attributeOr("shortest_path", false)) marked.insert(p.id());
          }
          MC_REQUIRE(path == marked, "route-debug-path", what << marked.size() << " points are marked as shortest path instead of " << path.size());
          // lanes
          for (int u : in) {
            for (int v : in) {
              if (w.net.nodes[size_t(u)].inv || w.net.nodes[size_t(v)].inv || std::count_if(in.begin(), in.end(), [&](int x) { return w.net.nodes[size_t(x)].inv; })) continue;
              auto lane = [&](int x) { return map->pointLayer.find(idOf(w.net.nodes[size_t(x)]))->attributeOr("lane_id", Id(-1)); };
              auto full = w.ids(route->fullLane(w.ll(u)).lanelets());
              bool same = std::find(full.begin(), full.end(), v) != full.end();
              MC_REQUIRE((lane(u) == lane(v)) == same, "route-debug-lane", what << w.net.name(u) << " and " << w.net.name(v) << " have the lane ids " << lane(u) << " and " << lane(v));
            }
          }
          c.outcome(w.net.show() + what);
        }
      }
    }
  }
}
//! refused inputs and files that cannot be written
void checkShownErrors(mc::Ctx& c, World& w, const std::string& dir) {
  auto& g = *w.graph;
  auto thrown = [](const std::function<void()>& f) -> std::string {
    try {
      f();
    } catch (const InvalidInputError&) {
      return "InvalidInputError";
    } catch (const ExportError&) {
      return "ExportError";
    } catch (const std::exception& e) {
      return std::string("another exception: ") + e.what();
    }
    return "nothing";
  };
  auto n = RoutingCostId(w.ref->kinds.size());
  auto expect = [&](const std::string& what, const std::string& want, const std::function<void()>& f) {
    c.step();
    auto got = thrown(f);
    MC_REQUIRE(got == want, "export-error", what << " throws " << got << " instead of " << want);
    c.outcome(what);
  };
  for (RoutingCostId id : {n, RoutingCostId(n + 1), RoutingCostId(60000)}) {
    expect("debug map of module " + std::to_string(id), "InvalidInputError", [&] { g.getDebugLaneletMap(id); });
    expect("GraphML of module " + std::to_string(id), "InvalidInputError", [&] { g.exportGraphML(dir + "/x", RelationType::None, id); });
    expect("GraphViz of module " + std::to_string(id), "InvalidInputError", [&] { g.exportGraphViz(dir + "/x", RelationType::None, id); });
  }
  expect("GraphML without a name", "InvalidInputError", [&] { g.exportGraphML(""); });
  expect("GraphViz without a name", "InvalidInputError", [&] { g.exportGraphViz(""); });
  for (auto& f : {dir + "/missing/x", dir, std::string("/dev/full")}) {
    auto what = f == dir ? "a directory" : f == "/dev/full" ? "a full device" : "a missing directory";
    expect(std::string("GraphML into ") + what, "ExportError", [&] { g.exportGraphML(f); });
    expect(std::string("GraphViz into ") + what, "ExportError", [&] { g.exportGraphViz(f); });
  }
}

// ---- R07: several graphs
void checkContainer(mc::Ctx& c, const Net& base, bool routes) {
  Net nets[2] = {base, base};
  for (auto& cell : nets[1].cells) {  // what the other participant may pass; it is the same map
    cell.use = cell.use == Walkway ? Both : cell.use == Both ? Absent : cell.use;
  }
  auto& n = nets[0];
  n.build();
  n.relate();
  static traffic_rules::TrafficRulesPtr walk = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::Pedestrian);
  RoutingCostPtrs costs{std::make_shared<GenericCost>(0)};
  std::vector<RoutingGraphPtr> graphs{RoutingGraph::build(*n.map, *rules(false), costs), RoutingGraph::build(*n.map, *walk, costs)};
  RoutingGraphContainer cont(graphs);
  MC_REQUIRE(cont.routingGraphs().size() == 2 && cont.routingGraphs()[1] == graphs[1], "container-graphs", "the container has lost a graph");
  auto passable = [&](size_t g, size_t i) { return g == 0 ? n.cells[i].use == Forward || n.cells[i].use == Both : n.cells[i].use == Walkway; };
  auto ids = [](const ConstLanelets& ls) {
    std::vector<Id> r;
    for (auto& l : ls) r.push_back(l.id() * 2 + l.inverted());
    std::sort(r.begin(), r.end());
    return r;
  };
  auto want = [&](size_t i, size_t g, double h) {
    std::vector<Id> r;
    for (size_t k = 0; k < n.cells.size(); ++k) {
      if (k == i || !passable(g, k)) continue;
      auto a = n.polygon({false, int(i), false}), b = n.polygon({false, int(k), false});
      if ((h == 0 || std::fabs(a[0].z - b[0].z) < h) && Net::overlap(a, b)) r.push_back((100 + Id(k)) * 2);
    }
    return r;
  };
  for (double h : {0., 1., 2., 4.}) {
    for (size_t i = 0; i < n.cells.size(); ++i) {
      c.step();
      auto all = cont.conflictingInGraphs(n.lanelets[i], h);
      MC_REQUIRE(all.size() == 2 && all[0].first == 0 && all[1].first == 1, "container-all", "conflictingInGraphs has " << all.size() << " entries");
      for (size_t g = 0; g < 2; ++g) {
        auto got = ids(cont.conflictingInGraph(n.lanelets[i], g, h));
        MC_REQUIRE(got == want(i, g, h) && ids(all[g].second) == got, "container-conflicts", "conflictingInGraph(c" << i << ", " << g << ", " << h << ") has " << got.size() << " lanelets, expected " << want(i, g, h).size());
        c.outcome(std::to_string(got.size()));
      }
    }
    if (!routes) continue;
    for (int s = 0; s < int(n.nodes.size()); ++s) {
      for (int t = 0; t < int(n.nodes.size()); ++t) {
        auto r = graphs[0]->getRoute(n.ll(n.nodes[size_t(s)]), n.ll(n.nodes[size_t(t)]));
        if (!r) continue;
        c.step();
        bool backwards = false;
        for (auto& l : r->laneletSubmap()->laneletLayer) backwards |= l.inverted();
        if (backwards) continue;  // it is not documented whether a lanelet is in conflict with its other direction
        auto all = cont.conflictingOfRouteInGraphs(&*r, h);
        MC_REQUIRE(all.size() == 2 && all[0].first == 0 && all[1].first == 1, "container-all", "conflictingOfRouteInGraphs has " << all.size() << " entries");
        for (size_t g = 0; g < 2; ++g) {
          std::set<Id> w;
          for (size_t i = 0; i < n.cells.size(); ++i) {
            bool in = false;
            for (bool inv : {false, true}) in |= r->contains(n.ll({false, int(i), inv}));
            if (!in) continue;
            for (Id x : want(i, g, h)) w.insert(x);
          }
          auto got = ids(cont.conflictingOfRouteInGraph(&*r, g, h));
          MC_REQUIRE(got == std::vector<Id>(w.begin(), w.end()) && ids(all[g].second) == got, "container-route", "conflictingOfRouteInGraph(c" << n.name(s) << " to " << n.name(t) << ", " << g << ", " << h << ") has " << got.size() << " lanelets, expected " << w.size());
        }
      }
    }
  }
  for (int k = 0; k < 2; ++k) {
    bool threw = false;
    try {
      if (k == 0) {
        (void)cont.conflictingInGraph(n.lanelets[0], 2);
      } else {
        Route r;
        if (!n.nodes.empty()) {
          auto rt = graphs[0]->getRoute(n.ll(n.nodes[0]), n.ll(n.nodes[0]));
          (void)cont.conflictingOfRouteInGraph(&*rt, 2);
        } else {
          throw InvalidInputError("");
        }
      }
    } catch (const InvalidInputError&) {
      threw = true;
    }
    MC_REQUIRE(threw, "container-id", "a graph that does not exist was accepted");
  }
}

// ---- R08: the outline of a path
std::vector<Id> lineIds(Net& n, int a, int b) {
  std::vector<Id> r;
  for (auto& p : n.line(a, b)) r.push_back(p.id());
  return r;
}
//! a path shows the elements it was made of
template <typename Path, typename List>
void checkPath(Path path, const List& els) {
  const Path& cp = path;
  MC_REQUIRE(path.size() == els.size() && path.empty() == els.empty() && List(path.begin(), path.end()) == els && List(cp.begin(), cp.end()) == els, "path-elements", "a path of " << els.size() << " elements");
  for (size_t i = 0; i < els.size(); ++i) MC_REQUIRE(cp[i] == els[i], "path-elements", "element " << i << " of a path of " << els.size());
  if (!els.empty()) MC_REQUIRE(cp.front() == els.front() && cp.back() == els.back(), "path-elements", "ends of a path of " << els.size() << " elements");
  List rev(els.rbegin(), els.rend()), less(els);
  const bool palindrome = rev == els;
  MC_REQUIRE(cp == Path(els) && !(cp != Path(els)) && (cp == Path(rev)) == palindrome && (cp != Path(rev)) == !palindrome, "path-equal", "paths of " << els.size() << " elements");
  if (!less.empty()) {
    less.pop_back();
    MC_REQUIRE(!(cp == Path(less)) && Path(less) != cp, "path-equal", "a path of " << els.size() << " elements and one with one element less");
  }
}
void checkOutline(mc::Ctx& c, Net n, size_t maxLen) {
  n.build();
  std::vector<Net::Node> nodes;  // every element, in both directions
  for (size_t i = 0; i < n.cells.size(); ++i) {
    nodes.push_back({false, int(i), false});
    nodes.push_back({false, int(i), true});
  }
  for (size_t i = 0; i < n.areas.size(); ++i) nodes.push_back({true, int(i), false});
  n.nodes = nodes;
  // clockwise outline of an element: begin and end points of the sides
  auto sides = [&](const Net::Node& x) {
    std::vector<std::pair<int, int>> r;
    if (x.area) {
      auto& a = n.areas[size_t(x.idx)];
      for (size_t k = 0; k < a.size(); ++k) r.push_back({a[k], a[(k + 1) % a.size()]});
    } else {
      auto l0 = n.left(x, false), l1 = n.left(x, true), r0 = n.right(x, false), r1 = n.right(x, true);
      r = {{l0, l1}, {l1, r1}, {r1, r0}, {r0, l0}};
    }
    return r;
  };
  auto common = [&](const Net::Node& x, const Net::Node& y) -> Optional<std::pair<int, int>> {
    if (!x.area && !y.area) {  // one follows the other or is beside it, both being driven in the same direction
      auto l0 = n.left(x, false), l1 = n.left(x, true), r0 = n.right(x, false), r1 = n.right(x, true);
      if (l1 == n.left(y, false) && r1 == n.right(y, false)) return std::make_pair(l1, r1);
      if (l0 == n.left(y, true) && r0 == n.right(y, true)) return std::make_pair(r0, l0);
      if (l0 == n.right(y, false) && l1 == n.right(y, true)) return std::make_pair(l0, l1);
      if (r0 == n.left(y, false) && r1 == n.left(y, true)) return std::make_pair(r1, r0);
      return {};
    }
    for (auto& s : sides(x)) {
      for (auto& t : sides(y)) {
        if (s.first == t.second && s.second == t.first) return s;
      }
    }
    return {};
  };
  std::map<std::array<double, 3>, Id> at;
  auto& build = n;
  std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& path) {
    c.step();
    // the directed pieces of all outlines without those that two elements in a row share
    std::multiset<std::pair<Id, Id>> want;
    std::string what;
    ConstLaneletOrAreas els;
    for (size_t k = 0; k < path.size(); ++k) {
      auto& x = nodes[size_t(path[k])];
      what += n.name(path[k]) + " ";
      els.push_back(n.obj(x));
      for (auto& s : sides(x)) {
        bool shared = false;
        if (k > 0) {
          auto o = common(x, nodes[size_t(path[k - 1])]);
          shared |= o && *o == s;
        }
        if (k + 1 < path.size()) {
          auto o = common(x, nodes[size_t(path[k + 1])]);
          shared |= o && *o == s;
        }
        if (shared) continue;
        bool isLine = x.area || s == std::make_pair(n.left(x, false), n.left(x, true)) || s == std::make_pair(n.right(x, true), n.right(x, false)) || n.lines.count(Net::key(s.first, s.second));
        // the ends of a lanelet are straight even if an area has a line there
        if (!x.area && s != std::make_pair(n.left(x, false), n.left(x, true)) && s != std::make_pair(n.right(x, true), n.right(x, false))) isLine = false;
        if (isLine) {
          auto v = lineIds(build, s.first, s.second);
          for (size_t i = 0; i + 1 < v.size(); ++i) want.insert({v[i], v[i + 1]});
        } else {
          want.insert({1 + Id(s.first), 1 + Id(s.second)});
        }
      }
    }
    if (at.empty()) {
      for (auto& l : n.lines) {
        for (auto& p : l.second) at[{p.x(), p.y(), p.z()}] = p.id();
      }
    }
    checkPath(LaneletOrAreaPath(els), els);
    auto poly = routing::getEnclosingPolygon3d(LaneletOrAreaPath(els));
    std::multiset<std::pair<Id, Id>> got;
    std::vector<Id> ring;
    for (auto& p : poly) {
      auto it = at.find({p.x(), p.y(), p.z()});
      MC_REQUIRE(it != at.end(), "outline-point", "outline of " << what << "has a point that is not part of it");
      if (ring.empty() || ring.back() != it->second) ring.push_back(it->second);
    }
    if (path.size() == 1 && ring.size() > 1 && ring.front() == ring.back()) ring.pop_back();  // outlines of areas are closed
    std::string rs;
    for (size_t i = 0; i < ring.size(); ++i) {
      got.insert({ring[i], ring[(i + 1) % ring.size()]});
      rs += std::to_string(ring[i]) + " ";
    }
    if (got != want) {
      std::string ws;
      for (auto& e : want) ws += std::to_string(e.first) + ">" + std::to_string(e.second) + " ";
      MC_REQUIRE(false, "outline", "outline of " << what << "is " << rs << " expected the pieces " << ws);
    }
    c.outcome(what + rs);
    if (path.size() >= maxLen) return;
    for (int v = 0; v < int(nodes.size()); ++v) {
      auto& y = nodes[size_t(v)];
      bool used = false;
      for (int u : path) used |= nodes[size_t(u)].area == y.area && nodes[size_t(u)].idx == y.idx;
      auto border = common(nodes[size_t(path.back())], y);
      if (used || !border) continue;
      // the border through which the last element was entered cannot be passed once more
      if (path.size() > 1 && common(nodes[size_t(path.back())], nodes[size_t(path[path.size() - 2])]) == border) continue;
      path.push_back(v);
      rec(path);
      path.pop_back();
    }
  };
  for (int s = 0; s < int(nodes.size()); ++s) {
    std::vector<int> path{s};
    rec(path);
  }
  // the part of a path that can be driven without changing lanes
  std::vector<int> lls;
  for (int i = 0; i < int(nodes.size()); ++i) {
    if (!nodes[size_t(i)].area) lls.push_back(i);
  }
  for (int len = 0; len <= 3 && !lls.empty(); ++len) {
    mc::forSequences(int(lls.size()), len, [&](const std::vector<int>& q) {
      ConstLanelets ls;
      for (int x : q) ls.push_back(n.ll(nodes[size_t(lls[size_t(x)])]));
      LaneletPath path(ls);
      checkPath(path, ls);
      for (int k = 0; k <= len; ++k) {
        c.step();
        ConstLanelets want;
        for (int i = k; i < len; ++i) {
          want.push_back(ls[size_t(i)]);
          if (i + 1 < len && n.relation(nodes[size_t(lls[size_t(q[size_t(i)])])], nodes[size_t(lls[size_t(q[size_t(i + 1)])])]) != RelationType::Successor) break;
        }
        auto got = path.getRemainingLane(static_cast<const LaneletPath&>(path).begin() + k);
        MC_REQUIRE(got.lanelets() == want, "remaining-lane", "getRemainingLane from position " << k << " has " << got.size() << " lanelets instead of " << want.size());
        if (k < len && std::find(ls.begin(), ls.end(), ls[size_t(k)]) == ls.begin() + k) {
          MC_REQUIRE(path.getRemainingLane(ls[size_t(k)]).lanelets() == want, "remaining-lane-of", "getRemainingLane of a lanelet differs from that of its position");
        }
      }
    });
  }
}

// ---- the networks
using Visitor = std::function<void(const Net&)>;
//! lanes x cols cells with all uses, all markings between lanes
void grids(int lanes, int cols, const std::vector<Use>& uses, const std::vector<Mark>& ms, const std::vector<unsigned>& flips, bool ring, const Visitor& f) {
  Grid gr{lanes, cols};
  mc::forSequences(int(uses.size()), lanes * cols, [&](const std::vector<int>& us) {
    const int borders = (lanes - 1) * cols;
    mc::forSequences(int(ms.size()), borders, [&](const std::vector<int>& mk) {
      // markings between absent cells make no difference
      for (int k = 0; k < borders; ++k) {
        int j = k / (lanes - 1), i = k % (lanes - 1);
        auto gone = [&](int a, int b) { auto x = uses[size_t(us[size_t(a * lanes + b)])]; return x == Absent || x == Walkway; };
        if (mk[size_t(k)] != 0 && (gone(j, i) || gone(j, i + 1))) return;
      }
      for (unsigned fl : flips) {
        Net n = gr.net(ring);
        n.flips = fl;
        for (size_t k = 0; k < us.size(); ++k) n.cells[k].use = uses[size_t(us[k])];
        for (int k = 0; k < borders; ++k) n.marks[gr.border(k / (lanes - 1), k % (lanes - 1), ring)] = ms[size_t(mk[size_t(k)])];
        f(n);
      }
    });
  });
}
//! like a grid, but some cells are driven the other way round
void oncoming(int lanes, int cols, const std::vector<Mark>& ms, const Visitor& f) {
  Grid gr{lanes, cols};
  mc::forSequences(4, lanes * cols, [&](const std::vector<int>& us) {
    const int borders = (lanes - 1) * cols;
    mc::forSequences(int(ms.size()), borders, [&](const std::vector<int>& mk) {
      Net n = gr.net();
      n.flips = 0x5;
      for (size_t k = 0; k < us.size(); ++k) {
        auto& c = n.cells[k];
        if (us[k] & 1) c = {c.r1, c.r0, c.l1, c.l0, c.use};
        c.use = us[k] & 2 ? Both : Forward;
      }
      for (int k = 0; k < borders; ++k) n.marks[gr.border(k / (lanes - 1), k % (lanes - 1))] = ms[size_t(mk[size_t(k)])];
      f(n);
    });
  });
}
//! columns of parallel lanes (even) connected by any set of connectors (odd columns)
void junctions(int lanes, int cols, const std::vector<Mark>& ms, bool ring, const Visitor& f, int maxConn = 99) {
  Grid gr{lanes, cols};
  std::vector<std::array<int, 3>> conn;
  std::vector<std::pair<int, int>> par;
  for (int j = 0; j < cols; ++j) {
    for (int a = 0; a < lanes; ++a) {
      if (j % 2 == 0) {
        if (a + 1 < lanes) par.push_back({j, a});
      } else {
        for (int b = 0; b < lanes; ++b) conn.push_back({j, a, b});
      }
    }
  }
  for (unsigned sub = 0; sub < (1U << conn.size()); ++sub) {
    if (__builtin_popcount(sub) > maxConn) continue;
    mc::forSequences(int(ms.size()), int(par.size()), [&](const std::vector<int>& mk) {
      Net n = gr.net(ring);
      n.cells.clear();
      for (int j = 0; j < cols; j += 2) {
        for (int a = 0; a < lanes; ++a) n.cells.push_back(gr.cell(j, a, a, ring));
      }
      for (size_t k = 0; k < conn.size(); ++k) {
        if ((sub >> k) & 1) n.cells.push_back(gr.cell(conn[k][0], conn[k][1], conn[k][2], ring));
      }
      // neighbours among the connectors may change lanes where the first marking is open
      for (int j = 1; j < cols; j += 2) {
        for (int a = 0; a + 1 < lanes; ++a) n.marks[gr.border(j, a, ring)] = ms[size_t(mk[0])];
      }
      for (size_t k = 0; k < par.size(); ++k) n.marks[gr.border(par[k].first, par[k].second, ring)] = ms[size_t(mk[k])];
      f(n);
    });
  }
}
//! 2x2 cells, each absent, an area or a lanelet in one of four directions; markings on the four inner lines
void areaMaps(const std::vector<Mark>& ms, const std::vector<int>& kinds, const std::vector<unsigned>& flips, int w, int h, const Visitor& f) {
  const int inner = (w - 1) * h + w * (h - 1);
  mc::forSequences(int(kinds.size()), w * h, [&](const std::vector<int>& ks) {
    mc::forSequences(int(ms.size()), inner, [&](const std::vector<int>& mk) {
      for (unsigned fl : flips) {
        Net n;
        n.flips = fl;
        auto P = [&](int x, int y) { return y * (w + 1) + x; };
        for (int y = 0; y <= h; ++y) {
          for (int x = 0; x <= w; ++x) n.pts.push_back({10. * x, 8. * y, 0});
        }
        for (int y = 0; y < h; ++y) {
          for (int x = 0; x < w; ++x) {
            int k = kinds[size_t(ks[size_t(y * w + x)])];
            int a = P(x, y), b = P(x + 1, y), cc = P(x + 1, y + 1), d = P(x, y + 1);
            switch (k) {
              case 0:
                break;
              case 1:
                n.cells.push_back({d, cc, a, b, Forward});
                break;
              case 2:
                n.cells.push_back({a, d, b, cc, Forward});
                break;
              case 3:
                n.cells.push_back({b, a, cc, d, Forward});
                break;
              case 4:
                n.cells.push_back({cc, b, d, a, Forward});
                break;
              case 5:
                n.cells.push_back({d, cc, a, b, Both});
                break;
              case 6:
                n.areas.push_back({a, d, cc, b});
                n.areaUse.push_back(Forward);
                break;
              case 7:
                n.areas.push_back({a, d, cc, b});
                n.areaUse.push_back(Walkway);
                break;
            }
          }
        }
        size_t q = 0;
        for (int y = 0; y < h; ++y) {
          for (int x = 1; x < w; ++x) n.marks[Net::key(P(x, y), P(x, y + 1))] = ms[size_t(mk[q++])];
        }
        for (int y = 1; y < h; ++y) {
          for (int x = 0; x < w; ++x) n.marks[Net::key(P(x, y), P(x + 1, y))] = ms[size_t(mk[q++])];
        }
        f(n);
      }
    });
  });
}
const std::vector<Use> AllUses{Absent, Forward, Both, Walkway}, Presence{Absent, Forward};
const std::vector<Mark> LaneMarks{Solid, Dashed, ToLeft, ToRight};

void sweep(mc::Ctx& c, const std::vector<int>& kinds, const char* what, const std::function<void(World&)>& f, int size) {
  auto visit = [&](const Net& n) {
    c.run([&] { return std::string(what) + " of " + n.show(); },
          [&] {
            World w(n, kinds);
            c.state(n.show());
            f(w);
          });
  };
  grids(1, 3, AllUses, {Solid}, {0, 0x2b}, false, visit);
  grids(3, 1, AllUses, LaneMarks, {0, 0x2b}, false, visit);
  grids(2, 2, size > 0 ? AllUses : std::vector<Use>{Absent, Forward, Both}, LaneMarks, {0x15}, false, visit);
  grids(2, 3, Presence, LaneMarks, {0x15}, false, visit);
  grids(3, 2, Presence, size > 0 ? LaneMarks : std::vector<Mark>{Solid, Dashed, ToLeft}, {0x6}, false, visit);
  oncoming(2, 2, {Solid, Dashed, ToRight}, visit);
  grids(2, 4, Presence, {Solid, Dashed}, {0}, true, visit);
  junctions(2, 3, LaneMarks, false, visit);
  junctions(2, 4, {Solid, Dashed}, true, visit);
  if (size > 0) {
    junctions(2, 5, {Solid, Dashed, ToLeft}, false, visit);
    junctions(3, 3, {Solid, Dashed}, false, visit, size > 1 ? 99 : 5);
    grids(2, 4, AllUses, {Solid, Dashed}, {0x3}, false, visit);
  }
  if (size > 1) {
    grids(3, 3, Presence, {Solid, Dashed, ToLeft}, {0x6}, false, visit);
    junctions(3, 4, {Solid, Dashed}, true, visit, 4);
    oncoming(3, 2, {Solid, Dashed, ToLeft}, visit);
  }
}
void areaSweep(mc::Ctx& c, const std::vector<int>& kinds, const char* what, const std::function<void(World&)>& f, int size) {
  auto visit = [&](const Net& n) {
    c.run([&] { return std::string(what) + " of " + n.show(); },
          [&] {
            World w(n, kinds);
            c.state(n.show());
            f(w);
          });
  };
  areaMaps({Solid, Dashed, ToLeft, ToRight, Virtual}, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 0x15b}, 2, 1, visit);
  areaMaps({Solid, Dashed, Virtual}, {1, 2, 5, 6}, {0x2a5}, 3, 1, visit);
  areaMaps(size > 0 ? std::vector<Mark>{Solid, ToLeft, Virtual} : std::vector<Mark>{Dashed, ToLeft}, {1, 4, 5, 6}, {0x3c5}, 2, 2, visit);
  if (size > 1) areaMaps({Solid, Dashed, ToRight}, {1, 2, 3, 4, 5, 6}, {0x3c5}, 2, 2, visit);
}
//! separate cells that cross each other, on any levels
void crossingNets(bool quick, const std::vector<double>& heights, bool kinds, const std::function<void(const Net&)>& f) {
  // footprints: (x0, y0, x1, y1)
  const int boxes[][4] = {{0, 4, 20, 8}, {4, 0, 8, 20}, {8, 0, 12, 20}, {0, 8, 20, 12}, {20, 4, 30, 8}, {6, 5, 7, 7}};
  const int nb = quick ? 5 : 6;
  const double levels[] = {0, 1.5, 3, 6};
  for (int a = 0; a < nb; ++a) {
    for (int b = a + 1; b < nb; ++b) {
      for (int d = b + 1; d <= nb; ++d) {  // nb: only two
        mc::forSequences(4, 3, [&](const std::vector<int>& lv) {
          if (d == nb && lv[2] != 0) return;
          mc::forSequences(kinds ? 3 : 1, 3, [&](const std::vector<int>& kind) {  // one way, both ways, area
            if (d == nb && kind[2] != 0) return;
            for (double h : heights) {
              Net n;
              n.height = h;
              int idx[3] = {a, b, d};
              for (int k = 0; k < (d == nb ? 2 : 3); ++k) {
                auto& bx = boxes[idx[k]];
                int p = int(n.pts.size());
                double z = levels[lv[size_t(k)]];
                n.pts.push_back({double(bx[0]), double(bx[1]), z});
                n.pts.push_back({double(bx[2]), double(bx[1]), z});
                n.pts.push_back({double(bx[2]), double(bx[3]), z});
                n.pts.push_back({double(bx[0]), double(bx[3]), z});
                if (kind[size_t(k)] == 2) {
                  n.areas.push_back({p, p + 3, p + 2, p + 1});
                  n.areaUse.push_back(Forward);
                } else {
                  n.cells.push_back({p + 3, p + 2, p, p + 1, kind[size_t(k)] == 1 ? Both : Forward});
                }
              }
              f(n);
            }
          });
        });
      }
    }
  }
}
void crossings(mc::Ctx& c, const char* what, const std::function<void(World&)>& f, bool quick) {
  crossingNets(quick, {0., 1., 2., 4.}, true, [&](const Net& n) {
    c.run([&] { std::string o; for (auto& p : n.pts) o += std::to_string(int(p.x)) + "/" + std::to_string(int(p.y)) + "/" + std::to_string(p.z).substr(0, 3) + " "; return std::string(what) + " of " + n.show() + " at " + o; },
          [&] {
            World w(n, {0});
            c.state(n.show());
            f(w);
          });
  });
}
void r01(mc::Ctx& c) {
  auto f = [&](World& w) { checkRelations(c, w); };
  sweep(c, {0, 2}, "relations", f, c.quick ? 1 : 2);
  areaSweep(c, {0}, "relations", f, c.quick ? 1 : 2);
}
void r02(mc::Ctx& c) {
  sweep(c, {0, 1}, "search", [&](World& w) { checkSearch(c, w, false); }, c.quick ? 1 : 2);
  areaSweep(c, {0, 1}, "search", [&](World& w) { checkSearch(c, w, true); }, c.quick ? 1 : 2);
}
void r03(mc::Ctx& c) {
  sweep(c, {0}, "paths", [&](World& w) { checkVia(c, w, false); }, c.quick ? 0 : 1);
  areaSweep(c, {0}, "paths", [&](World& w) { checkVia(c, w, true); }, c.quick ? 0 : 1);
}
void r04(mc::Ctx& c) {
  sweep(c, {0, 1}, "reach", [&](World& w) { checkReach(c, w, false); }, c.quick ? 0 : 1);
  areaSweep(c, {0}, "reach", [&](World& w) { checkReach(c, w, true); }, c.quick ? 0 : 1);
}
void r05(mc::Ctx& c) {
  sweep(c, {0, 2}, "routes", [&](World& w) { checkRoutes(c, w); }, c.quick ? 0 : 1);
}
void r06(mc::Ctx& c) {
  crossings(c, "conflicts", [&](World& w) { checkRelations(c, w); }, false);
}
void r07(mc::Ctx& c) {
  auto one = [&](const Net& n, bool routes) {
    c.run([&] { std::string o; for (auto& p : n.pts) o += std::to_string(int(p.x)) + "/" + std::to_string(int(p.y)) + "/" + std::to_string(p.z).substr(0, 3) + " "; return "several graphs of " + n.show() + " at " + o; },
          [&] {
            c.state(n.show());
            checkContainer(c, n, routes);
          });
  };
  crossingNets(false, {0.}, false, [&](Net n) {
    mc::forSequences(3, int(n.cells.size()), [&](const std::vector<int>& us) {
      const Use uses[] = {Forward, Both, Walkway};
      for (size_t k = 0; k < us.size(); ++k) n.cells[k].use = uses[us[k]];
      one(n, true);
    });
  });
  // some connectors of a junction are footpaths
  junctions(2, 3, {Solid, Dashed}, false, [&](Net n) {
    for (unsigned sub = 0; sub < (1U << std::max(0, int(n.cells.size()) - 4)); ++sub) {
      for (size_t k = 4; k < n.cells.size(); ++k) n.cells[k].use = (sub >> (k - 4)) & 1 ? Walkway : Forward;
      one(n, true);
    }
  });
}
void r08(mc::Ctx& c) {
  for (bool mids : {false, true}) {
    auto f = [&](const Net& base) {
      for (unsigned fl : {0U, 0x15bU, 0xfffU}) {
        Net n = base;
        n.mids = mids;
        n.flips = fl;
        c.run([&] { return std::string("outlines of paths in ") + (mids ? "(three points per line) " : "") + n.show(); },
              [&] {
                c.state(n.show());
                checkOutline(c, n, c.quick ? 5 : 7);
              });
      }
      // the same with areas that lack a corner
      for (size_t i = 0; i < base.areas.size(); ++i) {
        for (size_t k = 0; k < base.areas[i].size(); ++k) {
          Net n = base;
          n.mids = mids;
          n.areas[i].erase(n.areas[i].begin() + long(k));
          std::vector<Net> variants{n};
          for (size_t j = i + 1; j < base.areas.size(); ++j) {
            for (size_t m = 0; m < base.areas[j].size(); ++m) {
              variants.push_back(n);
              variants.back().areas[j].erase(variants.back().areas[j].begin() + long(m));
            }
          }
          for (auto& v : variants) {
            c.run([&] { return std::string("outlines of paths in ") + (mids ? "(three points per line) " : "") + v.show(); },
                  [&] {
                    c.state(v.show());
                    checkOutline(c, v, c.quick ? 4 : 6);
                  });
          }
        }
      }
    };
    areaMaps({Solid}, {0, 1, 2, 3, 4, 6}, {0}, 2, 2, f);
    areaMaps({Solid}, {1, 2, 6}, {0}, 3, c.quick ? 1 : 2, f);
    areaMaps({Solid}, {1, 2, 3, 6}, {0}, 4, 1, f);
    junctions(2, 3, {Solid}, false, f);
  }
}
void r09(mc::Ctx& c) {
  const int speeds[] = {0, 36, 72};
  auto f = [&](const Net& base) {
    for (int s = 0; s < (c.quick ? 3 : 9); ++s) {
      Net n = base;
      for (size_t k = 0; k < n.cells.size(); ++k) n.cells[k].speed = speeds[s < 3 ? (k * 2 + size_t(s)) % 3 : (k * k + k / 2 + size_t(s)) % 3];
      c.run([&] { return "costs of " + n.show(); },
            [&] {
              World w(n, {10, 11, 12, 13});
              c.state(n.show());
              checkRelations(c, w);
              checkSearch(c, w, false);
            });
    }
  };
  grids(1, 3, AllUses, {Solid}, {0, 0x2b}, false, f);
  grids(2, 2, {Absent, Forward, Both}, {Solid, Dashed, ToLeft}, {0x15}, false, f);
  grids(2, 3, Presence, LaneMarks, {0x15}, false, f);
  grids(3, 2, Presence, {Solid, Dashed, ToLeft}, {0x6}, false, f);
  junctions(2, 3, LaneMarks, false, f);
  if (!c.quick) {
    grids(2, 4, Presence, LaneMarks, {0x15}, false, f);
    junctions(2, 5, {Solid, Dashed}, false, f);
  }
  c.run([] { return std::string("negative costs"); },
        [&] {
          for (int k = 0; k < 2; ++k) {
            bool threw = false;
            try {
              k ? (void)RoutingCostTravelTime(-1.) : (void)RoutingCostDistance(-1.);
            } catch (const InvalidInputError&) {
              threw = true;
            }
            MC_REQUIRE(threw, "negative", "negative lane change costs were accepted");
            k ? (void)RoutingCostTravelTime(0.) : (void)RoutingCostDistance(0.);  // free of cost is fine
          }
        });
}
void r10(mc::Ctx& c) {
  char tmp[] = "/tmp/ll2mc.r10XXXXXX";
  std::string dir = mkdtemp(tmp);
  auto both = [&](World& w) {
    checkShown(c, w, dir + "/graph");
    checkShownRoutes(c, w);
  };
  auto visit = [&](const Net& n) {
    c.run([&] { return "self portrait of " + n.show(); },
          [&] {
            World w(n, {0, 2});
            c.state(n.show());
            both(w);
          });
  };
  grids(1, 3, AllUses, {Solid}, {0, 0x2b}, false, visit);
  grids(3, 1, AllUses, LaneMarks, {0}, false, visit);
  grids(2, 2, {Absent, Forward, Both}, {Solid, Dashed, ToLeft}, {0x15}, false, visit);
  grids(2, 3, Presence, {Solid, Dashed}, {0x15}, false, visit);
  grids(2, 4, Presence, {Dashed}, {0}, true, visit);
  junctions(2, 3, LaneMarks, false, visit);
  oncoming(2, 2, {Solid, Dashed, ToRight}, visit);
  areaMaps({Solid, Dashed, ToLeft, ToRight}, {0, 1, 2, 3, 4, 5, 6, 7}, {0}, 2, 1, visit);
  if (!c.quick) {
    auto both2 = [&](World& w) { both(w); };
    sweep(c, {0, 2}, "self portrait", both2, 1);
    areaSweep(c, {0, 2}, "self portrait", both2, 1);
  }
  c.run([&] { return std::string("refused exports"); },
        [&] {
          World w(Grid{2, 2}.net(), {0, 2});
          checkShownErrors(c, w, dir);
        });
  boost::filesystem::remove_all(dir);
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv, {
    {"R01", r01, "every network of a family (rows and columns of cells absent, one way, both ways or not for vehicles; junctions with every set of connectors; cells that are areas), every marking; all relation queries of all elements", {}},
    {"R02", r02, "the same networks with user-defined costs, impossible transitions included; searches from every element in both directions, with every element at which the search is told to stop", {}},
    {"R03", r03, "the same networks; all sequences of up to four points", {}},
    {"R04", r04, "the same networks; limits at, below and above every reachable cost, and all numbers of elements", {}},
    {"R05", r05, "the same networks; routes between all elements, through every third one, and circular ones", {}},
    {"R06", r06, "sets of two and three crossing lanelets and areas on four levels, four heights of the participant", {}},
    {"R07", r07, "two graphs (car, pedestrian) of crossing lanelets on four levels and of junctions with all assignments of connectors; four heights, all lanelets, all routes", {}},
    {"R08", r08, "all paths over elements with common borders in maps of lanelets and areas, up to a length; all lanelet paths up to three", {}},
    {"R09", r09, "networks with all markings; distance and travel time costs with and without a minimum for lane changes", {}},
    {"R10", r10, "networks with all markings; debug maps with every choice of relations and exports without every group of relations, of every module; debug maps of all routes; files that cannot be written", {}},
  });
}
