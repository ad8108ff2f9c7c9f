#include <fstream>
// C08 id generation under every interleaving, C09 concurrent reads under every interleaving.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/utility/Units.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingCost.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include <algorithm>

#include "mc.hpp"
#include "mcrt.hpp"
using namespace lanelet;

namespace {
// ------------------------------------------------------------------ C08
struct IdOp {
  int kind;  // 0 getId, 1 registerId(base+k), 2 add a point without id to an own map, 3 add a point with id base+k to an own map, 4 own layer's uniqueId()
  int k;
};
std::string name(IdOp o) {
  auto b = "base" + std::string(o.k < 0 ? "" : "+") + std::to_string(o.k);
  switch (o.kind) {
    case 0: return "getId()";
    case 1: return "registerId(" + b + ")";
    case 2: return "own map: add a line string without ids";
    case 3: return "own map: add point " + b;
    default: return "own map: uniqueId()";
  }
}
struct Ev {
  IdOp op;
  std::uint64_t start, end;
  Id res{InvalId}, res2{InvalId};
};
void c08(mc::Ctx& c) {
  std::vector<IdOp> ops{{0, 0}, {1, 0}, {1, 1}, {1, 3}, {1, -1}, {2, 0}, {3, 2}, {4, 0}};
  if (!c.quick) ops.push_back({1, 2});
  const int R = int(ops.size());
  std::set<std::string> orders;
  auto runCase = [&](const std::vector<std::vector<IdOp>>& prog) {
    auto desc = [&] {
      std::string d;
      for (auto& t : prog) {
        d += d.empty() ? "" : " || ";
        for (size_t i = 0; i < t.size(); ++i) d += (i != 0 ? "; " : "") + name(t[i]);
      }
      return d;
    };
    c.run(desc, [&] {
      std::vector<std::vector<Ev>> ev;
      Id base = 0;
      mcrt::Program p;
      p.make = [&] {
        base = utils::getId() + 1;
        ev.assign(prog.size(), {});
        std::vector<std::function<void()>> b;
        for (size_t t = 0; t < prog.size(); ++t) {
          ev[t].resize(prog[t].size());
          auto* out = &ev[t];
          auto todo = prog[t];
          Id bs = base;
          b.push_back([out, todo, bs] {
            LaneletMap own;
            for (size_t i = 0; i < todo.size(); ++i) {
              Ev e{todo[i], mcrt::tick(), 0};
              switch (todo[i].kind) {
                case 0: e.res = utils::getId(); break;
                case 1: utils::registerId(bs + todo[i].k); break;
                case 2: {
                  LineString3d ls(InvalId, {Point3d(InvalId, 0, 0, 0)});
                  own.add(ls);
                  e.res = ls.id();
                  e.res2 = ls.front().id();
                  break;
                }
                case 3: own.add(Point3d(bs + todo[i].k, 0, 0, 0)); break;
                default: e.res = own.pointLayer.uniqueId();
              }
              e.end = mcrt::tick();
              (*out)[i] = e;
            }
          });
        }
        return b;
      };
      p.check = [&]() -> std::string {
        std::map<Id, const Ev*> given;
        Id maxId = 0;
        std::string order;
        for (auto& t : ev) {
          for (auto& e : t) {
            for (Id r : {e.res, e.res2}) {
              if (r == InvalId) continue;
              maxId = std::max(maxId, r);
              if (!given.emplace(r, &e).second) return "id base+" + std::to_string(r - base) + " is given out twice";
              order += std::to_string(r - base) + ",";
            }
            if (e.op.kind == 0 || e.op.kind == 2 || e.op.kind == 4) {
              if (e.res == InvalId || (e.op.kind == 2 && e.res2 == InvalId)) return "no id is given out";
            }
          }
        }
        c.outcome(order);
        for (auto& t : ev) {
          for (auto& e : t) {
            if (e.op.kind != 1 && e.op.kind != 3) continue;
            Id x = base + e.op.k;
            maxId = std::max(maxId, x);
            auto it = given.find(x);
            if (it != given.end() && it->second->start > e.end) return "id base+" + std::to_string(e.op.k) + " is given out although it was registered before";
          }
        }
        Id next = utils::getId();
        if (given.count(next) != 0) return "getId() afterwards returns an id again";
        for (auto& t : ev) {
          for (auto& e : t) {
            if ((e.op.kind == 1 || e.op.kind == 3) && base + e.op.k == next) return "getId() afterwards returns a registered id";
          }
        }
        for (Id k = 0; k < 6; ++k) {  // nor does any of the following calls
          next = utils::getId();
          for (auto& t : ev) {
            for (auto& e : t) {
              if ((e.op.kind == 1 || e.op.kind == 3) && base + e.op.k == next) return "getId() afterwards returns a registered id";
            }
          }
          if (given.count(next) != 0) return "getId() afterwards returns an id again";
        }
        return "";
      };
      mcrt::Options o;
      o.preemptions = prog.size() > 2 ? (c.quick ? 2 : 4) : (c.quick ? 4 : 12);
      o.pointsAtRmw = true;
      mcrt::Stats s;
      auto r = mcrt::explore(p, o, s, [&] { c.step(0); });
      c.step(s.points);
      c.states += s.schedules;
      c.count("schedules", s.schedules);
      c.count("switches", s.switches);
      c.count("accesses_checked", s.accesses);
      MC_REQUIRE(r.kind.empty(), "ids-" + r.kind, r.what << "; schedule " << r.schedule);
      MC_REQUIRE(!s.truncated, "schedules-truncated", "more schedules than expected");
    });
  };
  auto all = [&](int len) {
    std::vector<std::vector<IdOp>> r;
    mc::forSequences(R, len, [&](const std::vector<int>& v) {
      std::vector<IdOp> s;
      for (int i : v) s.push_back(ops[size_t(i)]);
      r.push_back(s);
    });
    return r;
  };
  auto one = all(1), two = all(2);
  for (auto& a : one) for (auto& b : one) runCase({a, b});
  for (auto& a : two) for (auto& b : one) runCase({a, b});
  for (size_t i = 0; i < one.size(); ++i) for (size_t j = i; j < one.size(); ++j) for (size_t k = j; k < one.size(); ++k) runCase({one[i], one[j], one[k]});
  for (size_t i = 0; i < two.size(); ++i) {
    for (size_t j = i; j < two.size(); ++j) {
      runCase({two[i], two[j]});
    }
  }
  if (!c.quick) {
    for (auto& a : two) for (auto& b : one) for (auto& d : one) runCase({a, b, d});
  }
}

// ------------------------------------------------------------------ C09
struct World {
  AttributeMap attrs;
  std::vector<Point3d> pts;
  LineString3d left, right, far;
  Lanelet a, b;
  WeakLanelet weak;
  std::shared_ptr<LaneletSequence> seq;
  Area area;
  std::shared_ptr<SpeedLimit> sl;
  RegulatoryElementPtr tl;
  LaneletMapPtr map;
  std::vector<Lanelet> handle;
};
std::shared_ptr<World> makeWorld() {
  auto w = std::make_shared<World>();
  w->attrs["int"] = Attribute("5");
  w->attrs["double"] = Attribute("2.5");
  w->attrs["bool"] = Attribute("true");
  w->attrs["speed"] = Attribute("50 km/h");
  w->attrs["text"] = Attribute("no number");
  w->attrs["set"] = 17;
  Id id = 1;
  auto line = [&](std::vector<std::array<double, 2>> c) {
    Points3d p;
    for (auto& x : c) {
      p.emplace_back(id++, x[0], x[1], 0);
      w->pts.push_back(p.back());
    }
    return LineString3d(id++, p, AttributeMap{{"type", "line_thin"}, {"subtype", "dashed"}});
  };
  w->left = line({{0, 2}, {5, 2}});
  w->right = line({{0, 0}, {5, 0}});
  w->far = line({{0, 5}, {5, 5}});
  AttributeMap la{{"type", "lanelet"}, {"subtype", "road"}, {"location", "urban"}, {"participant:vehicle", "yes"}, {"one_way", "yes"}};
  w->a = Lanelet(id++, w->left, w->right, la);
  w->b = Lanelet(id++, w->far, w->left, la);
  w->sl = SpeedLimit::make(id++, AttributeMap{}, std::string("30 km/h"));
  w->a.addRegulatoryElement(w->sl);
  w->tl = TrafficLight::make(id++, {}, {w->far}, w->right);
  w->b.addRegulatoryElement(w->tl);
  auto l1 = line({{5, 0}, {9, 0}}), l2 = line({{9, 0}, {9, 3}, {5, 0}});
  w->area = Area(id++, {l1, l2}, {}, AttributeMap{{"type", "multipolygon"}, {"subtype", "freespace"}});
  w->seq = std::make_shared<LaneletSequence>(ConstLanelets{w->a});
  w->weak = w->a;
  w->map = std::make_shared<LaneletMap>();
  w->map->add(w->a);
  w->map->add(w->b);
  w->map->add(w->area);
  Lanelet own(id++, w->left, w->far);
  w->handle = {own, own};
  return w;
}
std::string str(double d) {
  std::ostringstream o;
  o << d;
  return o.str();
}
template <typename T>
std::string opt(const T& o) {
  return !!o ? "yes" : "no";
}
template <typename L>
std::string coords(const L& l) {
  std::ostringstream o;
  for (auto& p : l) o << p.x() << "," << p.y() << ";";
  return o.str();
}
struct RoutingWorld {
  std::shared_ptr<World> w;
  traffic_rules::TrafficRulesPtr rules;
  routing::RoutingGraphPtr graph;
  std::shared_ptr<routing::Route> route;
};
struct ROp {
  std::string name;
  std::function<std::string(const std::shared_ptr<World>&, const traffic_rules::TrafficRules*, const routing::RoutingGraph*, const routing::Route*, int)> f;
  int group;  // 0 data, 1 map, 2 rules, 3 routing, 4 writes to something of its own, 5 moved points
};
#define RO(group, text, expr)                                                                                       \
  o.push_back({text,                                                                                                \
               [](const std::shared_ptr<World>& w, const traffic_rules::TrafficRules* tr, const routing::RoutingGraph* rg, \
                  const routing::Route* rt, int thread) -> std::string {                                            \
                 (void)w, (void)tr, (void)rg, (void)rt, (void)thread;                                               \
                 const AttributeMap& at = w->attrs;                                                                 \
                 const ConstLanelet a = w->a, b = w->b;                                                             \
                 const LaneletMap& map = *w->map;                                                                   \
                 const ConstLineString3d left = w->left;                                                            \
                 (void)at, (void)map, (void)left;                                                                   \
                 expr;                                                                                              \
               },                                                                                                   \
               group})
std::vector<ROp> readOps() {
  std::vector<ROp> o;
  RO(0, "asInt", return str(*at.at("int").asInt()));
  RO(0, "asId", return str(double(*at.at("int").asId())));
  RO(0, "asDouble of int", return str(*at.at("int").asDouble()));
  RO(0, "asDouble", return str(*at.at("double").asDouble()));
  RO(0, "asBool", return opt(at.at("bool").asBool()) + (at.at("bool").asBool().get() ? "t" : "f"));
  RO(0, "asVelocity", return str(units::KmHQuantity(*at.at("speed").asVelocity()).value()));
  RO(0, "asInt of text", return opt(at.at("text").asInt()));
  RO(0, "as of a set value", return str(*at.at("set").as<int>()) + *at.at("set").as<std::string>());
  RO(0, "attributeOr", return str(a.attributeOr("int", 3)) + a.attributeOr("subtype", std::string("?")));
  RO(0, "copy an attribute", Attribute c = at.at("int"); Attribute d; d = at.at("int"); return c.value() + d.value() + str(*c.asDouble()));
  RO(0, "copy the attributes", AttributeMap c = at; return c.at("int").value() + str(double(c.size())));
  RO(0, "compare attributes", AttributeMap c = at; return c == at ? "same" : "different");
  RO(0, "centerline", return coords(utils::to2D(a.centerline())));
  RO(0, "centerline2d", return coords(a.centerline2d()));
  RO(0, "inverted centerline", return coords(utils::to2D(a.invert().centerline())));
  RO(0, "hasCustomCenterline", return a.hasCustomCenterline() ? "custom" : "computed");
  RO(0, "bounds", return str(double(a.leftBound().id())) + str(double(a.invert().leftBound().id())));
  RO(0, "polygon", return coords(a.polygon2d()));
  RO(0, "inside", return geometry::inside(a, BasicPoint2d(1, 1)) ? "in" : "out");
  RO(0, "length", return str(geometry::length2d(a)) + str(geometry::approximatedLength2d(a)) + str(geometry::distanceToCenterline2d(a, BasicPoint2d(1, 0))));
  RO(0, "relations", return geometry::leftOf(b, a) ? "l" : geometry::follows(a, b) ? "f" : "-");
  RO(0, "overlap", return geometry::overlaps2d(a, b) ? "o" : "-");
  RO(0, "sequence centerline", return coords(utils::to2D(w->seq->centerline())));
  RO(0, "sequence polygon", return coords(w->seq->polygon2d()));
  RO(0, "sequence bounds", return str(double(w->seq->leftBound().size())) + str(double(w->seq->regulatoryElements().size())));
  RO(0, "line string", return coords(utils::to2D(left)) + str(geometry::length(left)));
  RO(0, "projection", return str(geometry::toArcCoordinates(utils::to2D(left), BasicPoint2d(2, 3)).distance));
  RO(0, "inverted line string", return coords(utils::to2D(left.invert())) + str(double(left.invert().front().id())));
  RO(0, "hybrid line", return coords(utils::toHybrid(utils::to2D(left))));
  RO(0, "area", ConstArea ar = w->area; return coords(utils::to2D(ar.outerBoundPolygon())) + (geometry::inside(ar, BasicPoint2d(8, 1)) ? "in" : "out"));
  RO(0, "weak lock", return w->weak.expired() ? "expired" : coords(utils::to2D(w->weak.lock().centerline())));
  RO(0, "regulatory elements", return str(double(a.regulatoryElements().size())) + str(double(a.regulatoryElementsAs<SpeedLimit>().size())));
  RO(0, "traffic light", auto l = b.regulatoryElementsAs<TrafficLight>(); return str(double(l.front()->trafficLights().size())) + opt(l.front()->stopLine()));
  RO(0, "speed limit sign", auto l = a.regulatoryElementsAs<SpeedLimit>(); return l.front()->type() + str(double(l.front()->getParameters().size())));
  RO(0, "drop a handle", w->handle[size_t(thread)] = Lanelet(); return "ok");
  RO(0, "compare and hash lanelets", return std::to_string(a == b) + std::to_string(std::hash<ConstLanelet>()(a) == std::hash<ConstLanelet>()(a)));
  RO(1, "find in map", return opt(map.laneletLayer.exists(a.id())) + str(double(map.laneletLayer.get(a.id()).id())) + str(double(map.pointLayer.find(1)->id())));
  RO(1, "search", return str(double(map.laneletLayer.search(geometry::boundingBox2d(a)).size())) + str(double(map.areaLayer.search(geometry::boundingBox2d(a)).size())));
  RO(1, "nearest", return str(double(map.laneletLayer.nearest(BasicPoint2d(0, 9), 1).front().id())) + str(double(map.pointLayer.nearest(BasicPoint2d(0, 9), 2).size())));
  RO(1, "findNearest", return str(geometry::findNearest(map.lineStringLayer, BasicPoint2d(3, 9), 1).front().first));
  RO(1, "usages", return str(double(map.laneletLayer.findUsages(left).size())) + str(double(map.lineStringLayer.findUsages(w->pts[0]).size())) + str(double(map.laneletLayer.findUsages(RegulatoryElementConstPtr(w->sl)).size())));
  RO(1, "iterate", double s = 0; for (auto l : map.lineStringLayer) s += double(l.id()); for (auto p : map.pointLayer) s += p.x(); return str(s));
  RO(1, "submap", auto m = utils::createConstMap({a}, {}); return str(double(m->size())));
  RO(2, "canPass", return tr->canPass(a) ? "y" : "n");
  RO(2, "canPass to area", return std::string(tr->canPass(a, ConstArea(w->area)) ? "y" : "n"));
  RO(2, "canChangeLane", return tr->canChangeLane(a, b) ? "y" : "n");
  RO(2, "speedLimit", auto s = tr->speedLimit(a); return str(units::KmHQuantity(s.speedLimit).value()) + str(s.isMandatory));
  RO(2, "speedLimit by default", auto s = tr->speedLimit(b); return str(units::KmHQuantity(s.speedLimit).value()) + str(s.isMandatory));
  RO(2, "isOneWay", return tr->isOneWay(a) ? "y" : "n");
  RO(2, "hasDynamicRules", return tr->hasDynamicRules(a) ? "y" : "n");
  RO(2, "make rules", auto r = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::Pedestrian); return r->canPass(a) ? "y" : "n");
  RO(3, "shortestPath", auto p = rg->shortestPath(a, b); return !!p ? str(double(p->size())) : "none");
  RO(3, "route", auto r = rg->getRoute(a, b, 0); return !!r ? str(double(r->size())) + str(r->length2d()) : "none");
  RO(3, "neighbours", return opt(rg->left(a)) + opt(rg->right(b)) + str(double(rg->besides(a).size())) + str(double(rg->following(a).size())));
  RO(3, "reachable", return str(double(rg->reachableSet(a, 100).size())) + str(double(rg->reachableSetTowards(b, 100).size())));
  RO(3, "possiblePaths", return str(double(rg->possiblePaths(a, 1.).size())));
  RO(3, "conflicting", return str(double(rg->conflicting(a).size())));
  RO(3, "relation", return opt(rg->routingRelation(a, b)));
  RO(3, "passable", return str(double(rg->passableSubmap()->laneletLayer.size())));
  RO(3, "debug map", return str(double(rg->getDebugLaneletMap(0)->lineStringLayer.size())));
  RO(3, "walk the route", return str(double(rt->fullLane(a).size())) + str(double(rt->remainingLane(a).size())) + str(double(rt->numLanes())) + opt(rt->leftRelation(a)) + str(double(rt->remainingShortestPath(a).size())));
  RO(3, "route conflicts", return str(double(rt->conflictingInMap(a).size())) + str(double(rt->laneletMap()->size())) + (rt->contains(b) ? "c" : "-"));
  RO(4, "an own lanelet with a shared bound",
     Lanelet own(utils::getId(), w->left, LineString3d(utils::getId(), {Point3d(utils::getId(), 0, 0, 0), Point3d(utils::getId(), 1, 0, 0)}));
     own.setAttribute("x", 5); own.setRightBound(w->right); auto c = coords(utils::to2D(own.centerline())); own.setCenterline(w->far);
     return c + coords(utils::to2D(own.invert().centerline())));
  RO(4, "an own map with shared primitives", LaneletMap own; own.add(w->a); own.add(w->area); return str(double(own.size())) + str(double(own.laneletLayer.findUsages(left).size())));
  RO(4, "an own copy of the attributes", AttributeMap c; c["int"] = at.at("int"); c["int"].setValue("7"); return str(*c["int"].asInt()));
  RO(4, "own routing graph", auto r = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::Vehicle);
     auto g = routing::RoutingGraph::build(map, *r); return str(double(g->following(a).size())) + opt(g->left(a)));
  RO(5, "2d coordinates", return coords(utils::to2D(left)));
  RO(5, "basicPoint2d", return str(ConstPoint3d(w->pts[0]).basicPoint2d().x()));
  return o;
}
void c09(mc::Ctx& c) {
  auto ops = readOps();
  auto makeRouting = [](const std::shared_ptr<World>& w) {
    RoutingWorld r;
    r.w = w;
    r.rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::Vehicle);
    r.graph = routing::RoutingGraph::build(*w->map, *r.rules);
    auto route = r.graph->getRoute(w->a, w->b);
    if (!!route) r.route = std::make_shared<routing::Route>(std::move(*route));
    return r;
  };
  auto moved = [](World& w) {
    for (auto& p : w.pts) p.x() += 1;
  };
  auto runCase = [&](const std::vector<std::vector<int>>& prog, int preempt) {
    auto desc = [&] {
      std::string d;
      for (auto& t : prog) {
        d += d.empty() ? "" : " || ";
        for (size_t i = 0; i < t.size(); ++i) d += (i != 0 ? "; " : "") + ops[size_t(t[i])].name;
      }
      return d + (ops[size_t(prog[0][0])].group == 5 ? " (points moved before)" : "");
    };
    c.run(desc, [&] {
      int maxGroup = 0;
      bool mv = false, routing = false;
      for (auto& t : prog) for (int i : t) mv |= ops[size_t(i)].group == 5, routing |= ops[size_t(i)].group == 3;
      RoutingWorld shared;
      auto world = [&] {
        auto w = makeWorld();
        if (mv) moved(*w);
        return w;
      };
      RoutingWorld rw;
      auto rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::Vehicle);
      // what each thread gets when it is alone
      std::vector<std::vector<std::string>> expect(prog.size()), got;
      for (int pass = 0; pass < 2; ++pass) {  // the first pass also initialises what is initialised once per process
        for (size_t t = 0; t < prog.size(); ++t) {
          auto w = world();
          RoutingWorld r;
          if (routing) r = makeRouting(w);
          expect[t].clear();
          for (int i : prog[t]) expect[t].push_back(ops[size_t(i)].f(w, rules.get(), r.graph.get(), r.route.get(), int(t)));
        }
      }
      mcrt::Program p;
      p.make = [&] {
        rw.w = world();
        if (routing) rw = makeRouting(rw.w);
        got.assign(prog.size(), {});
        std::vector<std::function<void()>> b;
        for (size_t t = 0; t < prog.size(); ++t) {
          got[t].resize(prog[t].size());
          b.push_back([&, t] {
            for (size_t i = 0; i < prog[t].size(); ++i) {
              got[t][i] = ops[size_t(prog[t][i])].f(rw.w, rules.get(), rw.graph.get(), rw.route.get(), int(t));
            }
          });
        }
        return b;
      };
      p.check = [&]() -> std::string {
        std::string h;
        for (size_t t = 0; t < prog.size(); ++t) {
          for (size_t i = 0; i < prog[t].size(); ++i) {
            h += got[t][i] + "|";
            if (got[t][i] != expect[t][i]) {
              return ops[size_t(prog[t][i])].name + " in thread " + std::to_string(t) + " returns " + got[t][i] + " instead of " + expect[t][i];
            }
          }
        }
        c.outcome(h);
        return "";
      };
      // the preemption bound grows as long as the next one is affordable; the predicted cost is a function of the program
      mcrt::Options o;
      mcrt::Stats s;
      mcrt::Report r;
      const double limit = c.quick ? 1.5e6 : 6e8;
      for (o.preemptions = 1;; ++o.preemptions) {
        s = mcrt::Stats();
        r = mcrt::explore(p, o, s, [&] { c.step(0); });
        if (!r.kind.empty() || s.truncated || o.preemptions >= preempt) break;
        if (double(s.accesses) * double(s.schedules) / (o.preemptions + 1) > limit) break;
      }
      c.count("cases_at_preemption_bound_" + std::to_string(o.preemptions), 1);
      c.step(s.points);
      c.states += s.schedules;
      c.count("schedules", s.schedules);
      c.count("switches", s.switches);
      c.count("accesses_checked", s.accesses);
      if (getenv("CONC_PROFILE") != nullptr) {
        std::ofstream("/tmp/conc_profile", std::ios::app) << s.schedules << "\t" << s.accesses << "\t" << s.points << "\t" << desc() << "\n";
      }
      // the same race seen from different points of a schedule is one finding
      MC_REQUIRE(r.kind.empty(), "concurrent-" + r.kind, r.what << "; schedule " << r.schedule);
      MC_REQUIRE(!s.truncated, "schedules-truncated", "more schedules than expected");
      (void)maxGroup;
    });
  };
  const int n = int(ops.size());
  for (int i = 0; i < n; ++i) {
    for (int j = i; j < n; ++j) {
      if ((ops[size_t(i)].group == 5) != (ops[size_t(j)].group == 5)) continue;
      // routing worlds are expensive; their reads meet each other and a few of the others
      bool heavy = ops[size_t(i)].group == 3 || ops[size_t(j)].group == 3;
      if (c.quick && heavy && ops[size_t(i)].group != 3 && ops[size_t(i)].name != "centerline" && ops[size_t(i)].name != "copy the attributes") continue;
      runCase({{i}, {j}}, c.quick ? 2 : heavy ? 2 : 4);
    }
  }
  if (!c.quick) {
    for (int i = 0; i < n; ++i) {
      for (int j = i; j < n; ++j) {
        for (int k = j; k < n; ++k) {
          bool ok = true;
          for (int x : {i, j, k}) ok &= ops[size_t(x)].group == 0 || ops[size_t(x)].group == 2;
          if (ok) runCase({{i}, {j}, {k}}, 2);
        }
      }
    }
    for (int i = 0; i < n; ++i) {
      for (int k = 0; k < n; ++k) {
        for (int j = 0; j < n; ++j) {
          bool ok = true;
          for (int x : {i, j, k}) ok &= ops[size_t(x)].group == 0;
          if (ok) runCase({{i, k}, {j}}, 2);
        }
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(
      argc, argv,
      {{"C08", c08,
        "All programs of two threads with one or two id operations and of three threads with one, under every schedule at atomic "
        "operations (read-modify-write included, weak compare-exchange may fail spuriously) up to the preemption bound, on the real code. "
        "A state is one complete schedule.",
        {"sequentially consistent atomics; weaker orders only enter through the race detector"}},
       {"C09", c09,
        "Every pair of const operations from a catalogue over attributes, primitives, geometry, map, traffic rules and routing (and of these "
        "with operations on own objects that share primitives) on a cold object graph, under every schedule at synchronisation operations "
        "up to the preemption bound, on the real code with a vector clock race and use-after-free detector; results have to equal "
        "those of a thread that is alone. A state is one complete schedule.",
        {"accesses inside libstdc++.so are not seen", "reference count increments and decrements are no preemption points (the race "
         "detector covers their orders)"}}});
}
