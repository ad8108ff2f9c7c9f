// V01, V02: the map checks against their specification, and the machinery that runs them.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/Polygon.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_core/utility/Units.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_projection/UTM.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_validation/Cli.h>
#include <lanelet2_validation/Validation.h>
#include <lanelet2_validation/ValidatorFactory.h>

#include "geo.hpp"
using namespace lanelet::validation;

namespace {
using Sev = validation::Severity;
using Prim = validation::Primitive;
//! check, severity, kind of primitive, id
using Key = std::tuple<std::string, Sev, Prim, Id>;
using Keys = std::multiset<Key>;
std::string show(const Keys& k) {
  std::string s;
  for (auto& x : k) s += " [" + std::get<0>(x) + " " + toString(std::get<1>(x)) + " " + toString(std::get<2>(x)) + " " + std::to_string(std::get<3>(x)) + "]";
  return s.empty() ? " nothing" : s;
}
Keys found(LaneletMap& map, const std::string& filter) {
  ValidationConfig cfg;
  cfg.checksFilter = filter;
  Keys k;
  for (auto& d : validateMap(map, cfg)) {
    for (auto& i : d.issues) k.insert(Key(d.checkName, i.severity, i.primitive, i.id));
  }
  return k;
}
void expectIssues(LaneletMap& map, const std::string& filter, const Keys& want) {
  auto have = found(map, filter);
  MC_REQUIRE(have == want, "issues", "reported:" + show(have) + "; but the map has:" + show(want));
}

// ---- duplicated points
void duplicates(mc::Ctx& c) {
  std::vector<std::vector<int>> seqs{{}};
  const int maxLen = c.quick ? 4 : 5;
  for (size_t b = 0; b < seqs.size(); ++b) {
    if (int(seqs[b].size()) == maxLen) continue;
    for (int p = 0; p < 3; ++p) {
      auto s = seqs[b];
      s.push_back(p);
      seqs.push_back(s);
    }
  }
  auto repeats = [](const std::vector<int>& s) {
    for (size_t i = 1; i < s.size(); ++i) {
      if (s[i] == s[i - 1]) return true;
    }
    return false;
  };
  for (size_t a = 0; a < seqs.size(); ++a) {
    for (size_t b = 0; b < seqs.size(); ++b) {
      // whether a ring that repeats its first point at its end repeats it "in succession" is left open
      if (seqs[b].size() > 1 && seqs[b].front() == seqs[b].back() && !repeats(seqs[b])) continue;
      c.run(
          [&] {
            std::string s = "duplicates: line";
            for (int p : seqs[a]) s += " " + std::to_string(p);
            s += ", polygon";
            for (int p : seqs[b]) s += " " + std::to_string(p);
            return s;
          },
          [&] {
            // 0 and 1 are at the same place, but different points
            Points3d p{Point3d(1, 0, 0, 0), Point3d(2, 0, 0, 0), Point3d(3, 5, 0, 0)};
            Points3d lp, pp;
            for (int i : seqs[a]) lp.push_back(p[size_t(i)]);
            for (int i : seqs[b]) pp.push_back(p[size_t(i)]);
            LaneletMap map;
            LineString3d ls(10, lp), clean(11, {p[1], p[2], p[0]});
            Polygon3d poly(20, pp), cleanPoly(21, {p[1], p[2], p[0]});
            map.add(clean);
            map.add(cleanPoly);
            map.add(ls.invert());
            map.add(poly);
            Keys want;
            if (repeats(seqs[a])) want.insert(Key("mapping.duplicated_points", Sev::Error, Prim::LineString, 10));
            if (repeats(seqs[b])) want.insert(Key("mapping.duplicated_points", Sev::Error, Prim::Polygon, 20));
            c.step();
            expectIssues(map, "mapping.duplicated_points", want);
            c.outcome(std::to_string(want.size()));
          });
    }
  }
}

// ---- points too close
void closePoints(mc::Ctx& c) {
  std::vector<V> places;
  for (double z : {0., .039, 5.}) {
    for (double y : {0., .041}) {
      for (double x : {0., .03, .06, 1.}) places.push_back({x, y, z});
    }
  }
  const int n = int(places.size());
  std::vector<std::vector<int>> sets{{}};
  for (size_t b = 0; b < sets.size(); ++b) {
    if (int(sets[b].size()) == (c.quick ? 4 : 5)) continue;
    for (int p = sets[b].empty() ? 0 : sets[b].back(); p < n; ++p) {
      auto s = sets[b];
      s.push_back(p);
      sets.push_back(s);
    }
  }
  for (auto& set : sets) {
    c.run(
        [&] {
          std::string s = "close points:";
          for (int p : set) s += " (" + std::to_string(places[size_t(p)].x) + "," + std::to_string(places[size_t(p)].y) + "," + std::to_string(places[size_t(p)].z) + ")";
          return s;
        },
        [&] {
          for (double base : {0., -300.25}) {
            LaneletMap map;
            for (size_t i = 0; i < set.size(); ++i) {
              auto& p = places[size_t(set[i])];
              map.add(Point3d(Id(100 + i), base + p.x, 2 * base + p.y, p.z));
            }
            Keys want;
            for (size_t i = 0; i < set.size(); ++i) {
              bool close = false;
              for (size_t k = 0; k < set.size(); ++k) close |= k != i && norm(places[size_t(set[i])] - places[size_t(set[k])]) < .05;
              if (close) want.insert(Key("mapping.points_too_close", Sev::Warning, Prim::Point, Id(100 + i)));
            }
            c.step();
            expectIssues(map, "mapping.points_too_close", want);
            c.outcome(std::to_string(want.size()));
          }
        });
  }
}

// ---- curvature
double curvature(const V& a, const V& b, const V& d) {
  double s = norm(b - a) * norm(d - a) * norm(d - b);
  return s < 1e-20 ? 1e300 : std::fabs(2 * crossZ(b - a, d - a)) / s;
}
void curvatures(mc::Ctx& c) {
  const std::vector<V> at{{0, 0, 0}, {2, 0, 0}, {4, 1, 1}, {4, 6, 0}, {2, 0, 3}, {9, 2, 0}};
  const int n = int(at.size());
  std::vector<std::vector<int>> bounds;
  std::function<void(std::vector<int>, int)> build = [&](std::vector<int> s, int len) {
    if (int(s.size()) == len) {
      bounds.push_back(s);
      return;
    }
    for (int p = 0; p < n; ++p) {
      auto t = s;
      t.push_back(p);
      build(t, len);
    }
  };
  build({}, 2);
  build({}, 3);
  build({}, 4);
  if (!c.quick) build({}, 5);
  for (auto& b : bounds) {
    std::vector<double> k;
    bool open = false;
    for (size_t i = 1; i + 1 < b.size(); ++i) {
      k.push_back(curvature(flat({at[size_t(b[i - 1])]})[0], flat({at[size_t(b[i])]})[0], flat({at[size_t(b[i + 1])]})[0]));
      open |= std::fabs(k.back() - .5) < 1e-6;
    }
    if (open) continue;
    c.run(
        [&] {
          std::string s = "curvature:";
          for (int p : b) s += " " + std::to_string(p);
          return s;
        },
        [&] {
          for (int role = 0; role < 8; ++role) {  // bit 0: it is the right bound, bit 1: stored backwards, bit 2: shared by two lanelets
            Points3d ps;
            for (size_t i = 0; i < b.size(); ++i) {
              auto& p = at[size_t(b[i])];
              ps.push_back(Point3d(Id(100 + i), p.x, p.y, p.z));
            }
            if (role & 2) std::reverse(ps.begin(), ps.end());
            LineString3d line(1, ps);
            if (role & 2) line = line.invert();
            LineString3d other(2, {Point3d(200, 0, 40, 0), Point3d(201, 20, 40, 0), Point3d(202, 40, 41, 0)});
            LineString3d third(3, {Point3d(300, 0, -40, 0), Point3d(301, 20, -40, 0)});
            Lanelet ll(50, role & 1 ? other : line, role & 1 ? line : other), ll2(51, role & 1 ? line : third, role & 1 ? third : line);
            LaneletMap map;
            map.add(ll);
            if (role & 4) map.add(ll2);
            map.add(LineString3d(4, {Point3d(400, 0, 0, 0), Point3d(401, .1, 0, 0), Point3d(402, .1, .1, 0)}));  // belongs to no lanelet
            Keys want;
            for (double x : k) {
              if (x < .5) continue;
              want.insert(Key("mapping.curvature_too_big", Sev::Warning, Prim::Lanelet, 50));
              if (role & 4) want.insert(Key("mapping.curvature_too_big", Sev::Warning, Prim::Lanelet, 51));
            }
            c.step();
            expectIssues(map, "mapping.curvature_too_big", want);
            c.outcome(std::to_string(want.size()));
          }
        });
  }
}

// ---- tags
using Tag = std::pair<std::string, std::string>;
struct Extra {
  Tag tag;
  bool known, isBool;
};
struct Kind {
  Prim prim;
  std::vector<std::string> types, subtypes, locations;  // documented values, "" is absent, a value with "?" is not documented
  std::map<std::string, std::vector<std::string>> subtypesOf;  // per type, if the subtypes depend on it
  std::vector<std::string> mandatory;
  std::vector<Extra> extras;
  bool checksBool;
};
std::vector<Extra> boolExtras(const std::vector<std::string>& names, bool thorough) {
  std::vector<Extra> e;
  for (auto& n : names) {
    for (auto v : {"yes", "no", "true", "false", "maybe", ""}) {
      bool ok = v == std::string("yes") || v == std::string("no") || v == std::string("true") || v == std::string("false");
      e.push_back({{n, v}, true, !ok});
      (void)thorough;
    }
  }
  return e;
}
std::vector<Kind> kinds(bool thorough) {
  std::vector<Kind> r;
  auto add = [](std::vector<Extra> a, const std::vector<Extra>& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  };
  const std::vector<Extra> foreign{{{"foo", "bar"}, false, false}, {{"my_type", "bar"}, false, false}, {{"Type", "bar"}, false, false}};
  std::vector<std::string> line{"dashed", "dashed_solid", "solid", "solid_dashed", "solid_solid"};
  r.push_back({Prim::Point, {"", "dot", "end", "pole", "?"}, {""}, {""}, {}, {}, add(foreign, {{{"ele", "3.2"}, true, false}, {{"subtype", "?"}, true, false}}), false});
  r.push_back({Prim::LineString,
               {"", "line_thin", "line_thick", "curbstone", "virtual", "road_border", "guard_rail", "wall", "fence", "zebra_marking", "pedestrian_marking", "bike_marking", "keepout", "jersey_barrier", "gate", "door",
                "rail", "arrow", "stop_line", "zig-zag", "lift_gate", "bump", "traffic_sign", "traffic_light", "?"},
               {"", "dashed", "dashed_solid", "solid", "solid_dashed", "solid_solid", "high", "low", "left", "right", "straight", "straight_left", "straight_right", "left_right", "red_yellow_green", "red_yellow", "red", "de206", "?"},
               {""},
               {{"line_thin", line},
                {"line_thick", line},
                {"curbstone", {"high", "low"}},
                {"arrow", {"left", "right", "straight", "straight_left", "straight_right", "left_right"}},
                {"traffic_light", {"red_yellow_green", "red_yellow", "red"}}},
               {"type"},
               add(add(foreign, {{{"width", "0.2"}, true, false}, {{"height", "1"}, true, false}, {{"color", "yellow"}, true, false}, {{"one_ways", "yes"}, false, false}}),
                   boolExtras({"lane_change", "lane_change:left", "lane_change:right", "temporary"}, thorough)),
               true});
  std::vector<std::string> use{"vehicle", "vehicle:car", "vehicle:car:electric", "vehicle:car:combustion", "vehicle:bus", "vehicle:truck", "vehicle:motorcycle", "vehicle:taxi", "vehicle:emergency", "pedestrian", "bicycle"};
  std::vector<std::string> forLanelet, forArea;
  for (auto& u : use) {
    forLanelet.push_back("participant:" + u);
    forLanelet.push_back("one_way:" + u);
    forLanelet.push_back("speed_limit_mandatory:" + u);
    forArea.push_back("participant:" + u);
  }
  forLanelet.push_back("one_way");
  forLanelet.push_back("speed_limit_mandatory");
  forArea.push_back("speed_limit_mandatory");
  std::vector<Extra> road{{{"speed_limit", "5 km/h"}, true, false}, {{"speed_limit:vehicle:car", "5 km/h"}, true, false}, {{"region", "de"}, true, false}, {{"road_name", "x"}, true, false}, {{"road_surface", "dirt"}, true, false}};
  r.push_back({Prim::Lanelet,
               {"", "lanelet", "?"},
               {"", "road", "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit", "walkway", "shared_walkway", "crosswalk", "stairs", "?"},
               {"", "urban", "nonurban", "?"},
               {},
               {"type", "subtype", "location"},
               add(add(foreign, road), boolExtras(forLanelet, thorough)),
               true});
  r.push_back({Prim::Area,
               {"", "multipolygon", "?"},
               {"", "road", "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit", "walkway", "shared_walkway", "crosswalk", "stairs", "parking", "freespace", "vegetation", "keepout", "building",
                "traffic_island", "?"},
               {"", "urban", "nonurban", "?"},
               {},
               {"type", "subtype", "location"},
               add(add(foreign, road), boolExtras(forArea, thorough)),
               true});
  r.push_back({Prim::RegulatoryElement,
               {"", "regulatory_element", "?"},
               {"", "traffic_sign", "traffic_light", "speed_limit", "right_of_way", "all_way_stop", "my_own"},
               {""},
               {},
               {"type", "subtype"},
               add(add(foreign, {{{"sign_type", "de274"}, true, false}}), boolExtras({"dynamic", "fallback"}, thorough)),
               true});
  return r;
}
const char* filterAll() { return "mapping.bool_tags,mapping.mandatory_tags,mapping.unknown_tags,mapping.unknown_tag_value"; }
void tags(mc::Ctx& c) {
  for (auto& k : kinds(!c.quick)) {
    std::vector<std::vector<int>> extraSets{{}};
    const int n = int(k.extras.size());
    for (int a = 0; a < n; ++a) {
      extraSets.push_back({a});
      for (int b = a + 1; b < n; ++b) {
        if (k.extras[size_t(a)].tag.first != k.extras[size_t(b)].tag.first && (!c.quick || (a + b) % 7 == 0)) extraSets.push_back({a, b});
      }
    }
    for (auto& type : k.types) {
      for (auto& sub : k.subtypes) {
        for (auto& loc : k.locations) {
          for (auto& es : extraSets) {
            if (es.size() == 2 && (type != k.types[1] || (loc != k.locations.back()))) continue;
            c.run(
                [&] {
                  std::string s = std::string("tags: ") + toString(k.prim) + " type=" + type + " subtype=" + sub + " location=" + loc;
                  for (int e : es) s += " " + k.extras[size_t(e)].tag.first + "=" + k.extras[size_t(e)].tag.second;
                  return s;
                },
                [&] {
                  AttributeMap attrs;
                  if (!type.empty()) attrs["type"] = type;
                  if (!sub.empty()) attrs["subtype"] = sub;
                  if (!loc.empty()) attrs["location"] = loc;
                  Id id = 77;
                  Keys want;
                  for (auto& m : k.mandatory) {
                    if ((m == "type" && type.empty()) || (m == "subtype" && sub.empty()) || (m == "location" && loc.empty())) want.insert(Key("mapping.mandatory_tags", Sev::Warning, k.prim, id));
                  }
                  if (type == "?") want.insert(Key("mapping.unknown_tag_value", Sev::Warning, k.prim, id));
                  if (loc == "?") want.insert(Key("mapping.unknown_tag_value", Sev::Warning, k.prim, id));
                  bool subOpen = false;
                  if (!sub.empty()) {
                    if (k.prim == Prim::LineString) {
                      auto of = k.subtypesOf.find(type);
                      if (of == k.subtypesOf.end()) {
                        subOpen = true;  // the documentation does not list any subtypes
                      } else if (std::find(of->second.begin(), of->second.end(), sub) == of->second.end()) {
                        want.insert(Key("mapping.unknown_tag_value", Sev::Warning, k.prim, id));
                      }
                    } else if (sub == "?") {
                      want.insert(Key("mapping.unknown_tag_value", Sev::Warning, k.prim, id));
                    }
                  }
                  for (int e : es) {
                    auto& x = k.extras[size_t(e)];
                    attrs[x.tag.first] = x.tag.second;
                    if (!x.known) want.insert(Key("mapping.unknown_tags", Sev::Warning, k.prim, id));
                    if (x.isBool) want.insert(Key("mapping.bool_tags", Sev::Warning, k.prim, id));
                  }
                  // a clean element of each kind, and the one that is looked at
                  AttributeMap lineAttrs, llAttrs, areaAttrs, regAttrs;
                  lineAttrs["type"] = "line_thin";
                  lineAttrs["subtype"] = "solid";
                  llAttrs["type"] = "lanelet";
                  llAttrs["subtype"] = areaAttrs["subtype"] = "road";
                  llAttrs["location"] = areaAttrs["location"] = "urban";
                  areaAttrs["type"] = "multipolygon";
                  regAttrs["type"] = "regulatory_element";
                  regAttrs["subtype"] = "my_own";
                  auto is = [&](Prim p) { return k.prim == p; };
                  Points3d p;
                  for (int i = 0; i < 4; ++i) p.push_back(Point3d(Id(1 + i), i % 2 * 10, i / 2 * 3, 0));
                  LaneletMap map;
                  LineString3d right(10, {p[0], p[1]}, lineAttrs), left(11, {p[2], p[3]}, lineAttrs), from(12, {p[0], p[2]}, lineAttrs), to(13, {p[3], p[1]}, lineAttrs);
                  map.add(Lanelet(20, left, right, llAttrs));
                  map.add(Area(30, {from, left, to, right.invert()}, {}, areaAttrs));
                  auto reg = std::make_shared<GenericRegulatoryElement>(40, RuleParameterMap{}, regAttrs);
                  map.add(reg);
                  if (is(Prim::Point)) map.add(Point3d(id, 5, 20, 0, attrs));
                  if (is(Prim::LineString)) map.add(LineString3d(id, {p[0], p[3]}, attrs));
                  if (is(Prim::Lanelet)) map.add(Lanelet(id, left, right, attrs));
                  if (is(Prim::Area)) map.add(Area(id, {from, left, to, right.invert()}, {}, attrs));
                  if (is(Prim::RegulatoryElement)) {
                    auto r = std::make_shared<GenericRegulatoryElement>(id, RuleParameterMap{}, attrs);
                    map.add(std::static_pointer_cast<RegulatoryElement>(r));
                  }
                  c.step();
                  auto have = found(map, filterAll());
                  // what one of them reports does not depend on what else is run
                  Keys single;
                  for (auto check : {"mapping.bool_tags", "mapping.mandatory_tags", "mapping.unknown_tags", "mapping.unknown_tag_value"}) {
                    auto s = found(map, check);
                    single.insert(s.begin(), s.end());
                  }
                  MC_REQUIRE(have == single, "filter", "together:" + show(have) + "; one by one:" + show(single));
                  if (subOpen) {
                    // one more report is fine
                    for (auto it = have.begin(); it != have.end(); ++it) {
                      if (std::get<0>(*it) == "mapping.unknown_tag_value" && std::count_if(have.begin(), have.end(), [](auto& h) { return std::get<0>(h) == "mapping.unknown_tag_value"; }) > (type == "?")) {
                        have.erase(it);
                        break;
                      }
                    }
                  }
                  MC_REQUIRE(have == want, "issues", "reported:" + show(have) + "; but the map has:" + show(want));
                  c.outcome(show(want));
                });
          }
        }
      }
    }
  }
}

void v01(mc::Ctx& c) {
  duplicates(c);
  closePoints(c);
  curvatures(c);
  tags(c);
}

// ---- V02
struct Call {
  std::string name;
  std::vector<std::string> participants;  // of the rules
  size_t lanelets;
  bool operator<(const Call& o) const { return std::tie(name, participants, lanelets) < std::tie(o.name, o.participants, o.lanelets); }
  bool operator==(const Call& o) const { return std::tie(name, participants, lanelets) == std::tie(o.name, o.participants, o.lanelets); }
};
std::vector<Call> calls;
std::map<std::string, int> script;  // what a check finds: bits 0 and 1: an error, a warning; bit 2: another error after them
std::string onlyFor;                // routing checks find it for these participants only
Issues issuesOf(const std::string& name, const std::string& detail) {
  Issues r;
  int s = script[name];
  if (s & 1) r.push_back(Issue(Sev::Error, "E1 " + name + detail));
  if (s & 2) r.push_back(Issue(Sev::Warning, Prim::Lanelet, 42, "W " + name + detail));
  if (s & 4) r.push_back(Issue(Sev::Error, Prim::Point, 43, "E2 " + name + detail));
  return r;
}
template <char A, char B>
struct MapCheck : MapValidator {
  constexpr static const char Name[] = {'x', '.', A, B, 0};
  constexpr static const char* name() { return Name; }
  Issues operator()(const LaneletMap& map) override {
    calls.push_back({Name, {}, map.laneletLayer.size()});
    return issuesOf(Name, "");
  }
};
template <char A, char B>
constexpr const char MapCheck<A, B>::Name[];
template <char A, char B>
struct RuleCheck : TrafficRuleValidator {
  constexpr static const char Name[] = {'y', '.', A, B, 0};
  constexpr static const char* name() { return Name; }
  Issues operator()(const LaneletMap& map, const std::vector<traffic_rules::TrafficRulesUPtr>& rules) override {
    std::vector<std::string> ps;
    for (auto& r : rules) ps.push_back(r->location() + "/" + r->participant());
    calls.push_back({Name, ps, map.laneletLayer.size()});
    return issuesOf(Name, "");
  }
};
template <char A, char B>
constexpr const char RuleCheck<A, B>::Name[];
template <char A, char B>
struct GraphCheck : RoutingGraphValidator {
  constexpr static const char Name[] = {'z', '.', A, B, 0};
  constexpr static const char* name() { return Name; }
  Issues operator()(const routing::RoutingGraph& graph, const traffic_rules::TrafficRules& rules) override {
    size_t n = graph.passableSubmap()->laneletLayer.size();
    calls.push_back({Name, {rules.location() + "/" + rules.participant()}, n});
    return issuesOf(Name, " for " + rules.participant());
  }
};
template <char A, char B>
constexpr const char GraphCheck<A, B>::Name[];
// registered out of order; "x.aa" also as the name of a routing check would be possible, but is not documented
RegisterMapValidator<MapCheck<'b', 'a'>> r1;
RegisterMapValidator<MapCheck<'a', 'b'>> r2;
RegisterMapValidator<MapCheck<'a', 'a'>> r3;
RegisterTrafficRuleValidator<RuleCheck<'b', 'b'>> r4;
RegisterTrafficRuleValidator<RuleCheck<'a', 'a'>> r5;
RegisterRoutingGraphValidator<GraphCheck<'b', 'a'>> r6;
RegisterRoutingGraphValidator<GraphCheck<'a', 'a'>> r7;

//! rules for which no routing graph can be built
class Broken : public traffic_rules::TrafficRules {
 public:
  using TrafficRules::TrafficRules;
  bool canPass(const ConstLanelet&) const override { throw InvalidInputError("broken rules"); }
  bool canPass(const ConstArea&) const override { throw InvalidInputError("broken rules"); }
  bool canPass(const ConstLanelet&, const ConstLanelet&) const override { return false; }
  bool canPass(const ConstLanelet&, const ConstArea&) const override { return false; }
  bool canPass(const ConstArea&, const ConstLanelet&) const override { return false; }
  bool canPass(const ConstArea&, const ConstArea&) const override { return false; }
  bool canChangeLane(const ConstLanelet&, const ConstLanelet&) const override { return false; }
  traffic_rules::SpeedLimitInformation speedLimit(const ConstLanelet&) const override { return {}; }
  traffic_rules::SpeedLimitInformation speedLimit(const ConstArea&) const override { return {}; }
  bool isOneWay(const ConstLanelet&) const override { return true; }
  bool hasDynamicRules(const ConstLanelet&) const override { return false; }
};
traffic_rules::RegisterTrafficRules<Broken> broken("de", "broken");

//! basic regular expressions used: what they match of the names, written out
struct Filter {
  const char* regex;
  std::set<std::string> matches;
};
const std::vector<std::string>& custom() {
  static const std::vector<std::string> n{"x.aa", "x.ab", "x.ba", "y.aa", "y.bb", "z.aa", "z.ba"};
  return n;
}
const std::vector<std::string>& builtin() {
  static const std::vector<std::string> n{"mapping.bool_tags",        "mapping.curvature_too_big", "mapping.duplicated_points", "mapping.mandatory_tags",
                                          "mapping.points_too_close", "mapping.unknown_tag_value", "mapping.unknown_tags",      "routing.graph_is_valid"};
  return n;
}
std::set<std::string> everything() {
  std::set<std::string> s(custom().begin(), custom().end());
  s.insert(builtin().begin(), builtin().end());
  return s;
}
const std::vector<Filter>& filters() {
  static const std::vector<Filter> f{
      {"x.aa", {"x.aa"}},
      {"X.A.", {"x.aa", "x.ab"}},
      {"y.*", {"y.aa", "y.bb"}},
      {".*\\.ba", {"x.ba", "z.ba"}},
      {"z.[ab]a", {"z.aa", "z.ba"}},
      {"x", {}},
      {".*\\.a*", {"x.aa", "y.aa", "z.aa"}},
      {"mapping.*", {"mapping.bool_tags", "mapping.curvature_too_big", "mapping.duplicated_points", "mapping.mandatory_tags", "mapping.points_too_close", "mapping.unknown_tag_value", "mapping.unknown_tags"}},
      {"routing.graph_is_valid", {"routing.graph_is_valid"}},
      {".*", everything()},
  };
  return f;
}
size_t passable(const std::string& participant) {
  // of the map below: a road with two lanes and a footpath
  return participant == "vehicle" || participant == "bicycle" ? 2 : participant == "pedestrian" ? 1 : 0;
}
//! bit 0: a line with a repeated point, bit 1: a lanelet with two left neighbours, bit 2: an unknown tag
struct RoadMap {
  Lanelets lls;
  LaneletMapPtr map;
  explicit RoadMap(int defects) {
    auto line = [&](Id id, double y, const char* sub) {
      LineString3d l(id, {Point3d(10 * id, 0, y, 0), Point3d(10 * id + 1, 20, y, 0)});
      l.attributes()["type"] = "line_thin";
      l.attributes()["subtype"] = sub;
      return l;
    };
    auto a = line(100, 0, "solid"), b = line(101, 4, "dashed"), d = line(102, 8, "solid"), e = line(103, 12, "solid");
    auto lanelet = [&](Id id, const LineString3d& l, const LineString3d& r, const char* sub) {
      Lanelet ll(id, l, r);
      ll.attributes()["type"] = "lanelet";
      ll.attributes()["subtype"] = sub;
      ll.attributes()["location"] = "urban";
      return ll;
    };
    lls = {lanelet(1, b, a, "road"), lanelet(2, d, b, "road"), lanelet(3, e, d, "walkway")};
    if (defects & 2) lls.push_back(lanelet(4, e, b, "road"));
    if (defects & 1) a.push_back(a.back());
    if (defects & 4) a.attributes()["foo"] = "bar";
    map = utils::createMap(lls);
  }
};
std::string clean(const std::string& s) {
  std::string r;
  for (char ch : s) r += isalnum((unsigned char)ch) ? ch : '_';
  return r;
}
void v02(mc::Ctx& c) {
  // sets of filters x participants x defects, each check finding what its script says
  std::vector<std::vector<int>> filterSets{{}};
  const int n = int(filters().size());
  for (int a = 0; a < n; ++a) {
    filterSets.push_back({a});
    for (int b = 0; b < n; ++b) {
      filterSets.push_back({a, b});
      if (!c.quick) {
        for (int d = 0; d < n; ++d) filterSets.push_back({a, b, d});
      }
    }
  }
  const std::vector<std::vector<std::string>> people{{"vehicle"}, {"pedestrian"}, {"vehicle", "pedestrian"}, {"bicycle", "broken", "vehicle"}, {"broken"}, {}};
  std::vector<int> scripts(c.quick ? 4 : 6);
  for (auto& fs : filterSets) {
    std::string filter;
    std::set<std::string> selected;
    for (int f : fs) {
      filter += (filter.empty() ? "" : ",") + std::string(filters()[size_t(f)].regex);
      auto& m = filters()[size_t(f)].matches;
      selected.insert(m.begin(), m.end());
    }
    if (fs.empty()) selected = everything();
    for (size_t who = 0; who < people.size(); ++who) {
      for (int defects = 0; defects < 8; ++defects) {
        for (size_t sc = 0; sc < scripts.size(); ++sc) {
          c.run(
              [&] { return "run: filter '" + filter + "' participants " + std::to_string(who) + " defects " + std::to_string(defects) + " script " + std::to_string(sc); },
              [&] {
                script.clear();
                calls.clear();
                for (size_t i = 0; i < custom().size(); ++i) script[custom()[i]] = sc == 0 ? 0 : int((i * 3 + sc * 5 + i * sc) % 8);
                RoadMap m(defects);
                ValidationConfig cfg;
                cfg.checksFilter = filter;
                cfg.participants = people[who];
                // which ones run
                c.step();
                auto listed = availabeChecks(filter);
                MC_REQUIRE(std::set<std::string>(listed.begin(), listed.end()) == selected && listed.size() == selected.size(), "listed", "the filter selects other checks than it says");
                // expectations
                std::vector<Call> wantCalls;
                std::multiset<std::pair<std::string, std::string>> want;  // check, report
                auto expectScript = [&](const std::string& name, const std::string& detail) {
                  int s = script[name];
                  if (s & 1) want.insert({name, "Error: E1 " + name + detail + " [" + name + "]"});
                  if (s & 2) want.insert({name, "Warning: lanelet 42 W " + name + detail + " [" + name + "]"});
                  if (s & 4) want.insert({name, "Error: point 43 E2 " + name + detail + " [" + name + "]"});
                };
                std::vector<std::string> rules;
                for (auto& p : people[who]) rules.push_back("de/" + p);
                bool anyGraph = selected.count("routing.graph_is_valid") > 0;
                for (auto& s : selected) {
                  if (s[0] == 'x' || s[0] == 'y') {
                    wantCalls.push_back({s, s[0] == 'x' ? std::vector<std::string>{} : rules, m.map->laneletLayer.size()});
                    expectScript(s, "");
                  }
                  anyGraph |= s[0] == 'z';
                }
                size_t nBroken = 0, graphErrors = 0;
                if (anyGraph) {
                  for (auto& p : people[who]) {
                    if (p == "broken") {
                      ++nBroken;
                      continue;
                    }
                    bool tooMany = (defects & 2) && p != "pedestrian";
                    for (auto& s : selected) {
                      if (s[0] != 'z') continue;
                      wantCalls.push_back({s, {"de/" + p}, passable(p) + (tooMany ? 1 : 0)});
                      expectScript(s, " for " + p);
                    }
                    if (tooMany && selected.count("routing.graph_is_valid") != 0) ++graphErrors;
                  }
                }
                std::set<std::string> others;  // built-in checks that have to find something
                if ((defects & 1) && selected.count("mapping.duplicated_points")) others.insert("mapping.duplicated_points");
                if ((defects & 4) && selected.count("mapping.unknown_tags")) others.insert("mapping.unknown_tags");
                // run
                auto issues = validateMap(*m.map, cfg);
                std::sort(wantCalls.begin(), wantCalls.end());
                auto have = calls;
                std::sort(have.begin(), have.end());
                std::string ran;
                for (auto& x : have) ran += " " + x.name + "(" + (x.participants.empty() ? "" : x.participants[0]) + ":" + std::to_string(x.lanelets) + ")";
                MC_REQUIRE(have == wantCalls, "ran", "other checks were run, or on something else:" + ran);
                // map checks come first, then those of the rules, then those of the routing graph
                for (size_t i = 1; i < calls.size(); ++i) MC_REQUIRE(calls[i - 1].name[0] <= calls[i].name[0], "order", "map, rule and routing checks are mixed");
                std::multiset<std::pair<std::string, std::string>> got;
                std::set<std::string> gotOthers;
                size_t gotBroken = 0, gotGraph = 0;
                for (auto& d : issues) {
                  MC_REQUIRE(!d.issues.empty(), "empty", "a check without issues is listed");
                  if (d.checkName == "general") {
                    for (auto& i : d.issues) MC_REQUIRE(i.severity == Sev::Error, "general", "a problem with running the checks is not an error");
                    gotBroken += d.issues.size();
                    continue;
                  }
                  if (d.checkName == "routing.graph_is_valid") {
                    MC_REQUIRE(d.errors().size() == d.issues.size(), "severity", "an invalid graph is not an error");
                    ++gotGraph;
                    continue;
                  }
                  if (d.checkName[0] != 'x' && d.checkName[0] != 'y' && d.checkName[0] != 'z') {
                    gotOthers.insert(d.checkName);
                    continue;
                  }
                  auto r = buildReport({d});
                  MC_REQUIRE(r.errors.size() == d.errors().size() && r.warnings.size() == d.warnings().size(), "report", "the report has other numbers of errors and warnings than the issues");
                  for (auto& s : r.errors) {
                    MC_REQUIRE(s.compare(0, 6, "Error:") == 0, "report", "a warning is reported as an error");
                    got.insert({d.checkName, s});
                  }
                  for (auto& s : r.warnings) {
                    MC_REQUIRE(s.compare(0, 8, "Warning:") == 0, "report", "an error is reported as a warning");
                    got.insert({d.checkName, s});
                  }
                }
                std::string all;
                for (auto& s : got) all += " {" + s.second + "}";
                if (defects & 1) {
                  // a repeated point is also a curve without radius
                  gotOthers.erase("mapping.curvature_too_big");
                }
                MC_REQUIRE(got == want, "reported", "other issues are reported than were found:" + all);
                MC_REQUIRE(gotBroken == nBroken, "broken", "a routing graph that cannot be built is not reported");
                MC_REQUIRE(gotGraph == graphErrors, "graph", "an ambiguous neighbourhood is reported " + std::to_string(gotGraph) + " times");
                MC_REQUIRE(gotOthers == others, "builtin", "the built-in checks report something else than the defects of the map");
                // the whole report
                auto report = buildReport(issues);
                size_t total = 0;
                std::multiset<std::string> whole(report.errors.begin(), report.errors.end()), parts;
                whole.insert(report.warnings.begin(), report.warnings.end());
                for (auto& d : issues) {
                  auto r = buildReport({d});
                  parts.insert(r.errors.begin(), r.errors.end());
                  parts.insert(r.warnings.begin(), r.warnings.end());
                  total += d.issues.size();
                }
                MC_REQUIRE(whole == parts && whole.size() == total, "report", "the report of all checks is not that of each of them");
                for (auto& s : report.errors) MC_REQUIRE(s.compare(0, 6, "Error:") == 0, "report", "a warning is reported as an error");
                // and running it again says the same
                calls.clear();
                auto again = buildReport(validateMap(*m.map, cfg));
                MC_REQUIRE(again.errors == report.errors && again.warnings == report.warnings, "repeat", "running the checks again says something else");
                c.outcome(std::to_string(total) + "/" + std::to_string(calls.size()));
                c.state(filter);
              });
        }
      }
    }
  }
  // files, through the command line
  for (int file = 0; file < 4; ++file) {  // 0: fine, 1: missing, 2: damaged, 3: no map given
    for (int defects = 0; defects < 8; ++defects) {
      for (size_t fs = 0; fs < filterSets.size(); ++fs) {
        if (filterSets[fs].size() > 1) continue;
        for (size_t who = 0; who + 1 < people.size(); ++who) {
          for (int print = 0; print < 3; ++print) {  // 1: --print, 2: --help
            c.run(
                [&] { return "cli: file " + std::to_string(file) + " defects " + std::to_string(defects) + " filter " + std::to_string(fs) + " participants " + std::to_string(who) + " print " + std::to_string(print); },
                [&] {
                  script.clear();
                  calls.clear();
                  RoadMap m(defects);
                  std::string path = c.scratch + "/map.osm";
                  ::unlink(path.c_str());
                  if (file == 0 || file == 2) write(path, *m.map, projection::UtmProjector(Origin({49, 8.4})));
                  if (file == 2) {
                    // the map has lost one of its points
                    std::ifstream in(path);
                    std::string text((std::istreambuf_iterator<char>(in)), {}), line;
                    in.close();
                    std::stringstream ss(text);
                    std::ofstream out(path);
                    bool skipped = false;
                    while (std::getline(ss, line)) {
                      bool node = line.find("<node id=\"1030\"") != std::string::npos;
                      if (node) {
                        skipped = true;
                        if (line.find("/>") == std::string::npos) {
                          while (std::getline(ss, line) && line.find("</node>") == std::string::npos) {
                          }
                        }
                        continue;
                      }
                      out << line << "\n";
                    }
                    MC_REQUIRE(skipped, "harness", "no such node");
                  }
                  std::vector<std::string> args{"validate"};
                  if (file != 3) args.push_back(path);
                  std::set<std::string> selected = filterSets[fs].empty() ? everything() : filters()[size_t(filterSets[fs][0])].matches;
                  if (!filterSets[fs].empty()) {
                    args.push_back(fs % 2 ? "-f" : "--filter");
                    args.push_back(filters()[size_t(filterSets[fs][0])].regex);
                  }
                  for (auto& p : people[who]) {
                    args.push_back(who % 2 ? "-p" : "--participants");
                    args.push_back(p);
                  }
                  for (auto a : {"--lat", "49", "--lon", "8.4"}) args.push_back(a);
                  if (print == 1) args.push_back("--print");
                  if (print == 2) args.push_back("--help");
                  std::vector<const char*> argv;
                  for (auto& a : args) argv.push_back(a.c_str());
                  std::stringstream out, err;
                  auto* o = std::cout.rdbuf(out.rdbuf());
                  auto* e = std::cerr.rdbuf(err.rdbuf());
                  int rc = -1;
                  CommandLineConfig cfg;
                  try {
                    cfg = parseCommandLine(int(argv.size()), argv.data());
                    rc = runFromConfig(cfg);
                  } catch (...) {
                    std::cout.rdbuf(o);
                    std::cerr.rdbuf(e);
                    throw;
                  }
                  std::cout.rdbuf(o);
                  std::cerr.rdbuf(e);
                  c.step();
                  MC_REQUIRE(cfg.validationConfig.participants == people[who] && cfg.help == (print == 2) && cfg.print == (print == 1) && cfg.validationConfig.location == "de", "parse", "the command line was understood differently");
                  if (print == 2) {
                    MC_REQUIRE(rc == 0 && calls.empty(), "help", "--help runs the checks");
                    return;
                  }
                  if (print == 1) {
                    MC_REQUIRE(rc == 0 && calls.empty(), "print", "--print runs the checks or reports a problem");
                    auto text = "\n" + out.str();
                    for (auto& name : everything()) MC_REQUIRE((text.find("\n" + name + "\n") != std::string::npos) == (selected.count(name) > 0), "print", "--print lists other checks: " + name);
                    return;
                  }
                  if (file == 3) {
                    MC_REQUIRE(rc != 0 && calls.empty(), "nomap", "no error without a map");
                    return;
                  }
                  if (file == 1) {
                    MC_REQUIRE(rc == 1 && calls.empty() && err.str().find("Error:") != std::string::npos, "missing", "no error for a missing map");
                    return;
                  }
                  bool anyGraph = selected.count("routing.graph_is_valid") || selected.count("z.aa") || selected.count("z.ba");
                  bool hasVehicle = false, hasBroken = false;
                  for (auto& p : people[who]) {
                    hasVehicle |= p == "vehicle" || p == "bicycle";
                    hasBroken |= p == "broken";
                  }
                  if (file == 2) {
                    MC_REQUIRE(rc == 1 && err.str().find("Error:") != std::string::npos && err.str().find("[general]") != std::string::npos, "damaged", "no error for a damaged map: " + err.str());
                    return;
                  }
                  bool bad = ((defects & 1) && (selected.count("mapping.duplicated_points") || selected.count("mapping.curvature_too_big"))) || ((defects & 4) && selected.count("mapping.unknown_tags")) || (anyGraph && hasBroken) ||
                             ((defects & 2) && hasVehicle && selected.count("routing.graph_is_valid"));
                  MC_REQUIRE(rc == (bad ? 1 : 0), "exit", "exit code " + std::to_string(rc) + " for " + (bad ? "a map with" : "a map without") + " issues: " + err.str() + out.str());
                  auto lines = [](const std::string& s, const std::string& begin) {
                    size_t k = 0;
                    std::stringstream ss(s);
                    for (std::string l; std::getline(ss, l);) k += l.compare(0, begin.size(), begin) == 0;
                    return k;
                  };
                  size_t shown = lines(err.str() + out.str(), "Error:") + lines(err.str() + out.str(), "Warning:");
                  MC_REQUIRE(out.str().find(std::to_string(shown) + " issues found") != std::string::npos && (shown > 0) == bad, "shown", "the summary differs from the issues shown: " + out.str());
                  c.outcome(std::to_string(rc) + "/" + std::to_string(shown));
                });
          }
        }
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv, {
    {"V01", v01, "lines and polygons of up to four (thorough: five) of three points; up to four (five) points at 24 places; bounds of two to four (five) points in eight roles; every documented and an undocumented type, subtype and location of every kind of primitive with every one and pairs of further tags", {}},
    {"V02", v02, "up to two (thorough: three) of ten regular expressions as filter, six sets of participants, eight combinations of defects, scripted checks; command lines", {}},
  });
}
