// T01-T05: the traffic rules against the documented tagging scheme.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/utility/Units.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/GermanTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include "mc.hpp"
using namespace lanelet;
using namespace lanelet::traffic_rules;

namespace {
using Tags = std::map<std::string, std::string>;
const std::vector<std::string> Participants_{"vehicle", "vehicle:car", "vehicle:car:electric", "vehicle:car:combustion", "vehicle:bus", "vehicle:truck",
                                              "vehicle:motorcycle", "vehicle:taxi", "vehicle:emergency", "pedestrian", "bicycle"};
std::string show(const Tags& t) {
  std::string s = "{";
  for (auto& e : t) s += e.first + "=" + e.second + " ";
  return s + "}";
}
AttributeMap attrs(const Tags& t) {
  AttributeMap a;
  for (auto& e : t) a[e.first] = e.second;
  return a;
}
bool isA(const std::string& p, const std::string& general) { return p == general || p.compare(0, general.size() + 1, general + ":") == 0; }
bool truth(const std::string& v) { return v == "yes"; }

// ---- the documented meaning of the tags
//! the value of a tag "prefix:xxx" that applies to a participant
const std::string* overriden(const Tags& t, const std::string& prefix, const std::string& p) {
  for (auto& e : t) {
    if (e.first.compare(0, prefix.size() + 1, prefix + ":") == 0 && isA(p, e.first.substr(prefix.size() + 1))) return &e.second;
  }
  return nullptr;
}
bool anyOverride(const Tags& t, const std::string& prefix) {
  for (auto& e : t) {
    if (e.first.compare(0, prefix.size() + 1, prefix + ":") == 0) return true;
  }
  return false;
}
std::string get(const Tags& t, const std::string& k) {
  auto it = t.find(k);
  return it == t.end() ? "" : it->second;
}
bool mayUse(const Tags& t, const std::string& p) {
  if (anyOverride(t, "participant")) {
    auto v = overriden(t, "participant", p);
    return v && truth(*v);
  }
  const std::map<std::string, std::vector<std::string>> table{{"", {"vehicle"}},
                                                              {"road", {"vehicle", "bicycle"}},
                                                              {"highway", {"vehicle"}},
                                                              {"play_street", {"vehicle", "bicycle", "pedestrian"}},
                                                              {"emergency_lane", {"vehicle:emergency"}},
                                                              {"bus_lane", {"vehicle:bus", "vehicle:emergency", "vehicle:taxi"}},
                                                              {"bicycle_lane", {"bicycle"}},
                                                              {"exit", {"vehicle", "bicycle", "pedestrian"}},
                                                              {"walkway", {"pedestrian"}},
                                                              {"shared_walkway", {"bicycle", "pedestrian"}},
                                                              {"crosswalk", {"pedestrian"}},
                                                              {"stairs", {"pedestrian"}}};
  auto it = table.find(get(t, "subtype"));
  if (it == table.end()) return false;
  for (auto& g : it->second) {
    if (isA(p, g)) return true;
  }
  return false;
}
enum Tri { NO, YES, UNSPECIFIED };
//! may the participant drive against the direction of the lanelet?
Tri mayReverse(const Tags& t, const std::string& p) {
  if (t.count("one_way")) return truth(get(t, "one_way")) ? NO : YES;
  if (auto v = overriden(t, "one_way", p)) return truth(*v) ? NO : YES;
  if (p == "pedestrian") return anyOverride(t, "one_way") ? UNSPECIFIED : YES;  // the documentation contradicts itself here
  return NO;
}

struct Geo {
  Point3d a{1, 0, 1}, b{2, 1, 1}, c{3, 0, 0}, d{4, 1, 0};
  LineString3d l{5, {a, b}}, r{6, {c, d}};
};

std::vector<Tags> overrides(const std::string& prefix, const std::vector<std::string>& which, size_t maxTags) {
  // all consistent assignments of at most maxTags of the participants
  std::vector<Tags> out{{}};
  std::function<void(size_t, Tags)> go = [&](size_t i, Tags t) {
    if (i == which.size()) {
      if (!t.empty()) out.push_back(t);
      return;
    }
    go(i + 1, t);
    if (t.size() == maxTags) return;
    for (auto& e : t) {
      auto o = e.first.substr(prefix.size() + 1);
      if (isA(o, which[i]) || isA(which[i], o)) return;  // must not be combined
    }
    for (auto* v : {"yes", "no"}) {
      auto u = t;
      u[prefix + ":" + which[i]] = v;
      go(i + 1, u);
    }
  };
  go(0, {});
  return out;
}

const std::vector<std::string> Subtypes{"", "road", "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit", "walkway", "shared_walkway", "crosswalk", "stairs", "parking", "freespace", "roads", "my_type"};

void t01(mc::Ctx& c) {
  std::map<std::string, TrafficRulesPtr> rules;
  for (auto& p : Participants_) rules[p] = TrafficRulesFactory::create(Locations::Germany, p);
  auto part = overrides("participant", Participants_, c.quick ? 2 : 4);
  auto ways = overrides("one_way", {"vehicle", "vehicle:car", "vehicle:bus", "pedestrian", "bicycle"}, 2);
  for (auto* v : {"yes", "no"}) ways.push_back({{"one_way", v}});
  for (auto& sub : Subtypes) {
    for (auto* loc : {"", "urban", "nonurban"}) {
      if (c.quick && loc[0] == 'n' && sub != "road" && sub != "highway") continue;
      for (auto& po : part) {
        Tags t = po;
        if (!sub.empty()) t["subtype"] = sub;
        if (loc[0]) t["location"] = loc;
        c.run([&] { return "passability of " + show(t) + " with all one_way tags, for all participants"; }, [&] {
          Geo g;
          Area area(8, {LineString3d(7, {g.a, g.b, g.d, g.c, g.a})}, {}, attrs(t));
          for (auto& w : ways) {
            Tags tw = t;
            tw.insert(w.begin(), w.end());
            Lanelet ll(9, g.l, g.r, attrs(tw));
            for (auto& p : Participants_) {
              auto& r = *rules[p];
              const bool use = mayUse(t, p);
              const Tri rev = mayReverse(tw, p);
              c.step();
              c.outcome(std::to_string(use) + std::to_string(rev));
              MC_REQUIRE(r.canPass(ConstLanelet(ll)) == use, use ? "must-pass" : "must-not-pass", p << " on " << show(tw) << (use ? " is refused" : " is let through"));
              if (rev != UNSPECIFIED) {
                MC_REQUIRE(r.canPass(ConstLanelet(ll.invert())) == (use && rev == YES), "against-direction", p << " against the direction of " << show(tw));
                MC_REQUIRE(r.isOneWay(ll) == (rev == NO), "one-way", p << " on " << show(tw));
                MC_REQUIRE(r.isOneWay(ll.invert()) == (rev == NO), "one-way-inverted", p << " on inverted " << show(tw));
              }
              if (w.empty()) {
                const bool want = isA(p, "vehicle") ? false : use;  // areas are not for vehicles in german rules
                MC_REQUIRE(r.canPass(ConstArea(area)) == want, "area", p << " in area " << show(t));
              }
            }
          }
          c.state(show(t));
        });
      }
    }
  }
}

// ---- lane changes
enum Change { NONE = 0, LEFT = 1, RIGHT = 2, BOTH = 3 };
struct Border {
  Tags tags;
};
Change changeOf(const Tags& t, const std::string& p, bool virtualOk) {
  if (t.count("lane_change")) return truth(get(t, "lane_change")) ? BOTH : NONE;
  if (t.count("lane_change:left") && t.count("lane_change:right")) {
    return Change((truth(get(t, "lane_change:left")) ? LEFT : 0) | (truth(get(t, "lane_change:right")) ? RIGHT : 0));
  }
  const auto type = get(t, "type"), sub = get(t, "subtype");
  if (type == "virtual") return virtualOk ? BOTH : NONE;
  const bool wheels = isA(p, "vehicle") || p == "bicycle", feet = p == "pedestrian" || p == "bicycle";
  if (wheels && (type == "line_thin" || type == "line_thick")) {
    if (sub == "dashed") return BOTH;
    if (sub == "dashed_solid") return RIGHT;
    if (sub == "solid_dashed") return LEFT;
  }
  if (feet && type == "curbstone" && sub == "low") return BOTH;
  return NONE;
}
Change inverse(Change ch) { return ch == LEFT ? RIGHT : ch == RIGHT ? LEFT : ch; }

std::vector<Tags> borders() {
  std::vector<Tags> r;
  std::vector<Tags> types;
  for (auto* ty : {"", "line_thin", "line_thick", "curbstone", "virtual", "road_border", "guard_rail", "wall", "fence", "zebra_marking", "pedestrian_marking", "bike_marking", "keepout", "jersey_barrier", "gate",
                   "door", "rail", "custom"}) {
    for (auto* s : {"", "solid", "solid_solid", "dashed", "dashed_solid", "solid_dashed", "high", "low", "odd"}) {
      Tags t;
      if (*ty) t["type"] = ty;
      if (*s) t["subtype"] = s;
      types.push_back(t);
    }
  }
  for (auto& t : types) {
    r.push_back(t);
    for (auto* v : {"yes", "no"}) {
      auto u = t;
      u["lane_change"] = v;
      r.push_back(u);
      for (auto* w : {"yes", "no"}) {
        u = t;
        u["lane_change:left"] = v;
        u["lane_change:right"] = w;
        r.push_back(u);
      }
    }
  }
  return r;
}

void t02(mc::Ctx& c) {
  std::map<std::string, TrafficRulesPtr> rules;
  for (auto& p : Participants_) rules[p] = TrafficRulesFactory::create(Locations::Germany, p);
  std::vector<Tags> lls{{{"subtype", "road"}}, {{"subtype", "road"}, {"one_way", "no"}}, {{"subtype", "walkway"}}, {{"subtype", "play_street"}, {"one_way", "no"}}, {{"subtype", "emergency_lane"}},
                        {{"subtype", "road"}, {"participant:vehicle:bus", "yes"}}};
  if (!c.quick) {
    for (auto& s : Subtypes) {
      lls.push_back({{"subtype", s}});
      lls.push_back({{"subtype", s}, {"one_way:bicycle", "no"}});
    }
  }
  for (auto& b : borders()) {
    // how each of the two lanelets is stored: 0 as is, 1 the inverted one is handed in; the line itself may be used inverted as well
    c.run([&] { return "lane changes across " + show(b); }, [&] {
      Point3d p[6] = {Point3d(1, 0, 2), Point3d(2, 1, 2), Point3d(3, 0, 1), Point3d(4, 1, 1), Point3d(5, 0, 0), Point3d(6, 1, 0)};
      for (int opposite = 0; opposite < 2; ++opposite) {
        LineString3d top(10, {p[0], p[1]}), mid(11, {p[2], p[3]}, attrs(b)), bottom(12, {p[4], p[5]}), far(13, {p[0], p[1]});
        if (opposite) mid = LineString3d(11, {p[3], p[2]}, attrs(b)).invert();
        for (auto& ta : lls) {
          for (auto& tb : lls) {
            // both run to the right; a lies left (above) of b
            Lanelet a(20, top, mid, attrs(ta)), d(21, mid, bottom, attrs(tb)), e(22, top, bottom, attrs(tb));
            for (auto& part : Participants_) {
              auto& r = *rules[part];
              Change ch = changeOf(b, part, false);
              if (opposite) ch = inverse(ch);
              for (int dir = 0; dir < 4; ++dir) {
                Lanelet x = dir & 1 ? a.invert() : a, y = dir & 2 ? d.invert() : d;
                bool drive = true, known = true;
                for (auto* l : {&x, &y}) {
                  auto& tg = l == &x ? ta : tb;
                  drive = drive && mayUse(tg, part);
                  if (l->inverted()) {
                    auto m = mayReverse(tg, part);
                    known = known && m != UNSPECIFIED;
                    drive = drive && m == YES;
                  }
                }
                if (!known) continue;
                const bool same = (dir == 0 || dir == 3);  // lanes in opposite directions are no neighbours
                c.step();
                const bool toRight = same && drive && (ch & RIGHT), toLeft = same && drive && (ch & LEFT);
                // left and right relate to the line as it runs to the right, whatever the direction driven
                MC_REQUIRE(r.canChangeLane(x, y) == toRight, toRight ? "change-refused" : "change-allowed",
                           part << (toRight ? " is refused" : " is let through") << " across the border, from the upper lanelet, " << (dir == 3 ? "driving against the lanelets" : "") << (opposite ? " (line stored the other way round)" : ""));
                MC_REQUIRE(r.canChangeLane(y, x) == toLeft, toLeft ? "change-refused" : "change-allowed",
                           part << (toLeft ? " is refused" : " is let through") << " across the border, from the lower lanelet, " << (dir == 3 ? "driving against the lanelets" : "") << (opposite ? " (line stored the other way round)" : ""));
                c.outcome(std::to_string(toLeft) + std::to_string(toRight));
                MC_REQUIRE(!r.canChangeLane(x, x), "change-to-itself", part);
                MC_REQUIRE(!r.canChangeLane(x, e) && !r.canChangeLane(e, y), "change-unconnected", part << " changes to a lanelet that is no neighbour");
              }
            }
          }
        }
      }
      c.state(show(b));
    });
  }
}

// ---- speed limits
struct Limit {
  bool known{true};
  double kmh{0};
  bool mandatory{true};
};
double parseKmh(const std::string& v) {
  // the values used below
  const std::map<std::string, double> m{{"5 km/h", 5}, {"30", 30}, {"70 km/h", 70}, {"60 kmh", 60}, {"10 mph", 16.09344}, {"10 m/s", 36}, {"0", 0}, {"12.5 km/h", 12.5}};
  return m.at(v);
}
Limit limitOf(const Tags& t, const std::string& p) {
  const bool over = t.count("speed_limit") || anyOverride(t, "speed_limit");
  const bool overM = t.count("speed_limit_mandatory") || anyOverride(t, "speed_limit_mandatory");
  if (over || overM) {
    Limit l;
    l.kmh = t.count("speed_limit") ? parseKmh(get(t, "speed_limit")) : 0;
    if (auto v = overriden(t, "speed_limit", p)) l.kmh = parseKmh(*v);
    if (t.count("speed_limit_mandatory")) l.mandatory = truth(get(t, "speed_limit_mandatory"));
    else if (auto v = overriden(t, "speed_limit_mandatory", p)) l.mandatory = truth(*v);
    return l;
  }
  // the limits of German law: 50 in towns, 100 outside, none (130 recommended) on highways, walking speed on play streets
  if (p == "pedestrian") return {true, 5, true};
  if (p == "bicycle") return {true, 20, true};
  auto sub = get(t, "subtype"), loc = get(t, "location");
  const bool urban = loc.empty() || loc == "urban";
  if (sub.empty() || sub == "road" || sub == "bus_lane") return {true, urban ? 50. : 100., true};
  if (sub == "highway") return {true, 130, false};
  if (sub == "play_street") return {true, 7, true};
  if (sub == "exit" && urban) return {true, 50, true};
  return {false};
}

void t03(mc::Ctx& c) {
  std::map<std::string, TrafficRulesPtr> rules;
  for (auto& p : Participants_) rules[p] = TrafficRulesFactory::create(Locations::Germany, p);
  std::vector<Tags> base;
  for (auto* v : {"", "5 km/h", "30", "70 km/h", "60 kmh", "10 mph", "10 m/s", "0", "12.5 km/h"}) {
    for (auto* m : {"", "yes", "no"}) {
      Tags t;
      if (*v) t["speed_limit"] = v;
      if (*m) t["speed_limit_mandatory"] = m;
      base.push_back(t);
    }
  }
  auto fine = overrides("speed_limit", Participants_, c.quick ? 1 : 2);  // yes and no stand for two speeds
  auto fineM = overrides("speed_limit_mandatory", {"vehicle", "vehicle:car", "vehicle:bus", "pedestrian", "bicycle"}, 1);
  struct Sign {
    std::string type;
    double kmh;
    bool tag;
  };
  std::vector<Sign> signs{{"", 0, false}, {"de274", 30, false}, {"de274-5", 5, false}, {"de274-10", 10, false}, {"de274-15", 15, false}, {"de274-20", 20, false}, {"de274-30", 30, false}, {"de274-40", 40, false}, {"de274-50", 50, false},
                          {"de274-60", 60, false}, {"de274-70", 70, false}, {"de274-80", 80, false}, {"de274-90", 90, false}, {"de274-100", 100, false}, {"de274-110", 110, false}, {"de274-120", 120, false},
                          {"de274-130", 130, false}, {"de274_1", 30, false}, {"de274_1-20", 20, false}, {"de310", 50, false}, {"55 kmh", 55, true}, {"35", 35, true}, {"10 mph", 16.09344, true}, {"de274-60", 60, true}};
  auto one = [&](const Tags& t, const Sign& s, int otherRule) {
    Geo g;
    Lanelet ll(9, g.l, g.r, attrs(t));
    Area area(8, {LineString3d(7, {g.a, g.b, g.d, g.c, g.a})}, {}, attrs(t));
    auto light = [&] { return TrafficLight::make(50, {}, {LineString3d(51, {Point3d(52, 0, 0, 0), Point3d(53, 1, 0, 0)})}); };
    if (otherRule & 1) ll.addRegulatoryElement(light());
    if (!s.type.empty()) {
      LineString3d sign(41, {Point3d(42, 0, 0, 0), Point3d(43, 1, 0, 0)});
      RegulatoryElementPtr re;
      if (s.tag) {
        re = SpeedLimit::make(40, {}, s.type);
      } else {
        re = SpeedLimit::make(40, {}, {{sign}, s.type});
      }
      ll.addRegulatoryElement(re);
      area.addRegulatoryElement(re);
    }
    if (otherRule & 2) ll.addRegulatoryElement(light());
    for (auto& p : Participants_) {
      auto& r = *rules[p];
      Limit want = limitOf(t, p);
      if (!s.type.empty() && isA(p, "vehicle")) want = {true, s.kmh, true};
      if (!want.known) continue;
      c.step();
      int k = 0;
      for (auto& got : {r.speedLimit(ConstLanelet(ll)), r.speedLimit(ConstLanelet(ll.invert())), r.speedLimit(ConstArea(area))}) {
        const char* where = k == 0 ? "lanelet" : k == 1 ? "inverted lanelet" : "area";
        ++k;
        const double kmh = units::KmHQuantity(got.speedLimit).value();
        MC_REQUIRE(std::fabs(kmh - want.kmh) < 1e-6, "speed", p << " on a " << where << " " << show(t) << " with sign '" << s.type << "': " << kmh << " km/h instead of " << want.kmh);
        MC_REQUIRE(got.isMandatory == want.mandatory, "mandatory", p << " on a " << where << " " << show(t) << " with sign '" << s.type << "'");
      }
      c.outcome(std::to_string(want.kmh) + std::to_string(want.mandatory));
    }
  };
  for (auto& sub : Subtypes) {
    for (auto* loc : {"", "urban", "nonurban"}) {
      Tags t0;
      if (!sub.empty()) t0["subtype"] = sub;
      if (*loc) t0["location"] = loc;
      for (auto& b : base) {
        Tags t = t0;
        t.insert(b.begin(), b.end());
        c.run([&] { return "speed limits of " + show(t) + " with every traffic sign"; }, [&] {
          for (auto& s : signs) {
            for (int o = 0; o < 4; ++o) {
              if (o == 0 || !c.quick || s.type == "de274" || s.type == "35") one(t, s, o);
            }
          }
          c.state(show(t));
        });
        const bool deep = !c.quick || ((sub == "road" || sub == "walkway") && *loc == 'n');
        if (!deep) continue;
        for (auto& f : fine) {
          Tags tf = t;
          for (auto& e : f) tf[e.first] = e.second == "yes" ? "5 km/h" : "70 km/h";
          c.run([&] { return "speed limits of " + show(tf) + " and tags for single participants"; }, [&] {
            for (auto& m : fineM) {
              if (!m.empty() && t.count("speed_limit_mandatory")) continue;  // levels must not be mixed
              Tags tm = tf;
              tm.insert(m.begin(), m.end());
              one(tm, signs[0], 0);
            }
            one(tf, signs[1], 0);
            c.state(show(tf));
          });
        }
      }
    }
  }
}

// ---- passing from one primitive to another
struct Scene {
  // a grid of 4x4 points; lines between neighbours are made on demand (one line per border, in a chosen direction)
  std::vector<Point3d> pts;
  std::map<std::pair<int, int>, LineString3d> lines;  // in the direction stored
  std::map<std::pair<int, int>, Tags> tags;
  Id next{100};
};

void t04(mc::Ctx& c) {
  const std::vector<std::string> who{"pedestrian", "bicycle", "vehicle"};
  std::map<std::string, TrafficRulesPtr> rules;
  for (auto& p : who) rules[p] = TrafficRulesFactory::create(Locations::Germany, p);
  // Two unit cells side by side or the same cells further away. Each cell is a lanelet in one of 4 orientations or an area.
  // cells: 0 = (0,0), 1 = (1,0), 2 = (0,1) ; the border between them is a line of its own
  const std::vector<Tags> bord{{},
                               {{"type", "curbstone"}, {"subtype", "low"}},
                               {{"type", "curbstone"}, {"subtype", "high"}},
                               {{"type", "virtual"}},
                               {{"type", "virtual"}, {"lane_change", "no"}},
                               {{"type", "line_thin"}, {"subtype", "dashed"}},
                               {{"type", "line_thin"}, {"subtype", "dashed_solid"}},
                               {{"type", "line_thin"}, {"subtype", "solid_dashed"}},
                               {{"type", "wall"}, {"lane_change:left", "yes"}, {"lane_change:right", "no"}},
                               {{"type", "wall"}, {"lane_change:left", "no"}, {"lane_change:right", "yes"}},
                               {{"type", "wall"}, {"lane_change", "yes"}}};
  const std::vector<Tags> kinds = c.quick ? std::vector<Tags>{{{"subtype", "walkway"}}, {{"subtype", "shared_walkway"}, {"one_way", "no"}}, {{"subtype", "road"}, {"one_way", "yes"}}}
                                          : std::vector<Tags>{{{"subtype", "walkway"}}, {{"subtype", "walkway"}, {"one_way", "yes"}}, {{"subtype", "shared_walkway"}, {"one_way", "no"}}, {{"subtype", "road"}, {"one_way", "yes"}},
                                                              {{"subtype", "play_street"}, {"one_way:pedestrian", "yes"}}, {{"subtype", "crosswalk"}, {"participant:bicycle", "yes"}}};
  // shape of a cell: 0..3 lanelet driving east, north, west, south; 4..7 area with its border starting at corner k; 8 is a triangle-like area of 2 lines
  const int nShapes = 9;
  for (int sa = 0; sa < nShapes; ++sa) {
    for (int sb = 0; sb < nShapes; ++sb) {
      for (int nLines = 1; nLines <= 2; ++nLines) {            // the common side consists of one line or of two
        if (nLines == 2 && (sa < 4 || sb < 4)) continue;      // only areas have more than one line on a side
        for (size_t b1 = 0; b1 < bord.size(); ++b1) {
          for (size_t b2 = 0; b2 < (nLines == 2 ? bord.size() : 1); ++b2) {
            if (nLines == 2 && c.quick && b1 > 4 && b2 > 4) continue;
            c.run([&] { return "passing between neighbours of shapes " + std::to_string(sa) + " and " + std::to_string(sb) + " across " + show(bord[b1]) + (nLines == 2 ? " and " + show(bord[b2]) : ""); },
                  [&] {
                    for (int rev = 0; rev < (nLines == 2 ? 4 : 2); ++rev) {
                      // corners: a = [0,1]x[0,1], b = [1,2]x[0,1]; common side from (1,0) to (1,1)
                      auto P = [](Id id, double x, double y) { return Point3d(id, x, y, 0); };
                      Point3d p00 = P(1, 0, 0), p10 = P(2, 1, 0), p20 = P(3, 2, 0), p01 = P(4, 0, 1), p11 = P(5, 1, 1), p21 = P(6, 2, 1), m = P(7, 1, 0.5);
                      auto line = [&](Id id, Points3d ps, const Tags& t, bool r) {
                        if (!r) return LineString3d(id, ps, attrs(t));
                        std::reverse(ps.begin(), ps.end());
                        return LineString3d(id, ps, attrs(t)).invert();
                      };
                      // the common side, as seen running north
                      LineStrings3d common;
                      if (nLines == 1) {
                        common = {line(10, {p10, p11}, bord[b1], rev & 1)};
                      } else {
                        common = {line(10, {p10, m}, bord[b1], rev & 1), line(11, {m, p11}, bord[b2], rev & 2)};
                      }
                      LineString3d aS(20, {p00, p10}), aN(21, {p01, p11}), aW(22, {p00, p01}), bS(23, {p10, p20}), bN(24, {p11, p21}), bE(25, {p20, p21});
                      // which changes are possible across line k of the common side, going east / going west
                      auto may = [&](const std::string& p, size_t k, bool east, bool virt) {
                        Change ch = changeOf(bord[k == 0 ? b1 : b2], p, virt);
                        if (rev & (1 << k)) ch = inverse(ch);
                        return bool(ch & (east ? RIGHT : LEFT));
                      };
                      auto sides = [&](bool isA) {
                        // N, E, S, W, all running clockwise around the cell
                        std::vector<LineStrings3d> s(4);
                        LineStrings3d down{common.rbegin(), common.rend()};
                        for (auto& l : down) l = l.invert();
                        if (isA) {
                          s[0] = {aN};
                          s[1] = down;
                          s[2] = {aS.invert()};
                          s[3] = {aW};
                        } else {
                          s[0] = {bN};
                          s[1] = {bE.invert()};
                          s[2] = {bS.invert()};
                          s[3] = common;
                        }
                        return s;
                      };
                      auto mkLanelet = [&](bool isA, int dir, const Tags& t) {
                        auto s = sides(isA);
                        // driving east: left = N as is, right = S inverted
                        const int left = (dir == 0 ? 0 : dir == 1 ? 3 : dir == 2 ? 2 : 1), right = (left + 2) % 4;
                        return Lanelet(isA ? 30 : 31, s[left][0], s[right][0].invert(), attrs(t));
                      };
                      auto mkArea = [&](bool isA, int k, const Tags& t) {
                        auto s = sides(isA);
                        LineStrings3d o;
                        for (int i = 0; i < 4; ++i) o.insert(o.end(), s[(i + k) % 4].begin(), s[(i + k) % 4].end());
                        if (k == 4) {  // all sides but the common one in one line
                          auto outer = [&](std::vector<Point3d> ps) { return LineString3d(isA ? 40 : 41, ps); };
                          o = s[isA ? 1 : 3];
                          o.push_back(isA ? outer({p10, p00, p01, p11}) : outer({p11, p21, p20, p10}));
                        }
                        return Area(isA ? 30 : 31, o, {}, attrs(t));
                      };
                      for (auto& ta : kinds) {
                        for (auto& tb : kinds) {
                          Optional<Lanelet> la, lb;
                          Optional<Area> ra, rb;
                          if (sa < 4) la = mkLanelet(true, sa, ta); else ra = mkArea(true, sa - 4, ta);
                          if (sb < 4) lb = mkLanelet(false, sb, tb); else rb = mkArea(false, sb - 4, tb);
                          for (auto& p : who) {
                            auto& r = *rules[p];
                            const bool car = p == "vehicle";
                            auto useA = [&](const Tags& t) { return !car && mayUse(t, p); };
                            bool anyE = false, anyW = false;
                            for (int k = 0; k < nLines; ++k) {
                              anyE = anyE || may(p, k, true, true);
                              anyW = anyW || may(p, k, false, true);
                            }
                            auto say = [&] { return p + (rev ? ", lines stored the other way round, " : " ") + show(ta) + show(tb); };
                            if (ra && rb) {
                              c.step(2);
                              const bool ok = useA(ta) && useA(tb);
                              MC_REQUIRE(r.canPass(ConstArea(*ra), ConstArea(*rb)) == (ok && anyE), "area-area", say());
                              MC_REQUIRE(r.canPass(ConstArea(*rb), ConstArea(*ra)) == (ok && anyW), "area-area", say());
                              MC_REQUIRE(!r.canPass(ConstArea(*ra), ConstArea(*ra)), "area-itself", say());
                            }
                            for (int inv = 0; inv < 4; ++inv) {
                              auto drive = [&](const Lanelet& l, const Tags& t, bool& known) {
                                auto m2 = mayReverse(t, p);
                                if (l.inverted() && m2 == UNSPECIFIED) known = false;
                                return mayUse(t, p) && (!l.inverted() || m2 == YES);
                              };
                              bool known = true;
                              if (la && lb) {
                                Lanelet x = inv & 1 ? la->invert() : *la, y = inv & 2 ? lb->invert() : *lb;
                                const bool ok = drive(x, ta, known) && drive(y, tb, known);
                                if (!known) continue;
                                const int dx = inv & 1 ? (sa + 2) % 4 : sa, dy = inv & 2 ? (sb + 2) % 4 : sb;
                                c.step(4);
                                MC_REQUIRE(r.canPass(ConstLanelet(x), ConstLanelet(y)) == (ok && dx == 0 && dy == 0), "lanelet-lanelet", say());
                                MC_REQUIRE(r.canPass(ConstLanelet(y), ConstLanelet(x)) == (ok && dx == 2 && dy == 2), "lanelet-lanelet", say());
                                MC_REQUIRE(r.canChangeLane(x, y) == (ok && dx == dy && dx % 2 == 1 && may(p, 0, true, false)), "lane-change", say());
                                MC_REQUIRE(r.canChangeLane(y, x) == (ok && dx == dy && dx % 2 == 1 && may(p, 0, false, false)), "lane-change", say());
                              } else if (la && rb) {
                                if (inv & 2) continue;
                                Lanelet x = inv & 1 ? la->invert() : *la;
                                const int dx = inv & 1 ? (sa + 2) % 4 : sa;
                                const bool ok = drive(x, ta, known) && useA(tb);
                                if (!known) continue;
                                // into the area: by its end (driving east) or to the side (driving north or south); never backwards
                                c.step(2);
                                const bool in = ok && dx != 2 && anyE, out = ok && dx != 0 && anyW;
                                MC_REQUIRE(r.canPass(ConstLanelet(x), ConstArea(*rb)) == in, "lanelet-area", say() << " driving " << dx);
                                MC_REQUIRE(r.canPass(ConstArea(*rb), ConstLanelet(x)) == out, "area-lanelet", say() << " driving " << dx);
                                c.outcome(std::to_string(in) + std::to_string(out));
                              } else if (ra && lb) {
                                if (inv & 1) continue;
                                Lanelet y = inv & 2 ? lb->invert() : *lb;
                                const int dy = inv & 2 ? (sb + 2) % 4 : sb;
                                const bool ok = drive(y, tb, known) && useA(ta);
                                if (!known) continue;
                                c.step(2);
                                const bool in = ok && dy != 0 && anyW, out = ok && dy != 2 && anyE;
                                MC_REQUIRE(r.canPass(ConstLanelet(y), ConstArea(*ra)) == in, "lanelet-area", say() << " driving " << dy);
                                MC_REQUIRE(r.canPass(ConstArea(*ra), ConstLanelet(y)) == out, "area-lanelet", say() << " driving " << dy);
                              }
                            }
                          }
                        }
                      }
                    }
                    c.state(std::to_string(sa) + "." + std::to_string(sb) + "." + std::to_string(b1) + "." + std::to_string(b2));
                  });
          }
        }
      }
    }
  }
}

// an area that touches a lanelet on any of its four sides
void t04around(mc::Ctx& c) {
  const std::vector<std::string> who{"pedestrian", "bicycle"};
  std::map<std::string, TrafficRulesPtr> rules;
  for (auto& p : who) rules[p] = TrafficRulesFactory::create(Locations::Germany, p);
  const std::vector<Tags> bord{{}, {{"type", "virtual"}}, {{"type", "curbstone"}, {"subtype", "low"}}, {{"type", "wall"}, {"lane_change:left", "yes"}, {"lane_change:right", "no"}}, {{"type", "line_thin"}, {"subtype", "dashed_solid"}}};
  for (int touch = 1; touch < 15; ++touch) {
    for (int rot = 0; rot < 4; ++rot) {
      c.run([&] { return "an area that touches a lanelet on the sides " + std::to_string(touch) + " (1 right, 2 front, 4 left, 8 back), its bound starting with side " + std::to_string(rot); }, [&] {
        mc::forSequences(int(bord.size()), __builtin_popcount(touch), [&](const std::vector<int>& bs) {
          for (int rev = 0; rev < 16; ++rev) {
            if (rev & ~touch) continue;
            auto P = [](Id id, double x, double y) { return Point3d(id, x, y, 0); };
            // driving north; corners: right-rear, right-front, left-front, left-rear. The sides run with the area on their right.
            Point3d q[4] = {P(1, 1, 0), P(2, 1, 1), P(3, 0, 1), P(4, 0, 0)}, out[4] = {P(5, 2, 0.5), P(6, 0.5, 2), P(7, -1, 0.5), P(8, 0.5, -1)};
            LineString3d sideLine[4];
            Tags tg[4];
            int n = 0;
            for (int k = 0; k < 4; ++k) {
              if (touch & (1 << k)) tg[k] = bord[bs[n++]];
              Points3d ps{q[k], q[(k + 1) % 4]};
              if (rev & (1 << k)) std::reverse(ps.begin(), ps.end());
              sideLine[k] = LineString3d(10 + k, ps, attrs(tg[k]));
              if (rev & (1 << k)) sideLine[k] = sideLine[k].invert();
            }
            LineStrings3d outer;
            for (int i = 0; i < 4; ++i) {
              const int k = (i + rot) % 4;
              if (touch & (1 << k)) outer.push_back(sideLine[k]);
              else outer.push_back(LineString3d(20 + k, {q[k], out[k], q[(k + 1) % 4]}));
            }
            Area area(30, outer, {}, attrs({{"subtype", "shared_walkway"}}));
            Lanelet ll(31, sideLine[2].invert(), sideLine[0], attrs({{"subtype", "shared_walkway"}, {"one_way", "no"}}));
            for (auto& p : who) {
              // crossing a side into the area goes to its right, out of it to its left
              bool enter[4], leave[4];
              for (int k = 0; k < 4; ++k) {
                Change ch = changeOf(tg[k], p, true);
                if (rev & (1 << k)) ch = inverse(ch);
                enter[k] = (touch & (1 << k)) && (ch & RIGHT);
                leave[k] = (touch & (1 << k)) && (ch & LEFT);
              }
              auto& r = *rules[p];
              c.step(4);
              auto say = [&] { return p + " with sides " + show(tg[0]) + show(tg[1]) + show(tg[2]) + show(tg[3]) + " stored the other way round: " + std::to_string(rev); };
              MC_REQUIRE(r.canPass(ConstLanelet(ll), ConstArea(area)) == (enter[0] || enter[1] || enter[2]), "into-surrounding-area", say());
              MC_REQUIRE(r.canPass(ConstArea(area), ConstLanelet(ll)) == (leave[0] || leave[2] || leave[3]), "out-of-surrounding-area", say());
              MC_REQUIRE(r.canPass(ConstLanelet(ll.invert()), ConstArea(area)) == (enter[0] || enter[2] || enter[3]), "into-surrounding-area-backwards", say());
              MC_REQUIRE(r.canPass(ConstArea(area), ConstLanelet(ll.invert())) == (leave[0] || leave[1] || leave[2]), "out-of-surrounding-area-backwards", say());
            }
          }
        });
        c.state("around" + std::to_string(touch) + "." + std::to_string(rot));
      });
    }
  }
}

// ---- extension and registration
struct Scripted : GenericTrafficRules {
  using GenericTrafficRules::GenericTrafficRules;
  static int answer;  // of canPass(regelems): 0 none, 1 yes, 2 no
  static int speed;   // of speedLimit(regelems): 0 none, n km/h
  static int typeAnswer;
  CountrySpeedLimits limits{{Velocity(11 * units::KmH()), true}, {Velocity(12 * units::KmH()), false}, {Velocity(13 * units::KmH()), true}, {Velocity(14 * units::KmH()), false},
                            {Velocity(15 * units::KmH()), true}, {Velocity(16 * units::KmH()), false}, {Velocity(17 * units::KmH()), true}};
 protected:
  Optional<bool> canPass(const RegulatoryElementConstPtrs& r) const override {
    if (answer == 0 || r.empty()) return {};
    return answer == 1;
  }
  const CountrySpeedLimits& countrySpeedLimits() const override { return limits; }
  Optional<SpeedLimitInformation> speedLimit(const RegulatoryElementConstPtrs& r) const override {
    if (speed == 0 || r.empty()) return {};
    return SpeedLimitInformation{Velocity(speed * units::KmH()), false};
  }
  using GenericTrafficRules::canPass;
};
int Scripted::answer = 0, Scripted::speed = 0, Scripted::typeAnswer = 0;
struct ScriptedOther : Scripted {
  using Scripted::Scripted;
};

void t05(mc::Ctx& c) {
  std::vector<std::string> regs{"vehicle", "vehicle:car", "vehicle:bus", "pedestrian", "bicycle"};
  int place = 0;
  // registration: all sets of registered participants, all participants asked for
  for (int mask = 0; mask < 32; ++mask) {
    c.run([&] { return "rules registered for the subset " + std::to_string(mask) + " of the participants"; }, [&] {
      const std::string loc = "x" + std::to_string(mask);
      for (size_t i = 0; i < regs.size(); ++i) {
        if (mask & (1 << i)) {
          TrafficRulesFactory::instance().registerStrategy(loc, regs[i], [tag = regs[i]](const TrafficRules::Configuration& cf) -> TrafficRulesUPtr {
            auto copy = cf;
            copy["made_for"] = tag;
            return std::make_unique<Scripted>(copy);
          });
        }
      }
      auto all = TrafficRulesFactory::availableTrafficRules();
      for (size_t i = 0; i < regs.size(); ++i) {
        const bool listed = std::find(all.begin(), all.end(), std::make_pair(loc, regs[i])) != all.end();
        MC_REQUIRE(listed == bool(mask & (1 << i)), "listing", loc << " " << regs[i]);
      }
      auto ask = Participants_;
      ask.push_back("train");
      ask.push_back("");
      for (auto& p : ask) {
        c.step();
        std::string want;  // the exact one, or that for vehicles
        bool exact = false;
        for (size_t i = 0; i < regs.size(); ++i) exact = exact || (mask & (1 << i) && regs[i] == p);
        bool general = isA(p, "vehicle") && (mask & 1);
        TrafficRulesUPtr r;
        try {
          r = TrafficRulesFactory::create(loc, p, {{"extra", Attribute("1")}, {"participant", Attribute("wrong")}});
        } catch (const InvalidInputError&) {
        }
        if (exact || general) {
          MC_REQUIRE(!!r, "not-found", "rules for " << p);
          MC_REQUIRE(r->configuration().at("made_for").value() == (exact ? p : "vehicle"), "wrong-rules", "rules for " << p << " are those for " << r->configuration().at("made_for").value());
          MC_REQUIRE(r->participant() == p && r->location() == loc && r->configuration().at("extra").value() == "1", "configuration", p);
        } else if (!(isA(p, "vehicle:car") && (mask & 2))) {
          // (a specialisation of a registered specialisation may or may not be found)
          MC_REQUIRE(!r, "found", "rules for " << p << " although none are registered");
        }
      }
      bool threw = false;
      try {
        TrafficRulesFactory::create("nowhere", "vehicle");
      } catch (const InvalidInputError&) {
        threw = true;
      }
      MC_REQUIRE(threw, "unknown-location", "");
    });
  }
  (void)place;
  // regulatory elements first, then overriding tags, then the type
  for (auto& sub : Subtypes) {
    for (auto& po : overrides("participant", {"vehicle", "vehicle:car", "pedestrian", "bicycle"}, 2)) {
      for (int answer = 0; answer < 3; ++answer) {
        for (int speed = 0; speed < 60; speed += 25) {
          Tags t = po;
          if (!sub.empty()) t["subtype"] = sub;
          c.run([&] { return "own rules that answer " + std::to_string(answer) + "/" + std::to_string(speed) + " on " + show(t); }, [&] {
            Scripted::answer = answer;
            Scripted::speed = speed;
            for (auto& p : Participants_) {
              Scripted own(TrafficRules::Configuration{{"participant", Attribute(p)}, {"location", Attribute("zz")}});
              const TrafficRules& r = own;
              for (auto* way : {"", "yes", "no"}) {
                for (auto* lim : {"", "33"}) {
                  for (int dyn = 0; dyn < 4; ++dyn) {  // number of rules and whether the second one is dynamic
                    Tags tw = t;
                    if (*way) tw["one_way"] = way;
                    if (*lim) tw["speed_limit"] = lim;
                    Geo g;
                    Lanelet ll(9, g.l, g.r, attrs(tw));
                    Area area(8, {LineString3d(7, {g.a, g.b, g.d, g.c, g.a})}, {}, attrs(tw));
                    if (dyn >= 1) {
                      auto re = SpeedLimit::make(40, {}, "30");
                      ll.addRegulatoryElement(re);
                      area.addRegulatoryElement(re);
                    }
                    if (dyn >= 2) ll.addRegulatoryElement(SpeedLimit::make(41, attrs({{"dynamic", dyn == 3 ? "yes" : "no"}}), "30"));
                    c.step();
                    bool use = mayUse(t, p);
                    const bool decided = dyn >= 1 && answer;
                    if (decided) use = answer == 1;
                    MC_REQUIRE(r.canPass(ConstLanelet(ll)) == use, "rule-first", p << " on " << show(tw));
                    MC_REQUIRE(r.canPass(ConstArea(area)) == use, "rule-first-area", p << " on " << show(tw));
                    auto rev = mayReverse(tw, p);
                    MC_REQUIRE(r.canPass(ConstLanelet(ll.invert())) == (use && rev == YES), "rule-first-inverted", p << " against " << show(tw));
                    MC_REQUIRE(r.hasDynamicRules(ll) == (dyn == 3) && r.hasDynamicRules(ll.invert()) == (dyn == 3), "dynamic", dyn);
                    auto s = r.speedLimit(ConstLanelet(ll));
                    double kmh = units::KmHQuantity(s.speedLimit).value();
                    if (dyn >= 1 && speed) {
                      MC_REQUIRE(std::fabs(kmh - speed) < 1e-9 && !s.isMandatory, "rule-speed", p << " on " << show(tw) << " " << kmh);
                    } else if (*lim) {
                      MC_REQUIRE(std::fabs(kmh - 33) < 1e-9 && s.isMandatory, "tag-speed", p << " on " << show(tw) << " " << kmh);
                    } else {
                      SpeedLimitInformation w{};
                      bool known = true;
                      if (p == "pedestrian") w = own.limits.pedestrian;
                      else if (p == "bicycle") w = own.limits.bicycle;
                      else if (sub.empty() || sub == "road" || sub == "bus_lane" || sub == "exit") w = own.limits.vehicleUrbanRoad;
                      else if (sub == "highway") w = own.limits.vehicleUrbanHighway;
                      else if (sub == "play_street") w = own.limits.playStreet;
                      else known = false;
                      if (known) MC_REQUIRE(std::fabs(kmh - units::KmHQuantity(w.speedLimit).value()) < 1e-9 && s.isMandatory == w.isMandatory, "country-speed", p << " on " << show(tw) << " " << kmh);
                    }
                    c.outcome(std::to_string(use) + std::to_string(kmh));
                  }
                }
              }
            }
            c.state(show(t));
          });
        }
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv,
                      {{"T01", t01, "one case per combination of subtype, location and participant tags; for every combination of one_way tags, every participant and both directions canPass and isOneWay are compared with the tagging scheme", {}},
                       {"T02", t02, "one case per set of tags of a common border; all pairs of lanelet kinds, participants, directions of travel and of the stored line", {}},
                       {"T03", t03, "one case per combination of subtype, location, speed limit tags; all participants and traffic signs", {}},
                       {"T04", [](mc::Ctx& c) { t04(c); t04around(c); }, "one case per pair of neighbouring shapes and kind of border; all directions, kinds and participants", {}},
                       {"T05", t05, "one case per set of registered rules, and per scripted answer of own rules and tags", {}}});
}
