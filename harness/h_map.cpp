// C06 LaneletMap operation histories, C11 submap histories, C07 spatial queries against brute force.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>

#include <algorithm>
#include <cmath>

#include "mc.hpp"
using namespace lanelet;

namespace {
// ------------------------------------------------------------------ a pool of primitives that share members
enum Kind { PT, LS, PG, LL, AR, RE };
const char* kindName(int k) {
  static const char* n[] = {"point", "linestring", "polygon", "lanelet", "area", "regulatory element"};
  return n[k];
}
using Node = std::pair<int, int>;  // kind, index in the pool
struct Pool {
  std::vector<Point3d> pt;
  std::vector<LineString3d> ls;
  std::vector<Polygon3d> pg;
  std::vector<Lanelet> ll;
  std::vector<Area> ar;
  std::vector<RegulatoryElementPtr> re;
  std::vector<const void*> dataPt, dataLs, dataPg, dataLl, dataAr, dataRe;
  std::map<Node, std::vector<Node>> members;     // what add() has to bring along
  std::map<Node, std::vector<Node>> weak;        // referenced weakly
  std::map<Node, Id> given;                      // id at construction (InvalId possible)
  std::vector<bool> llHeld, arHeld;              // does the pool itself still hold a strong handle
  Id base{};

  const void* data(Node n) const {
    const std::vector<const void*>* v[] = {&dataPt, &dataLs, &dataPg, &dataLl, &dataAr, &dataRe};
    return (*v[n.first])[size_t(n.second)];
  }

  // mask: which kinds get InvalId (bit per kind, applied to some members of each kind)
  explicit Pool(unsigned mask, bool shareReg) {
    base = utils::getId() + 50;
    Id next = base;
    auto idFor = [&](int kind, int k) -> Id {
      next += 1000;  // nothing that gets a new id may meet an id that was given
      Id id = ((mask >> kind) & 1) != 0 && k % 2 == 0 ? InvalId : next;
      given[{kind, k}] = id;
      return id;
    };
    const double c[][2] = {{0, 0}, {4, 0}, {0, 3}, {4, 3}, {0, 6}, {4, 6}, {8, 0}, {8, 3}, {1, 1}, {2, 1}, {1, 2}};
    for (int i = 0; i < 11; ++i) {
      pt.emplace_back(idFor(PT, i), c[i][0], c[i][1], double(i % 3));
    }
    auto line = [&](std::vector<int> p) {
      Points3d ps;
      int k = int(ls.size());
      for (int i : p) {
        ps.push_back(pt[size_t(i)]);
        members[{LS, k}].push_back({PT, i});
      }
      ls.emplace_back(idFor(LS, k), ps);
    };
    line({0, 1});      // 0 bottom
    line({2, 3});      // 1 middle
    line({5, 4});      // 2 top, drawn backwards
    line({1, 6, 7, 3});// 3 right side of the area
    line({8, 9, 10});  // 4 hole
    line({3, 1});      // 5 left side of the area
    line({0, 9});      // 6 stop line, only in a regulatory element
    line({2, 9, 3});   // 7 custom centerline
    line({10, 8});     // 8 the rest of the border of a hole
    auto poly = [&](std::vector<int> p) {
      Points3d ps;
      int k = int(pg.size());
      for (int i : p) {
        ps.push_back(pt[size_t(i)]);
        members[{PG, k}].push_back({PT, i});
      }
      pg.emplace_back(idFor(PG, k), ps);
    };
    poly({8, 9, 10});
    poly({0, 1, 3});
    // lanelets
    auto mkLl = [&](LineString3d l, int li, LineString3d r, int ri) {
      int k = int(ll.size());
      members[{LL, k}] = {{LS, li}, {LS, ri}};
      ll.emplace_back(idFor(LL, k), l, r);
    };
    mkLl(ls[1], 1, ls[0], 0);
    mkLl(ls[2].invert(), 2, ls[1], 1);
    mkLl(ls[0].invert(), 0, ls[1].invert(), 1);  // the first one, the other way round
    ll[2].setCenterline(ls[7]);
    members[{LL, 2}].push_back({LS, 7});
    ar.emplace_back(idFor(AR, 0), LineStrings3d{ls[3], ls[5]}, InnerBounds{LineStrings3d{ls[4], ls[8]}});
    members[{AR, 0}] = {{LS, 3}, {LS, 5}, {LS, 4}, {LS, 8}};
    ar.emplace_back(idFor(AR, 1), LineStrings3d{ls[4]});
    members[{AR, 1}] = {{LS, 4}};
    // regulatory elements
    auto mkRe = [&](std::vector<std::pair<RuleParameter, Node>> ps, std::vector<bool> isWeak) {
      int k = int(re.size());
      RuleParameterMap m;
      const char* roles[] = {"refers", "ref_line", "refers", "yield", "cancels"};
      for (size_t i = 0; i < ps.size(); ++i) {
        m[roles[i]].push_back(ps[i].first);
        (isWeak[i] ? weak : members)[{RE, k}].push_back(ps[i].second);
      }
      re.push_back(std::make_shared<GenericRegulatoryElement>(idFor(RE, k), m));
    };
    mkRe({{WeakLanelet(ll[0]), {LL, 0}}, {ls[6], {LS, 6}}, {pg[1], {PG, 1}}, {WeakLanelet(ll[1]), {LL, 1}}},
         {true, false, false, true});
    mkRe({{WeakArea(ar[1]), {AR, 1}}, {pt[10], {PT, 10}}, {WeakLanelet(ll[2]), {LL, 2}}}, {true, false, true});
    mkRe({}, {});
    auto give = [&](int l, int r) {
      ll[size_t(l)].addRegulatoryElement(re[size_t(r)]);
      members[{LL, l}].push_back({RE, r});
    };
    give(0, 0);  // refers back to its own lanelet
    if (shareReg) {
      give(1, 0);
    }
    give(2, 2);
    ar[0].addRegulatoryElement(re[1]);
    members[{AR, 0}].push_back({RE, 1});
    for (auto& x : pt) dataPt.push_back(x.constData().get());
    for (auto& x : ls) dataLs.push_back(x.constData().get());
    for (auto& x : pg) dataPg.push_back(x.constData().get());
    for (auto& x : ll) dataLl.push_back(x.constData().get());
    for (auto& x : ar) dataAr.push_back(x.constData().get());
    for (auto& x : re) dataRe.push_back(x.get());
    llHeld.assign(ll.size(), true);
    arHeld.assign(ar.size(), true);
  }
};

struct Model {
  std::set<Node> in;       // elements of the map
  std::map<Node, Id> ids;  // the ids they have
};
bool alive(const Pool& p, const Model& m, Node n) {
  if (n.first == LL && !p.llHeld[size_t(n.second)]) return m.in.count(n) != 0;
  if (n.first == AR && !p.arHeld[size_t(n.second)]) return m.in.count(n) != 0;
  return true;
}
void closureAdd(const Pool& p, Model& m, Node n) {
  if (!m.in.insert(n).second) return;
  auto it = p.members.find(n);
  if (it != p.members.end()) {
    for (auto c : it->second) closureAdd(p, m, c);
  }
  it = p.weak.find(n);
  if (it != p.weak.end()) {
    for (auto c : it->second) {
      if (alive(p, m, c)) closureAdd(p, m, c);
    }
  }
}
template <typename T>
const void* dataOf(const T& p) {
  return p.constData().get();
}
template <>
const void* dataOf(const RegulatoryElementPtr& p) {
  return p.get();
}
template <>
const void* dataOf(const RegulatoryElementConstPtr& p) {
  return p.get();
}
template <typename T>
Id idOf(const T& p) {
  return p.id();
}
template <>
Id idOf(const RegulatoryElementPtr& p) {
  return p->id();
}
template <>
Id idOf(const RegulatoryElementConstPtr& p) {
  return p->id();
}
std::string nm(const Pool& p, const void* d) {
  const std::vector<const void*>* v[] = {&p.dataPt, &p.dataLs, &p.dataPg, &p.dataLl, &p.dataAr, &p.dataRe};
  for (int k = 0; k < 6; ++k) {
    for (size_t i = 0; i < v[k]->size(); ++i) {
      if ((*v[k])[i] == d) return std::string(kindName(k)) + std::to_string(i);
    }
  }
  return "foreign";
}
std::set<const void*> expect(const Pool& p, const std::set<Node>& in, int kind) {
  std::set<const void*> s;
  for (auto n : in) {
    if (n.first == kind) s.insert(p.data(n));
  }
  return s;
}
std::string showSet(const Pool& p, const std::set<const void*>& s) {
  std::vector<std::string> v;
  for (auto x : s) v.push_back(nm(p, x));
  std::sort(v.begin(), v.end());
  return "{" + mc::join(v, " ") + "}";
}

template <typename LayerT>
void checkLayer(const Pool& pool, const std::set<Node>& in, Model* m, LayerT& layer, int kind, const std::string& when) {
  const LayerT& cl = layer;
  auto exp = expect(pool, in, kind);
  std::set<const void*> got, gotC;
  std::set<Id> ids;
  for (auto it = layer.begin(); it != layer.end(); ++it) {
    auto e = *it;
    MC_REQUIRE(got.insert(dataOf(e)).second, "element-twice", nm(pool, dataOf(e)) << " is in its layer twice " << when);
    Id id = idOf(e);
    MC_REQUIRE(id != InvalId, "invalid-id-in-map", nm(pool, dataOf(e)) << " has no id " << when);
    MC_REQUIRE(ids.insert(id).second, "id-not-unique", "id of " << nm(pool, dataOf(e)) << " is used twice " << when);
  }
  for (auto it = cl.begin(); it != cl.end(); ++it) gotC.insert(dataOf(*it));
  MC_REQUIRE(got == exp, "layer-content",
             kindName(kind) << " layer holds " << showSet(pool, got) << " instead of " << showSet(pool, exp) << " " << when);
  MC_REQUIRE(gotC == exp, "layer-content-const", kindName(kind) << " layer seen const differs " << when);
  MC_REQUIRE(cl.size() == exp.size() && cl.empty() == exp.empty(), "layer-size", kindName(kind) << " layer size " << cl.size());
  for (auto it = layer.begin(); it != layer.end(); ++it) {
    auto e = *it;
    Id id = idOf(e);
    MC_REQUIRE(cl.exists(id), "exists", "exists(" << id - pool.base << ")");
    MC_REQUIRE(dataOf(layer.get(id)) == dataOf(e) && dataOf(cl.get(id)) == dataOf(e), "get", "get returns something else");
    MC_REQUIRE(layer.find(id) != layer.end() && dataOf(*layer.find(id)) == dataOf(e), "find", "find");
    MC_REQUIRE(cl.find(id) != cl.end() && dataOf(*cl.find(id)) == dataOf(e), "find-const", "find const");
  }
  // ids nobody uses
  Id unused = layer.uniqueId();
  MC_REQUIRE(!cl.exists(unused), "unique-id-used", "uniqueId() returns an id that is used in the layer " << when);
  for (Id id : {Id(InvalId), unused, Id(-5)}) {
    MC_REQUIRE(!cl.exists(id), "exists-wrong", "exists(unused)");
    if (id != InvalId) {
      MC_REQUIRE(cl.find(id) == cl.end() && layer.find(id) == layer.end(), "find-wrong", "find(unused)");
    }
    int thrown = 0;
    try {
      layer.get(id);
    } catch (const NoSuchPrimitiveError&) {
      ++thrown;
    }
    try {
      cl.get(id);
    } catch (const NoSuchPrimitiveError&) {
      ++thrown;
    }
    MC_REQUIRE(thrown == 2, "get-missing", "get(" << id << ") has to throw NoSuchPrimitiveError");
  }
  // everything with an extent is found by a search over everything, once
  std::multiset<const void*> found;
  for (auto& e : cl.search(BoundingBox2d(BasicPoint2d(-1e6, -1e6), BasicPoint2d(1e6, 1e6)))) found.insert(dataOf(e));
  std::set<const void*> found1(found.begin(), found.end());
  auto expExt = exp;
  if (kind == RE) expExt.erase(pool.data({RE, 2}));  // has no parameters, therefore no extent
  MC_REQUIRE(found.size() == found1.size(), "search-duplicates", kindName(kind) << " search returns an element twice " << when);
  if (kind != RE) {
    MC_REQUIRE(found1 == expExt, "search-all",
               kindName(kind) << " search finds " << showSet(pool, found1) << " instead of " << showSet(pool, expExt) << " " << when);
  } else {
    for (auto d : expExt) {
      MC_REQUIRE(found1.count(d) != 0, "search-all", nm(pool, d) << " is not found by a search " << when);
    }
  }
}
template <typename V>
std::set<const void*> dataSet(const V& v) {
  std::set<const void*> s;
  for (auto& e : v) s.insert(dataOf(e));
  return s;
}
void checkUsages(const Pool& p, const std::set<Node>& in, LaneletMapLayers& map, const std::string& when) {
  const LaneletMapLayers& cm = map;
  auto usersOf = [&](Node what, int kind) {
    std::set<const void*> s;
    for (auto n : in) {
      if (n.first != kind) continue;
      for (auto* tab : {&p.members, &p.weak}) {
        auto it = tab->find(n);
        if (it != tab->end() && std::count(it->second.begin(), it->second.end(), what) != 0) s.insert(p.data(n));
      }
    }
    return s;
  };
  auto same = [&](const std::set<const void*>& a, const std::set<const void*>& b, const std::string& what) {
    MC_REQUIRE(a == b, "usages", what << ": " << showSet(p, a) << " instead of " << showSet(p, b) << " " << when);
  };
  for (size_t i = 0; i < p.pt.size(); ++i) {
    Node n{PT, int(i)};
    auto inLs = usersOf(n, LS);
    same(dataSet(map.lineStringLayer.findUsages(p.pt[i])), inLs, "line strings with point" + std::to_string(i));
    same(dataSet(cm.lineStringLayer.findUsages(p.pt[i])), inLs, "line strings (const) with point" + std::to_string(i));
    same(dataSet(cm.polygonLayer.findUsages(p.pt[i])), usersOf(n, PG), "polygons with point" + std::to_string(i));
    if (p.pt[i].id() != InvalId) {
      same(dataSet(utils::findUsages(cm.lineStringLayer, p.pt[i].id())), inLs, "utils::findUsages line strings");
      same(dataSet(utils::findUsages(cm.polygonLayer, p.pt[i].id())), usersOf(n, PG), "utils::findUsages polygons");
    }
    std::set<const void*> viaLl, viaAr;
    for (size_t k = 0; k < p.ls.size(); ++k) {
      if (inLs.count(p.dataLs[k]) == 0) continue;
      if (k != 7) {  // a centerline is not a bound
        auto u = usersOf({LS, int(k)}, LL);
        viaLl.insert(u.begin(), u.end());
      }
      auto u = usersOf({LS, int(k)}, AR);
      viaAr.insert(u.begin(), u.end());
    }
    same(dataSet(utils::findUsagesInLanelets(cm, p.pt[i])), viaLl, "findUsagesInLanelets(point" + std::to_string(i) + ")");
    same(dataSet(utils::findUsagesInAreas(cm, p.pt[i])), viaAr, "findUsagesInAreas(point" + std::to_string(i) + ")");
  }
  for (size_t k = 0; k < p.ls.size(); ++k) {
    Node n{LS, int(k)};
    auto both = [&](auto& layer) {
      auto s = dataSet(layer.findUsages(p.ls[k]));
      auto t = dataSet(layer.findUsages(p.ls[k].invert()));
      s.insert(t.begin(), t.end());
      return s;
    };
    auto u = usersOf(n, LL);
    if (k == 7) u.clear();
    same(both(map.laneletLayer), u, "lanelets with linestring" + std::to_string(k));
    same(both(cm.laneletLayer), u, "lanelets (const) with linestring" + std::to_string(k));
    same(both(cm.areaLayer), usersOf(n, AR), "areas with linestring" + std::to_string(k));
    // a lanelet is found by exactly the handle it has as bound
    for (auto& l : cm.laneletLayer) {
      for (auto b : {l.leftBound(), l.rightBound()}) {
        auto us = cm.laneletLayer.findUsages(b);
        MC_REQUIRE(std::find(us.begin(), us.end(), l) != us.end(), "usage-by-bound", "lanelet is not found by its own bound");
      }
    }
    same(dataSet(cm.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstLineString3d(p.ls[k])))), usersOf(n, RE),
         "regulatory elements with linestring" + std::to_string(k));
  }
  for (size_t i = 0; i < p.pg.size(); ++i) {
    same(dataSet(cm.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstPolygon3d(p.pg[i])))),
         usersOf({PG, int(i)}, RE), "regulatory elements with polygon" + std::to_string(i));
  }
  for (size_t i = 0; i < p.ll.size(); ++i) {
    if (!p.llHeld[i]) continue;
    same(dataSet(cm.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstWeakLanelet(p.ll[i])))),
         usersOf({LL, int(i)}, RE), "regulatory elements with lanelet" + std::to_string(i));
  }
  for (size_t i = 0; i < p.re.size(); ++i) {
    same(dataSet(map.laneletLayer.findUsages(p.re[i])), usersOf({RE, int(i)}, LL), "lanelets with regulatory element" + std::to_string(i));
    same(dataSet(cm.laneletLayer.findUsages(RegulatoryElementConstPtr(p.re[i]))), usersOf({RE, int(i)}, LL), "lanelets (const) with regulatory element" + std::to_string(i));
    same(dataSet(map.areaLayer.findUsages(p.re[i])), usersOf({RE, int(i)}, AR), "areas with regulatory element" + std::to_string(i));
    same(dataSet(cm.areaLayer.findUsages(RegulatoryElementConstPtr(p.re[i]))), usersOf({RE, int(i)}, AR), "areas (const) with regulatory element" + std::to_string(i));
  }
}
Id poolId(const Pool& p, Node n) {
  switch (n.first) {
    case PT: return p.pt[size_t(n.second)].id();
    case LS: return p.ls[size_t(n.second)].id();
    case PG: return p.pg[size_t(n.second)].id();
    case LL: return p.llHeld[size_t(n.second)] ? p.ll[size_t(n.second)].id() : Id(-99);
    case AR: return p.arHeld[size_t(n.second)] ? p.ar[size_t(n.second)].id() : Id(-99);
    default: return p.re[size_t(n.second)]->id();
  }
}
void checkMap(const Pool& p, Model& m, LaneletMapLayers& map, const std::string& when, bool usages = true) {
  checkLayer(p, m.in, &m, map.pointLayer, PT, when);
  checkLayer(p, m.in, &m, map.lineStringLayer, LS, when);
  checkLayer(p, m.in, &m, map.polygonLayer, PG, when);
  checkLayer(p, m.in, &m, map.laneletLayer, LL, when);
  checkLayer(p, m.in, &m, map.areaLayer, AR, when);
  checkLayer(p, m.in, &m, map.regulatoryElementLayer, RE, when);
  MC_REQUIRE(map.size() == m.in.size() && map.empty() == m.in.empty(), "map-size", "size() is " << map.size() << " " << when);
  // ids: given ones are kept, assigned ones never change again
  for (auto n : m.in) {
    Id id = poolId(p, n);
    if (id == -99) continue;
    Id g = p.given.at(n);
    if (g != InvalId) {
      MC_REQUIRE(id == g, "id-changed", "id of " << kindName(n.first) << n.second << " changed although it had one");
    } else if (m.ids.count(n) != 0) {
      MC_REQUIRE(m.ids[n] == id, "id-changed", "assigned id of " << kindName(n.first) << n.second << " changed " << when);
    }
    m.ids[n] = id;
  }
  if (usages) checkUsages(p, m.in, map, when);
}

struct MapWorld {
  Pool pool;
  Model model;
  LaneletMapUPtr map;
  explicit MapWorld(unsigned mask, bool share) : pool(mask, share), map(std::make_unique<LaneletMap>()) {}
};
struct MOp {
  std::string name;
  std::function<bool(MapWorld&)> f;
};
//! an id handed out by the library must be new to everything the maps know
std::vector<MOp> mapOps() {
  std::vector<MOp> o;
  auto addLl = [&](int k, bool inv) {
    o.push_back({"add(lanelet" + std::to_string(k) + (inv ? ".invert()" : "") + ")", [k, inv](MapWorld& w) {
                   if (!w.pool.llHeld[size_t(k)]) return false;
                   w.map->add(inv ? w.pool.ll[size_t(k)].invert() : w.pool.ll[size_t(k)]);
                   closureAdd(w.pool, w.model, {LL, k});
                   return true;
                 }});
  };
  addLl(0, false);
  addLl(1, true);
  addLl(2, false);
  addLl(2, true);
  for (int k = 0; k < 2; ++k) {
    o.push_back({"add(area" + std::to_string(k) + ")", [k](MapWorld& w) {
                   if (!w.pool.arHeld[size_t(k)]) return false;
                   w.map->add(w.pool.ar[size_t(k)]);
                   closureAdd(w.pool, w.model, {AR, k});
                   return true;
                 }});
  }
  for (int k = 0; k < 3; ++k) {
    o.push_back({"add(regulatory element" + std::to_string(k) + ")", [k](MapWorld& w) {
                   w.map->add(w.pool.re[size_t(k)]);
                   closureAdd(w.pool, w.model, {RE, k});
                   return true;
                 }});
  }
  o.push_back({"add(polygon0)", [](MapWorld& w) {
                 w.map->add(w.pool.pg[0]);
                 closureAdd(w.pool, w.model, {PG, 0});
                 return true;
               }});
  o.push_back({"add(linestring1.invert())", [](MapWorld& w) {
                 w.map->add(w.pool.ls[1].invert());
                 closureAdd(w.pool, w.model, {LS, 1});
                 return true;
               }});
  o.push_back({"add(point0)", [](MapWorld& w) {
                 w.map->add(w.pool.pt[0]);
                 closureAdd(w.pool, w.model, {PT, 0});
                 return true;
               }});
  o.push_back({"drop the handle of lanelet1", [](MapWorld& w) {
                 if (!w.pool.llHeld[1]) return false;
                 w.pool.llHeld[1] = false;
                 w.pool.ll[1] = Lanelet();
                 return true;
               }});
  o.push_back({"drop the handle of area1", [](MapWorld& w) {
                 if (!w.pool.arHeld[1]) return false;
                 w.pool.arHeld[1] = false;
                 w.pool.ar[1] = Area();
                 return true;
               }});
  o.push_back({"move the map", [](MapWorld& w) {
                 LaneletMap tmp = std::move(*w.map);
                 LaneletMap other;
                 other = std::move(tmp);
                 w.map = std::make_unique<LaneletMap>(std::move(other));
                 return true;
               }});
  o.push_back({"add(null regulatory element)", [](MapWorld& w) {
                 bool threw = false;
                 try {
                   w.map->add(RegulatoryElementPtr());
                 } catch (const NullptrError&) {
                   threw = true;
                 }
                 MC_REQUIRE(threw, "null-accepted", "add(nullptr) does not throw");
                 return true;
               }});
  return o;
}
struct Start {
  std::string name;
  std::function<void(MapWorld&)> f;
};
std::vector<Start> starts() {
  std::vector<Start> s;
  s.push_back({"empty map", [](MapWorld&) {}});
  s.push_back({"createMap(all points)", [](MapWorld& w) {
                 w.map = utils::createMap(w.pool.pt);
                 for (size_t i = 0; i < w.pool.pt.size(); ++i) closureAdd(w.pool, w.model, {PT, int(i)});
               }});
  s.push_back({"createMap(line strings 0 2 7 0)", [](MapWorld& w) {
                 w.map = utils::createMap(LineStrings3d{w.pool.ls[0], w.pool.ls[2], w.pool.ls[7], w.pool.ls[0]});
                 for (int i : {0, 2, 7}) closureAdd(w.pool, w.model, {LS, i});
               }});
  s.push_back({"createMap(polygons)", [](MapWorld& w) {
                 w.map = utils::createMap(w.pool.pg);
                 for (int i : {0, 1}) closureAdd(w.pool, w.model, {PG, i});
               }});
  auto lls = [&s](std::vector<int> l, std::vector<int> a, bool cst) {
    std::string n = std::string(cst ? "createConstMap" : "createMap") + "(lanelets " + mc::join(l, " ") + ", areas " + mc::join(a, " ") + ")";
    s.push_back({n, [l, a, cst](MapWorld& w) {
                   Lanelets ls;
                   ConstLanelets cls;
                   Areas as;
                   ConstAreas cas;
                   for (int i : l) {
                     ls.push_back(w.pool.ll[size_t(i)]);
                     cls.push_back(w.pool.ll[size_t(i)]);
                   }
                   for (int i : a) {
                     as.push_back(w.pool.ar[size_t(i)]);
                     cas.push_back(w.pool.ar[size_t(i)]);
                   }
                   if (cst) {
                     LaneletMapConstUPtr c = utils::createConstMap(cls, cas);
                     w.map.reset(const_cast<LaneletMap*>(c.release()));  // to run the same observations on it
                   } else {
                     w.map = a.empty() ? utils::createMap(ls) : l.empty() ? utils::createMap(as) : utils::createMap(ls, as);
                   }
                   for (int i : l) closureAdd(w.pool, w.model, {LL, i});
                   for (int i : a) closureAdd(w.pool, w.model, {AR, i});
                 }});
  };
  lls({0}, {}, false);
  lls({1, 2}, {}, false);
  lls({}, {0, 1}, false);
  lls({2, 0}, {0}, false);
  lls({0, 1, 2}, {0, 1}, true);
  lls({1}, {1}, true);
  return s;
}

void c06(mc::Ctx& c) {
  auto ops = mapOps();
  auto st = starts();
  const int R = int(ops.size());
  auto runCase = [&](unsigned mask, bool share, const Start& s0, const std::vector<int>& seq) {
    auto desc = [&] {
      std::string d = "ids missing on kinds " + std::to_string(mask) + (share ? ", shared regulatory element" : "") + "; " + s0.name;
      for (int i : seq) d += "; " + ops[size_t(i)].name;
      return d;
    };
    c.run(desc, [&] {
      MapWorld w(mask, share);
      s0.f(w);
      checkMap(w.pool, w.model, *w.map, "after " + s0.name, seq.empty());
      size_t k = 0;
      for (int i : seq) {
        Id before = utils::getId();
        std::set<Node> old = w.model.in;
        if (!ops[size_t(i)].f(w)) return;
        c.step();
        ++k;
        checkMap(w.pool, w.model, *w.map, "after step " + std::to_string(k), k == seq.size());
        // new ids do not collide with anything that has an id
        Id maxKnown = 0;
        for (auto n : w.model.in) {
          if (poolId(w.pool, n) != Id(-99)) maxKnown = std::max(maxKnown, poolId(w.pool, n));
          if (old.count(n) != 0 || w.pool.given[n] != InvalId) continue;
          MC_REQUIRE(poolId(w.pool, n) == Id(-99) || poolId(w.pool, n) > before, "assigned-id-not-new", "assigned id was handed out before");
        }
        MC_REQUIRE(utils::getId() > maxKnown, "id-not-registered", "getId() does not lie beyond the ids in the map after step " << k);
        std::string h = std::to_string(mask) + (share ? "s" : "");
        for (auto n : w.model.in) h += std::to_string(n.first * 20 + n.second) + (w.pool.given[n] == InvalId ? "i" : "") + ",";
        for (bool b : w.pool.llHeld) h += b ? '1' : '0';
        c.state(h);
        c.outcome(std::to_string(w.model.in.size()));
      }
    });
  };
  // maps created from primitives: ids have to be there, only regulatory elements and what they refer to may lack them
  for (auto& s : st) {
    for (bool share : {false, true}) {
      for (int len = 0; len <= (c.quick ? 2 : 3); ++len) {
        if (&s == &st[0]) continue;
        mc::forSequences(R, len, [&](const std::vector<int>& v) { runCase(0, share, s, v); });
      }
    }
  }
  for (unsigned mask = 0; mask < 64; ++mask) {
    const bool few = mask == 0 || mask == 63;
    for (bool share : {false, true}) {
      const int maxLen = c.quick ? (few && !share ? 3 : share && !few ? 1 : 2) : (few ? 5 : 4);
      for (int len = 1; len <= maxLen; ++len) {
        if (c.quick && len == 4 && mask == 0) continue;
        mc::forSequences(R, len, [&](const std::vector<int>& v) { runCase(mask, share, st[0], v); });
      }
    }
  }
}

// ------------------------------------------------------------------ C11
struct SubWorld {
  Pool pool;
  Model model;  // what was added
  std::set<Node> tracked;
  LaneletSubmapUPtr sub;
  explicit SubWorld(unsigned mask, bool share) : pool(mask, share), sub(std::make_unique<LaneletSubmap>()) {}
  bool isAlive(Node n) const { return alive(pool, model, n) || tracked.count(n) != 0 || model.in.count(n) != 0; }
  void track(Node re) {
    auto it = pool.weak.find(re);
    if (it == pool.weak.end()) return;
    for (auto n : it->second) {
      if (isAlive(n)) tracked.insert(n);
    }
  }
  void put(Node n) {
    model.in.insert(n);
    if (n.first == RE) track(n);
    if (n.first == LL || n.first == AR) {
      for (auto m : pool.members[n]) {
        if (m.first == RE) track(m);
      }
    }
  }
};
struct SOp {
  std::string name;
  std::function<bool(SubWorld&)> f;
};
std::vector<SOp> subOps() {
  std::vector<SOp> o;
  for (int k = 0; k < 3; ++k) {
    o.push_back({"add(lanelet" + std::to_string(k) + ")", [k](SubWorld& w) {
                   if (!w.pool.llHeld[size_t(k)]) return false;
                   w.sub->add(w.pool.ll[size_t(k)]);
                   w.put({LL, k});
                   return true;
                 }});
  }
  for (int k = 0; k < 2; ++k) {
    o.push_back({"add(area" + std::to_string(k) + ")", [k](SubWorld& w) {
                   if (!w.pool.arHeld[size_t(k)]) return false;
                   w.sub->add(w.pool.ar[size_t(k)]);
                   w.put({AR, k});
                   return true;
                 }});
  }
  for (int k = 0; k < 2; ++k) {
    o.push_back({"add(regulatory element" + std::to_string(k) + ")", [k](SubWorld& w) {
                   w.sub->add(w.pool.re[size_t(k)]);
                   w.put({RE, k});
                   return true;
                 }});
  }
  o.push_back({"add(polygon0)", [](SubWorld& w) {
                 w.sub->add(w.pool.pg[0]);
                 w.put({PG, 0});
                 return true;
               }});
  o.push_back({"add(linestring2)", [](SubWorld& w) {
                 w.sub->add(w.pool.ls[2]);
                 w.put({LS, 2});
                 return true;
               }});
  o.push_back({"add(point4)", [](SubWorld& w) {
                 w.sub->add(w.pool.pt[4]);
                 w.put({PT, 4});
                 return true;
               }});
  o.push_back({"drop the handle of lanelet1", [](SubWorld& w) {
                 if (!w.pool.llHeld[1]) return false;
                 w.pool.llHeld[1] = false;
                 w.pool.ll[1] = Lanelet();
                 return true;
               }});
  o.push_back({"drop the handle of area1", [](SubWorld& w) {
                 if (!w.pool.arHeld[1]) return false;
                 w.pool.arHeld[1] = false;
                 w.pool.ar[1] = Area();
                 return true;
               }});
  o.push_back({"move the submap", [](SubWorld& w) {
                 LaneletSubmap tmp = std::move(*w.sub);
                 LaneletSubmap other;
                 other = std::move(tmp);
                 w.sub = std::make_unique<LaneletSubmap>(std::move(other));
                 return true;
               }});
  return o;
}
std::vector<std::pair<std::string, std::function<void(SubWorld&)>>> subStarts() {
  std::vector<std::pair<std::string, std::function<void(SubWorld&)>>> s;
  s.push_back({"empty submap", [](SubWorld&) {}});
  s.push_back({"createSubmap(points)", [](SubWorld& w) {
                 w.sub = utils::createSubmap(Points3d{w.pool.pt[1], w.pool.pt[4]});
                 w.put({PT, 1});
                 w.put({PT, 4});
               }});
  s.push_back({"createSubmap(line strings)", [](SubWorld& w) {
                 w.sub = utils::createSubmap(LineStrings3d{w.pool.ls[1], w.pool.ls[2].invert()});
                 w.put({LS, 1});
                 w.put({LS, 2});
               }});
  s.push_back({"createSubmap(polygons)", [](SubWorld& w) {
                 w.sub = utils::createSubmap(w.pool.pg);
                 w.put({PG, 0});
                 w.put({PG, 1});
               }});
  s.push_back({"createSubmap(lanelets 0 1, areas 0)", [](SubWorld& w) {
                 w.sub = utils::createSubmap(Lanelets{w.pool.ll[0], w.pool.ll[1]}, Areas{w.pool.ar[0]});
                 for (Node n : {Node{LL, 0}, Node{LL, 1}, Node{AR, 0}}) w.put(n);
               }});
  s.push_back({"createSubmap(lanelet 0)", [](SubWorld& w) {
                 w.sub = utils::createSubmap(Lanelets{w.pool.ll[0]});
                 w.put({LL, 0});
               }});
  s.push_back({"createSubmap(areas)", [](SubWorld& w) {
                 w.sub = utils::createSubmap(w.pool.ar);
                 w.put({AR, 0});
                 w.put({AR, 1});
               }});
  s.push_back({"createConstSubmap(lanelet 0, area 0)", [](SubWorld& w) {
                 auto c = utils::createConstSubmap(ConstLanelets{w.pool.ll[0]}, ConstAreas{w.pool.ar[0]});
                 w.sub.reset(const_cast<LaneletSubmap*>(c.release()));
                 w.put({LL, 0});
                 w.put({AR, 0});
               }});
  s.push_back({"submap from a map", [](SubWorld& w) {
                 auto m = utils::createMap(Lanelets{w.pool.ll[1]});
                 w.sub = std::make_unique<LaneletSubmap>(std::move(*m));
                 Model mm;
                 closureAdd(w.pool, mm, {LL, 1});
                 w.model.in = mm.in;  // the constructor does not track what the map holds itself
               }});
  return s;
}
void c11(mc::Ctx& c) {
  auto ops = subOps();
  auto st = subStarts();
  const int R = int(ops.size());
  auto runCase = [&](unsigned mask, bool share, size_t s0, const std::vector<int>& seq, bool cst) {
    auto desc = [&] {
      std::string d = "ids missing on kinds " + std::to_string(mask) + (share ? ", shared regulatory element; " : "; ") + st[s0].first;
      for (int i : seq) d += "; " + ops[size_t(i)].name;
      return d + (cst ? "; laneletMap() const" : "; laneletMap()");
    };
    c.run(desc, [&] {
      SubWorld w(mask, share);
      st[s0].second(w);
      size_t k = 0;
      auto check = [&](const std::string& when, bool usages) {
        checkMap(w.pool, w.model, *w.sub, when, usages);
        // nothing a regulatory element of the submap refers to may disappear
        for (auto n : w.tracked) {
          for (size_t r = 0; r < w.pool.re.size(); ++r) {
            auto re = w.pool.re[r];
            for (auto& role : re->getParameters()) {
              for (auto& prm : role.second) {
                if (auto* l = boost::get<ConstWeakLanelet>(&prm)) {
                  if (n.first == LL && !l->expired() && l->lock().constData().get() == w.pool.data(n)) n.second = -1 - n.second;
                } else if (auto* a = boost::get<ConstWeakArea>(&prm)) {
                  if (n.first == AR && !a->expired() && a->lock().constData().get() == w.pool.data(n)) n.second = -1 - n.second;
                }
                if (n.second < 0) break;
              }
              if (n.second < 0) break;
            }
            if (n.second < 0) break;
          }
          MC_REQUIRE(n.second < 0, "parameter-expired", kindName(n.first) << n.second << ", referred to by a regulatory element of the submap, expired " << when);
        }
      };
      check("after " + st[s0].first, seq.empty());
      for (int i : seq) {
        if (!ops[size_t(i)].f(w)) return;
        c.step();
        ++k;
        check("after step " + std::to_string(k), k == seq.size());
        Id maxKnown = 0;
        for (auto n : w.model.in) {
          if (poolId(w.pool, n) != Id(-99)) maxKnown = std::max(maxKnown, poolId(w.pool, n));
        }
        MC_REQUIRE(utils::getId() > maxKnown, "id-not-registered", "getId() does not lie beyond the ids in the submap");
      }
      Model full;
      std::string h = std::to_string(mask);
      for (auto n : w.model.in) h += std::to_string(n.first * 20 + n.second) + ",";
      h += "|";
      for (auto n : w.tracked) h += std::to_string(n.first * 20 + n.second) + ",";
      c.state(h);
      std::function<void(Node)> close = [&](Node n) {
        if (!full.in.insert(n).second) return;
        for (auto m : w.pool.members[n]) close(m);
        for (auto m : w.pool.weak[n]) {
          if (w.isAlive(m) || full.in.count(m) != 0) close(m);
        }
      };
      auto inBefore = w.model.in;
      for (int kind : {LL, AR, RE, PG, LS, PT}) {
        for (auto n : inBefore) {
          if (n.first == kind) close(n);
        }
      }
      c.outcome(std::to_string(full.in.size()));
      if (cst) {
        const LaneletSubmap& cs = *w.sub;
        auto m = cs.laneletMap();
        w.model.ids.clear();
        checkMap(w.pool, full, const_cast<LaneletMap&>(*m), "in laneletMap()");
      } else {
        auto m = w.sub->laneletMap();
        checkMap(w.pool, full, *m, "in laneletMap()");
        w.sub.reset();  // the map stands on its own
        checkMap(w.pool, full, *m, "in laneletMap() after the submap is gone");
      }
    });
  };
  for (unsigned mask : {0u, 63u, unsigned(1 << LL | 1 << RE), unsigned(1 << PT), unsigned(1 << AR | 1 << LS | 1 << PG)}) {
    for (size_t s = 0; s < st.size(); ++s) {
      if (s != 0 && mask != 0) continue;
      for (bool share : {false, true}) {
        for (bool cst : {false, true}) {
          const int maxLen = c.quick ? (s == 0 && mask == 63 && !share ? 3 : 2) : (s == 0 && !share ? 5 : s == 0 ? 4 : 3);
          for (int len = 0; len <= maxLen; ++len) {
            mc::forSequences(R, len, [&](const std::vector<int>& v) { runCase(mask, share, s, v, cst); });
          }
        }
      }
    }
  }
}

// ------------------------------------------------------------------ C07
struct Box {
  double x0, y0, x1, y1;
};
struct El {  // what brute force knows about one element
  const void* data;
  Box b;
  std::function<double(double, double)> dist;
};
double segDist(double px, double py, double ax, double ay, double bx, double by) {
  double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy;
  double t = l == 0 ? 0 : ((px - ax) * dx + (py - ay) * dy) / l;
  t = std::max(0., std::min(1., t));
  return std::hypot(px - ax - t * dx, py - ay - t * dy);
}
using Ring = std::vector<std::pair<double, double>>;
double lineDist(const Ring& r, double x, double y, bool closed) {
  double d = 1e300;
  if (r.size() == 1) return std::hypot(r[0].first - x, r[0].second - y);
  for (size_t i = 0; i + (closed ? 0 : 1) < r.size(); ++i) {
    auto& a = r[i];
    auto& b = r[(i + 1) % r.size()];
    d = std::min(d, segDist(x, y, a.first, a.second, b.first, b.second));
  }
  return d;
}
bool insideRing(const Ring& r, double x, double y) {
  bool in = false;
  for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) {
    if ((r[i].second > y) != (r[j].second > y) &&
        x < (r[j].first - r[i].first) * (y - r[i].second) / (r[j].second - r[i].second) + r[i].first)
      in = !in;
  }
  return in;
}
double areaDist(const Ring& outer, const std::vector<Ring>& holes, double x, double y) {
  if (!insideRing(outer, x, y)) return lineDist(outer, x, y, true);
  for (auto& h : holes) {
    if (insideRing(h, x, y)) return lineDist(h, x, y, true);
  }
  return 0;
}
Box boxOf(const Ring& r) {
  Box b{1e300, 1e300, -1e300, -1e300};
  for (auto& p : r) {
    b = {std::min(b.x0, p.first), std::min(b.y0, p.second), std::max(b.x1, p.first), std::max(b.y1, p.second)};
  }
  return b;
}
double boxDist(const Box& b, double x, double y) {
  double dx = std::max({b.x0 - x, 0., x - b.x1}), dy = std::max({b.y0 - y, 0., y - b.y1});
  return std::hypot(dx, dy);
}
bool boxHit(const Box& a, const Box& b) { return a.x0 <= b.x1 && b.x0 <= a.x1 && a.y0 <= b.y1 && b.y0 <= a.y1; }

struct GeoWorld {
  LaneletMapUPtr map;
  std::vector<Point3d> pts;
  std::vector<LineString3d> lss;
  std::vector<Polygon3d> pgs;
  std::vector<Lanelet> lls;
  std::vector<Area> ars;
  std::vector<RegulatoryElementPtr> res;
  std::vector<El> el[6];
};
LineString3d mkLine(GeoWorld& w, Ring r) {
  Points3d p;
  for (auto& x : r) {
    p.emplace_back(utils::getId(), x.first, x.second, 0);
    auto d = p.back().constData().get();
    w.pts.push_back(p.back());
    auto xx = x;
    w.el[PT].push_back({d, {x.first, x.second, x.first, x.second}, [xx](double a, double b) { return std::hypot(xx.first - a, xx.second - b); }});
  }
  LineString3d l(utils::getId(), p);
  w.lss.push_back(l);
  w.el[LS].push_back({l.constData().get(), boxOf(r), [r](double a, double b) { return lineDist(r, a, b, false); }});
  return l;
}
//! n elements in a layout; everything axis-parallel or diagonal so that positions are exact
void build(GeoWorld& w, int layout, int n) {
  for (int i = 0; i < n; ++i) {
    double x = 0, y = 0;
    if (layout == 0) {  // grid
      x = (i % 6) * 2;
      y = (i / 6) * 2;
    } else if (layout == 1) {  // row
      x = i * 2;
    } else if (layout == 2) {  // three heaps of coincident elements
      x = (i % 3) * 7;
      y = (i % 3 == 1) ? 5 : 0;
    } else {  // nested: bigger and bigger around the origin
      x = -i;
      y = -i;
    }
    double s = layout == 3 ? 2 * i + 2 : 2;
    switch (i % 5) {
      case 0: {
        mkLine(w, {{x, y}, {x + s, y + 1}});
        break;
      }
      case 1: {
        Ring r{{x, y}, {x, y + 1.5}, {x + s, y}};
        Points3d p;
        for (auto& q : r) {
          p.emplace_back(utils::getId(), q.first, q.second, 0);
          w.pts.push_back(p.back());
          auto xx = q;
          w.el[PT].push_back({p.back().constData().get(), {q.first, q.second, q.first, q.second}, [xx](double a, double b) { return std::hypot(xx.first - a, xx.second - b); }});
        }
        Polygon3d pg(utils::getId(), p);
        w.pgs.push_back(pg);
        w.el[PG].push_back({pg.constData().get(), boxOf(r), [r](double a, double b) { return areaDist(r, {}, a, b); }});
        break;
      }
      case 2: {
        auto l = mkLine(w, {{x, y + 1}, {x + s, y + 1.25}});
        auto r = mkLine(w, {{x, y}, {x + s, y}});
        Lanelet ll(utils::getId(), l, r);
        w.lls.push_back(ll);
        Ring ring{{x, y + 1}, {x + s, y + 1.25}, {x + s, y}, {x, y}};
        w.el[LL].push_back({ll.constData().get(), boxOf(ring), [ring](double a, double b) { return areaDist(ring, {}, a, b); }});
        break;
      }
      case 3: {
        auto a = mkLine(w, {{x, y}, {x, y + 2}, {x + s, y + 2}});
        auto b = mkLine(w, {{x + s, y + 2}, {x + s, y}, {x, y}});
        auto h = mkLine(w, {{x + .5, y + .5}, {x + 1, y + .5}, {x + 1, y + 1}, {x + .5, y + 1}});
        Area ar(utils::getId(), {a, b}, {{h}});
        w.ars.push_back(ar);
        Ring o{{x, y}, {x, y + 2}, {x + s, y + 2}, {x + s, y}}, hr{{x + .5, y + .5}, {x + 1, y + .5}, {x + 1, y + 1}, {x + .5, y + 1}};
        w.el[AR].push_back({ar.constData().get(), boxOf(o), [o, hr](double c, double d) { return areaDist(o, {hr}, c, d); }});
        break;
      }
      default: {
        auto l = mkLine(w, {{x + 1, y}, {x + 1, y + 1}});
        Ring far{{x + s + 1, y}};
        Point3d p(utils::getId(), x + s + 1, y, 0);
        w.pts.push_back(p);
        w.el[PT].push_back({p.constData().get(), boxOf(far), [far](double a, double b) { return lineDist(far, a, b, false); }});
        auto re = std::make_shared<GenericRegulatoryElement>(utils::getId(), RuleParameterMap{{"ref_line", {l}}, {"refers", {p}}});
        w.res.push_back(re);
        Ring lr{{x + 1, y}, {x + 1, y + 1}}, all = lr;
        all.push_back(far[0]);
        w.el[RE].push_back({re.get(), boxOf(all), [lr, far](double a, double b) { return std::min(lineDist(lr, a, b, false), lineDist(far, a, b, false)); }});
      }
    }
  }
}
template <typename T>
std::unordered_map<Id, T> asMap(const std::vector<T>& v) {
  std::unordered_map<Id, T> m;
  for (auto& x : v) m.emplace(idOf(x), x);
  return m;
}
void fill(GeoWorld& w, int how) {
  if (how == 0) {  // packed
    w.map = std::make_unique<LaneletMap>(asMap(w.lls), asMap(w.ars), asMap(w.res), asMap(w.pgs), asMap(w.lss), asMap(w.pts));
    return;
  }
  w.map = std::make_unique<LaneletMap>();
  auto each = [&](auto v) {
    if (how == 2) std::reverse(v.begin(), v.end());
    for (auto& e : v) w.map->add(e);
  };
  if (how == 1) {
    each(w.lls), each(w.ars), each(w.res), each(w.pgs), each(w.lss), each(w.pts);
  } else {
    each(w.pts), each(w.pgs), each(w.lss), each(w.res), each(w.ars), each(w.lls);
  }
}
bool near(double a, double b) { return std::abs(a - b) < 1e-9 * (1 + std::abs(b)); }

template <typename LayerT>
void queryLayer(mc::Ctx& c, LayerT& layer, const std::vector<El>& el, int kind, const Box& q, double px, double py) {
  std::map<const void*, const El*> by;
  for (auto& e : el) by[e.data] = &e;
  const BoundingBox2d bb(BasicPoint2d(q.x0, q.y0), BasicPoint2d(q.x1, q.y1));
  std::set<const void*> hit;
  for (auto& e : el) {
    if (boxHit(e.b, q)) hit.insert(e.data);
  }
  auto k = std::string(kindName(kind));
  {
    std::multiset<const void*> f;
    for (auto& e : layer.search(bb)) f.insert(dataOf(e));
    std::set<const void*> fs(f.begin(), f.end());
    MC_REQUIRE(f.size() == fs.size() && fs == hit, "search", k << " search returns " << f.size() << " elements instead of " << hit.size());
    c.outcome(k + std::to_string(hit.size()));
    // searchUntil: stops at every position
    for (size_t stop = 1; stop <= std::min<size_t>(hit.size() + 1, 4); ++stop) {
      std::vector<const void*> seen;
      auto r = layer.searchUntil(bb, [&](auto&, auto& e) {
        seen.push_back(dataOf(e));
        return seen.size() == stop;
      });
      std::set<const void*> ss(seen.begin(), seen.end());
      MC_REQUIRE(ss.size() == seen.size(), "search-until", k << " searchUntil visits an element twice");
      for (auto d : seen) MC_REQUIRE(hit.count(d) != 0, "search-until", k << " searchUntil visits an element outside of the area");
      if (stop <= hit.size()) {
        MC_REQUIRE(!!r && dataOf(*r) == seen.back() && seen.size() == stop, "search-until", k << " searchUntil does not return the element accepted");
      } else {
        MC_REQUIRE(!r && ss == hit, "search-until", k << " searchUntil visited " << ss.size() << " of " << hit.size());
      }
    }
  }
  const BasicPoint2d p(px, py);
  std::vector<double> bd, rd;
  for (auto& e : el) {
    bd.push_back(boxDist(e.b, px, py));
    rd.push_back(e.dist(px, py));
  }
  std::sort(bd.begin(), bd.end());
  std::sort(rd.begin(), rd.end());
  for (size_t n : {size_t(0), size_t(1), size_t(2), size_t(5), el.size(), el.size() + 3}) {
    std::vector<double> d;
    std::set<const void*> s;
    for (auto& e : layer.nearest(p, unsigned(n))) {
      d.push_back(boxDist(by.at(dataOf(e))->b, px, py));
      s.insert(dataOf(e));
    }
    const size_t m = std::min(n, el.size());
    MC_REQUIRE(d.size() == m && s.size() == m, "nearest", k << " nearest(" << n << ") returns " << d.size() << " elements");
    std::sort(d.begin(), d.end());
    for (size_t i = 0; i < m; ++i) MC_REQUIRE(near(d[i], bd[i]), "nearest", k << " nearest(" << n << "): " << d[i] << " instead of " << bd[i]);
    auto f = geometry::findNearest(layer, p, unsigned(n));
    MC_REQUIRE(f.size() == m, "find-nearest", k << " findNearest(" << n << ") returns " << f.size() << " elements");
    std::set<const void*> fs;
    for (size_t i = 0; i < m; ++i) {
      MC_REQUIRE(near(f[i].first, rd[i]), "find-nearest", k << " findNearest(" << n << ")[" << i << "] has distance " << f[i].first << " instead of " << rd[i]);
      MC_REQUIRE(near(by.at(dataOf(f[i].second))->dist(px, py), f[i].first), "find-nearest", k << " distance does not belong to the element");
      fs.insert(dataOf(f[i].second));
    }
    MC_REQUIRE(fs.size() == m, "find-nearest", k << " findNearest returns an element twice");
  }
  for (size_t stop : {size_t(1), size_t(3), el.size() + 1}) {
    std::vector<const void*> seen;
    double last = -1;
    auto r = layer.nearestUntil(p, [&](auto&, auto& e) {
      double d = boxDist(by.at(dataOf(e))->b, px, py);
      MC_REQUIRE(d >= last - 1e-9, "nearest-until", k << " nearestUntil does not go outwards");
      last = d;
      seen.push_back(dataOf(e));
      return seen.size() == stop;
    });
    std::set<const void*> ss(seen.begin(), seen.end());
    MC_REQUIRE(ss.size() == seen.size() && seen.size() == std::min(stop, el.size()), "nearest-until", k << " nearestUntil visited " << seen.size());
    MC_REQUIRE(!!r == (stop <= el.size()), "nearest-until", k << " nearestUntil result");
    if (r) MC_REQUIRE(dataOf(*r) == seen.back(), "nearest-until", k << " nearestUntil returns another element");
  }
}
template <typename LayerT>
void queryWithin(LayerT& layer, const std::vector<El>& el, int kind, double px, double py, double maxDist) {
  auto k = std::string(kindName(kind));
  std::map<const void*, const El*> by;
  std::set<const void*> exp, border;
  for (auto& e : el) {
    by[e.data] = &e;
    double d = e.dist(px, py);
    if (std::abs(d - maxDist) < 1e-9) {
      border.insert(e.data);
    } else if (d <= maxDist) {
      exp.insert(e.data);
    }
  }
  auto f = geometry::findWithin2d(layer, BasicPoint2d(px, py), maxDist);
  std::set<const void*> got;
  double last = -1;
  for (auto& e : f) {
    MC_REQUIRE(e.first >= last, "find-within", k << " findWithin2d is not sorted");
    last = e.first;
    MC_REQUIRE(near(by.at(dataOf(e.second))->dist(px, py), e.first), "find-within", k << " findWithin2d distance");
    MC_REQUIRE(got.insert(dataOf(e.second)).second, "find-within", k << " twice");
  }
  for (auto d : got) MC_REQUIRE(exp.count(d) != 0 || border.count(d) != 0, "find-within", k << " findWithin2d returns an element that is too far away");
  for (auto d : exp) MC_REQUIRE(got.count(d) != 0, "find-within", k << " findWithin2d misses an element");
  // in three dimensions: the elements are on the ground, the point is above or below it
  if constexpr (std::is_same<std::decay_t<LayerT>, PointLayer>::value || std::is_same<std::decay_t<LayerT>, LineStringLayer>::value) {
    for (double pz : {0., .75, -2.}) {
      std::set<const void*> need, seen;
      for (auto& e : el) {
        if (std::hypot(e.dist(px, py), pz) < maxDist - 1e-9) need.insert(e.data);
      }
      last = -1;
      for (auto& e : geometry::findWithin3d(layer, BasicPoint3d(px, py, pz), maxDist)) {
        const double d = std::hypot(by.at(dataOf(e.second))->dist(px, py), pz);
        MC_REQUIRE(e.first >= last && near(e.first, d), "find-within-3d", k << " findWithin3d from a height of " << pz << " gives " << e.first << " instead of " << d << " after " << last);
        MC_REQUIRE(d <= maxDist + 1e-9 && seen.insert(dataOf(e.second)).second, "find-within-3d", k << " findWithin3d gives an element at " << d);
        last = e.first;
        need.erase(dataOf(e.second));
      }
      MC_REQUIRE(need.empty(), "find-within-3d", k << " findWithin3d misses an element within " << maxDist << " from a height of " << pz);
    }
  }
}

void c07(mc::Ctx& c) {
  const std::vector<int> sizes = c.quick ? std::vector<int>{0, 1, 4, 30, 70} : std::vector<int>{0, 1, 2, 3, 4, 5, 8, 16, 17, 30, 70, 130, 300};
  for (int layout = 0; layout < 4; ++layout) {
    for (int n : sizes) {
      for (int how = 0; how < 3; ++how) {
        std::unique_ptr<GeoWorld> w;
        // queries: boxes and points on a half grid over and around the layout
        std::vector<double> g;
        for (double v = layout == 3 ? -6 : -1; v <= (layout == 3 ? 8 : 13); v += c.quick ? 3.5 : 1.75) g.push_back(v);
        for (size_t a = 0; a < g.size(); ++a) {
          for (size_t b = 0; b < g.size(); ++b) {
            for (double ext : c.quick ? std::vector<double>{0, 1, 5} : std::vector<double>{0, 0.5, 1, 2.5, 5, 20}) {
              const Box q{g[a], g[b], g[a] + ext, g[b] + ext / 2};
              auto desc = [&] {
                std::ostringstream o;
                o << n << " elements in layout " << layout << ", map filled " << (how == 0 ? "at once" : how == 1 ? "top down" : "bottom up")
                  << ", box/point at " << g[a] << " " << g[b] << " extent " << ext;
                return o.str();
              };
              c.run(desc, [&] {
                if (!w) {
                  w = std::make_unique<GeoWorld>();
                  build(*w, layout, n);
                  fill(*w, how);
                }
                auto& m = *w->map;
                const LaneletMap& cm = m;
                double x = g[a] + ext / 3, y = g[b] + .3;
                queryLayer(c, m.pointLayer, w->el[PT], PT, q, x, y);
                queryLayer(c, m.lineStringLayer, w->el[LS], LS, q, x, y);
                queryLayer(c, cm.polygonLayer, w->el[PG], PG, q, x, y);
                queryLayer(c, m.laneletLayer, w->el[LL], LL, q, x, y);
                queryLayer(c, cm.laneletLayer, w->el[LL], LL, q, x, y);
                queryLayer(c, cm.areaLayer, w->el[AR], AR, q, x, y);
                queryLayer(c, m.regulatoryElementLayer, w->el[RE], RE, q, x, y);
                for (double d : {0., 0.7, 3.}) {
                  queryWithin(cm.laneletLayer, w->el[LL], LL, x, y, d);
                  queryWithin(m.areaLayer, w->el[AR], AR, x, y, d);
                  queryWithin(m.lineStringLayer, w->el[LS], LS, x, y, d);
                  queryWithin(cm.polygonLayer, w->el[PG], PG, x, y, d);
                  queryWithin(cm.pointLayer, w->el[PT], PT, x, y, d);
                }
                c.step(7 * 20);
                c.state(std::to_string(layout) + "/" + std::to_string(n) + "/" + std::to_string(how) + "/" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(ext));
              });
            }
          }
        }
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(
      argc, argv,
      {{"C06", c06,
        "Every operation sequence up to the bound over a pool of 11 points, 8 line strings, 2 polygons, 3 lanelets, 2 areas and 3 "
        "regulatory elements that share members and refer to each other in cycles, for all 64 patterns of kinds without ids and every "
        "createMap start; after every step the layers, lookups, ids and usages are compared with a set model. A case counts if all its "
        "operations were enabled.",
        {"members are not exchanged after their owner was added to the map"}},
       {"C11", c11,
        "Every operation sequence up to the bound on a submap over the same pool, from every way to create a submap, followed by "
        "laneletMap(), compared with a set model of what was added, what is kept alive and what the full map has to contain.",
        {"a submap made from a LaneletMap only has to keep alive what that map holds"}},
       {"C07", c07,
        "Every layout x map size x way of filling x query box and point of a grid; each of search, searchUntil, nearest, nearestUntil, "
        "findNearest and findWithin2d on all six layers is compared with brute force over independently computed boxes and distances.",
        {"distances agree up to 1e-9 relative"}}});
}
