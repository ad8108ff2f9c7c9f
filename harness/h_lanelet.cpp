// C12 identity and lifetime of handles; C05 lanelets and areas through every handle; C10 regulatory elements under operation histories.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/LineStringOrPolygon.h>

#include <algorithm>

#include "mc.hpp"
using namespace lanelet;

namespace {
using Ids = std::vector<Id>;
std::string show(const Ids& v) { return "[" + mc::join(v) + "]"; }
template <typename LsT>
Ids idsOf(const LsT& ls) {
  Ids r;
  for (auto it = ls.begin(); it != ls.end(); ++it) {
    r.push_back(it->id());
  }
  return r;
}
Ids rev(Ids v) {
  std::reverse(v.begin(), v.end());
  return v;
}
std::string pts(const ConstLineString3d& l) {
  std::ostringstream o;
  o.precision(12);
  for (auto p : l) {
    o << "(" << p.x() << " " << p.y() << " " << p.z() << ")";
  }
  return o.str();
}

// ---------------------------------------------------------------- C05
struct Bound {
  int line;
  bool inv;
};
struct LWorld {
  std::vector<LineString3d> lines;
  std::vector<LineString3d> centers;
  Lanelet ll;
  // model
  Bound left{0, false}, right{1, false};
  int custom{-1};
  bool customInv{false};
  std::vector<RegulatoryElementPtr> re;
  std::vector<int> reModel;
  std::vector<WeakLanelet> weak;
  Id id{1000};
  int appended{0};

  LWorld() {
    Id n = 1;
    auto mkLine = [&](Id id, std::vector<std::array<double, 3>> c) {
      Points3d p;
      for (auto& x : c) {
        p.emplace_back(n++, x[0], x[1], x[2]);
      }
      return LineString3d(id, p);
    };
    lines.push_back(mkLine(101, {{0, 4, 0}, {4, 4, 1}, {8, 5, 2}}));         // left
    lines.push_back(mkLine(102, {{0, 0, 0}, {4, 0.5, 0}, {8, 0, 0}}));       // right
    lines.push_back(mkLine(103, {{8, 9, 0}, {3, 8, 0}, {0, 9, 0}}));         // further left, drawn backwards
    lines.push_back(mkLine(104, {{0, -3, 0}, {8, -3, 2}}));                  // further right
    centers.push_back(mkLine(111, {{0, 2, 0}, {8, 2.5, 0}}));
    centers.push_back(mkLine(112, {{0, 1, 0}, {4, 1.2, 1}, {8, 1, 0}}));
    ll = Lanelet(id, lines[0], lines[1]);
    for (int i = 0; i < 2; ++i) {
      re.push_back(std::make_shared<GenericRegulatoryElement>(900 + i));
    }
    weak.emplace_back(ll);
    weak.emplace_back(ll.invert());
  }
  LineString3d line(Bound b) const { return b.inv ? lines[size_t(b.line)].invert() : lines[size_t(b.line)]; }
};
struct LOp {
  std::string name;
  std::function<bool(LWorld&, Lanelet)> f;  // through a handle that is inverted or not
};
std::vector<LOp> laneletOps(bool quick) {
  std::vector<LOp> o;
  for (int k = 0; k < 4; ++k) {
    for (int inv = 0; inv < 2; ++inv) {
      if (quick && (k == 3 ? inv == 1 : false)) {
        continue;
      }
      std::string n = "line" + std::to_string(k) + (inv != 0 ? ".invert()" : "");
      if (k != 1) {
        o.push_back({"setLeftBound(" + n + ")", [k, inv](LWorld& w, Lanelet h) {
                       h.setLeftBound(w.line({k, inv != 0}));
                       (h.inverted() ? w.right : w.left) = Bound{k, (inv != 0) != h.inverted()};
                       return true;
                     }});
      }
      if (k != 0) {
        o.push_back({"setRightBound(" + n + ")", [k, inv](LWorld& w, Lanelet h) {
                       h.setRightBound(w.line({k, inv != 0}));
                       (h.inverted() ? w.left : w.right) = Bound{k, (inv != 0) != h.inverted()};
                       return true;
                     }});
      }
    }
  }
  for (int k = 0; k < 2; ++k) {
    o.push_back({"setCenterline(" + std::to_string(k) + ")", [k](LWorld& w, Lanelet h) {
                   h.setCenterline(w.centers[size_t(k)]);
                   w.custom = k;
                   w.customInv = h.inverted();
                   return true;
                 }});
  }
  o.push_back({"centerline()", [](LWorld& w, Lanelet h) {
                 ConstLanelet c = h;
                 return c.centerline().size() > 0;
               }});
  o.push_back({"move a point of the left bound, resetCache()", [](LWorld& w, Lanelet h) {
                 auto p = h.leftBound()[1];
                 p.y() += 0.25;
                 h.resetCache();
                 return true;
               }});
  o.push_back({"append a point to the right bound, resetCache()", [](LWorld& w, Lanelet h) {
                 auto r = h.rightBound();
                 auto b = r.back();
                 r.push_back(Point3d(Id(500 + w.appended++), b.x() + 1, b.y() + 0.5, b.z()));
                 h.resetCache();
                 return true;
               }});
  for (int k = 0; k < 2; ++k) {
    o.push_back({"addRegulatoryElement(" + std::to_string(k) + ")", [k](LWorld& w, Lanelet h) {
                   h.addRegulatoryElement(w.re[size_t(k)]);
                   w.reModel.push_back(k);
                   return true;
                 }});
  }
  o.push_back({"removeRegulatoryElement(0)", [](LWorld& w, Lanelet h) {
                 auto it = std::find(w.reModel.begin(), w.reModel.end(), 0);
                 const bool want = it != w.reModel.end();
                 const bool got = h.removeRegulatoryElement(w.re[0]);
                 MC_REQUIRE(want == got, "lanelet-regelem-remove", "removeRegulatoryElement returned " << got);
                 if (want) {
                   w.reModel.erase(it);
                 }
                 return true;
               }});
  o.push_back({"setId", [](LWorld& w, Lanelet h) {
                 h.setId(++w.id);
                 return true;
               }});
  return o;
}
template <typename LL>
void checkHandle(LWorld& w, LL h, bool inv, const char* what, const std::string& hist) {
#define W hist << " seen through " << what << ": "
  auto wl = w.line(w.left), wr = w.line(w.right);
  auto L = inv ? wr.invert() : wl;
  auto R = inv ? wl.invert() : wr;
  MC_REQUIRE(h.id() == w.id && h.inverted() == inv, "lanelet-id", W << h.id());
  MC_REQUIRE(h.leftBound() == L && h.rightBound() == R, "lanelet-bounds", W << "left " << h.leftBound().id() << " right " << h.rightBound().id());
  MC_REQUIRE(idsOf(h.leftBound2d()) == idsOf(L) && idsOf(h.rightBound3d()) == idsOf(R), "lanelet-bounds", W);
  Ids re, want;
  for (auto& r : h.regulatoryElements()) {
    re.push_back(r->id());
  }
  for (int k : w.reModel) {
    want.push_back(900 + k);
  }
  MC_REQUIRE(re == want, "lanelet-regelems", W << show(re) << " instead of " << show(want));
  MC_REQUIRE(h.template regulatoryElementsAs<GenericRegulatoryElement>().size() == want.size() && h.template regulatoryElementsAs<TrafficLight>().empty(), "lanelet-regelems", W);
  // polygon: left bound, then right bound backwards
  Ids poly = idsOf(wl);
  for (auto i : rev(idsOf(wr))) {
    if (poly.back() != i) {
      poly.push_back(i);
    }
  }
  auto gotPoly = idsOf(h.polygon3d());
  MC_REQUIRE(gotPoly == poly && idsOf(h.polygon2d()) == poly, "lanelet-polygon", W << show(gotPoly) << " instead of " << show(poly));
  MC_REQUIRE(h.hasCustomCenterline() == (w.custom >= 0), "lanelet-custom-centerline", W << "hasCustomCenterline() is " << h.hasCustomCenterline());
  auto c = h.centerline();
  if (w.custom >= 0) {
    auto base = w.centers[size_t(w.custom)];
    auto wc = (w.customInv != inv) ? base.invert() : base;
    MC_REQUIRE(c == wc, "lanelet-custom-centerline", W << "centerline " << c.id() << " inverted " << c.inverted());
  } else {
    // a lanelet with the same bounds and no history has the same centerline
    Lanelet fresh(7, wl, wr);
    ConstLineString3d fc = fresh.centerline();
    if (inv) {
      fc = fc.invert();
    }
    MC_REQUIRE(pts(c) == pts(fc), "lanelet-stale-centerline", W << pts(c) << " instead of " << pts(fc));
    auto mid = [](const ConstPoint3d& a, const ConstPoint3d& b) { return BasicPoint3d((a.basicPoint() + b.basicPoint()) / 2); };
    MC_REQUIRE((c.front().basicPoint() - mid(L.front(), R.front())).norm() < 1e-9 && (c.back().basicPoint() - mid(L.back(), R.back())).norm() < 1e-9, "lanelet-centerline-ends", W << pts(c));
    MC_REQUIRE(pts(utils::to3D(h.centerline2d())) == pts(c), "lanelet-centerline-2d", W);
  }
#undef W
}
void checkLanelet(LWorld& w, const std::string& hist) {
  checkHandle(w, w.ll, false, "the lanelet", hist);
  checkHandle(w, w.ll.invert(), true, "the inverted lanelet", hist);
  checkHandle(w, ConstLanelet(w.ll), false, "a const handle", hist);
  checkHandle(w, ConstLanelet(w.ll.invert()), true, "an inverted const handle", hist);
  checkHandle(w, w.ll.invert().invert(), false, "a twice inverted handle", hist);
  checkHandle(w, w.weak[0].lock(), false, "a weak handle", hist);
  checkHandle(w, w.weak[1].lock(), true, "an inverted weak handle", hist);
  MC_REQUIRE(w.ll == w.ll.invert().invert() && w.ll != w.ll.invert() && w.weak[0] == ConstWeakLanelet(w.ll) && w.weak[0] != w.weak[1], "lanelet-equality", hist);
}

struct AWorld {
  std::vector<LineString3d> lines;
  Area ar;
  std::vector<Bound> outer;
  std::vector<std::vector<Bound>> inner;
  std::vector<RegulatoryElementPtr> re;
  std::vector<int> reModel;
  AWorld() {
    Id n = 1;
    std::vector<Point3d> p;
    auto pt = [&](double x, double y) { return Point3d(n++, x, y, 0); };
    Point3d a = pt(0, 0), b = pt(0, 10), c = pt(10, 10), d = pt(10, 0);
    lines.push_back(LineString3d(201, {a, b, c}));
    lines.push_back(LineString3d(202, {a, d, c}));            // continues 201 when inverted
    lines.push_back(LineString3d(203, {a, b, c, d}));         // whole ring
    lines.push_back(LineString3d(204, {pt(1, 1), pt(2, 1), pt(2, 2)}));
    lines.push_back(LineString3d(205, {pt(4, 4), pt(5, 4), pt(5, 5)}));
    outer = {{0, false}, {1, true}};
    ar = Area(300, get(outer));
    for (int i = 0; i < 2; ++i) {
      re.push_back(std::make_shared<GenericRegulatoryElement>(900 + i));
    }
  }
  LineStrings3d get(const std::vector<Bound>& b) const {
    LineStrings3d r;
    for (auto& x : b) {
      r.push_back(x.inv ? lines[size_t(x.line)].invert() : lines[size_t(x.line)]);
    }
    return r;
  }
  Ids ring(const std::vector<Bound>& b) const {
    Ids r;
    for (auto& l : get(b)) {
      for (auto i : idsOf(l)) {
        if (r.empty() || r.back() != i) {
          r.push_back(i);
        }
      }
    }
    return r;
  }
};
struct AOp {
  std::string name;
  std::function<void(AWorld&, Area)> f;
};
std::vector<AOp> areaOps() {
  std::vector<AOp> o;
  auto outer = [&](const char* n, std::vector<Bound> b) {
    o.push_back({std::string("setOuterBound(") + n + ")", [b](AWorld& w, Area h) {
                   h.setOuterBound(w.get(b));
                   w.outer = b;
                 }});
  };
  outer("0,1inv", {{0, false}, {1, true}});
  outer("1,0inv", {{1, false}, {0, true}});
  outer("2", {{2, false}});
  outer("2inv", {{2, true}});
  auto inner = [&](const char* n, std::vector<std::vector<Bound>> b) {
    o.push_back({std::string("setInnerBounds(") + n + ")", [b](AWorld& w, Area h) {
                   std::vector<LineStrings3d> v;
                   for (auto& x : b) {
                     v.push_back(w.get(x));
                   }
                   h.setInnerBounds(v);
                   w.inner = b;
                 }});
  };
  inner("", {});
  inner("3", {{{3, false}}});
  inner("3inv;4", {{{3, true}}, {{4, false}}});
  inner("4;3", {{{4, false}}, {{3, false}}});
  for (int k = 0; k < 2; ++k) {
    o.push_back({"addRegulatoryElement(" + std::to_string(k) + ")", [k](AWorld& w, Area h) {
                   h.addRegulatoryElement(w.re[size_t(k)]);
                   w.reModel.push_back(k);
                 }});
  }
  o.push_back({"removeRegulatoryElement(0)", [](AWorld& w, Area h) {
                 auto it = std::find(w.reModel.begin(), w.reModel.end(), 0);
                 const bool want = it != w.reModel.end();
                 MC_REQUIRE(h.removeRegulatoryElement(w.re[0]) == want, "area-regelem-remove", "");
                 if (want) {
                   w.reModel.erase(it);
                 }
               }});
  o.push_back({"queries", [](AWorld& w, Area h) {
                 h.outerBoundPolygon().size();
                 h.innerBoundPolygons().size();
                 h.basicPolygonWithHoles2d();
               }});
  return o;
}
template <typename A>
void checkArea(AWorld& w, A h, const std::string& hist) {
  auto want = w.ring(w.outer);
  auto got = idsOf(h.outerBoundPolygon());
  MC_REQUIRE(got == want, "area-outer-polygon", hist << ": " << show(got) << " instead of " << show(want));
  auto lss = w.get(w.outer);
  auto ob = h.outerBound();
  MC_REQUIRE(ob.size() == lss.size() && std::equal(lss.begin(), lss.end(), ob.begin(), [](auto& a, auto& b) { return a == b; }), "area-outer", hist);
  auto ip = h.innerBoundPolygons();
  auto ib = h.innerBounds();
  MC_REQUIRE(ip.size() == w.inner.size() && ib.size() == w.inner.size(), "area-inner-count", hist << ": " << ip.size());
  auto b2 = h.basicPolygonWithHoles2d();
  auto b3 = h.basicPolygonWithHoles3d();
  MC_REQUIRE(b2.outer.size() == want.size() && b3.outer.size() == want.size() && b2.inner.size() == w.inner.size() && b3.inner.size() == w.inner.size(), "area-basic", hist);
  for (size_t i = 0; i < w.inner.size(); ++i) {
    MC_REQUIRE(idsOf(ip[i]) == w.ring(w.inner[i]), "area-inner-polygon", hist << ": " << show(idsOf(ip[i])));
    MC_REQUIRE(b2.inner[i].size() == ip[i].size(), "area-basic", hist);
    for (size_t k = 0; k < ip[i].size(); ++k) {
      MC_REQUIRE(b3.inner[i][k] == ip[i][k].basicPoint(), "area-basic", hist);
    }
  }
  Ids re, wantRe;
  for (auto& r : h.regulatoryElements()) {
    re.push_back(r->id());
  }
  for (int k : w.reModel) {
    wantRe.push_back(900 + k);
  }
  MC_REQUIRE(re == wantRe, "area-regelems", hist << show(re));
}

void c05(mc::Ctx& c) {
  auto ops = laneletOps(c.quick);
  const int n = int(ops.size()) * 2;
  const int depth = c.quick ? 3 : 4;
  auto apply = [&](LWorld& w, int o, std::string& hist) {
    const bool inv = o >= int(ops.size());
    auto& op = ops[size_t(o) % ops.size()];
    hist += op.name + (inv ? " through the inverted handle; " : "; ");
    op.f(w, inv ? w.ll.invert() : w.ll);
    c.step();
  };
  for (int len = 1; len <= depth; ++len) {
    mc::forSequences(n, std::min(len, 2), [&](const std::vector<int>& head) {
      c.run(
          [&] {
            std::string d = "lanelet: ";
            for (int o : head) {
              d += ops[size_t(o) % ops.size()].name + (o >= int(ops.size()) ? " (inverted handle); " : "; ");
            }
            return d + "then every sequence of " + std::to_string(len - int(head.size())) + " operations";
          },
          [&] {
            mc::forSequences(n, len - int(head.size()), [&](const std::vector<int>& tail) {
              LWorld w;
              std::string hist;
              for (int o : head) {
                apply(w, o, hist);
              }
              for (int o : tail) {
                apply(w, o, hist);
              }
              checkLanelet(w, hist);
              c.state(hist);
              c.outcome(pts(w.ll.centerline()));
            });
          });
    });
  }
  auto aops = areaOps();
  const int an = int(aops.size());
  const int adepth = c.quick ? 4 : 5;
  mc::forSequences(an, 2, [&](const std::vector<int>& head) {
    c.run([&] { return "area: " + aops[size_t(head[0])].name + "; " + aops[size_t(head[1])].name + "; then every sequence of " + std::to_string(adepth - 2) + " operations"; },
          [&] {
            mc::forSequences(an, adepth - 2, [&](const std::vector<int>& tail) {
              AWorld w;
              ConstArea seen = w.ar;
              WeakArea weak(w.ar);
              std::string hist;
              auto seq = head;
              seq.insert(seq.end(), tail.begin(), tail.end());
              for (int o : seq) {
                hist += aops[size_t(o)].name + "; ";
                aops[size_t(o)].f(w, w.ar);
                c.step();
              }
              checkArea(w, w.ar, hist);
              checkArea(w, seen, hist);
              checkArea(w, weak.lock(), hist);
              c.state(hist);
              c.outcome(show(idsOf(seen.outerBoundPolygon())) + std::to_string(seen.innerBounds().size()));
            });
          });
  });
  // lanelet sequences: every selection of up to 3 lanelets of a small row, each possibly inverted
  const int maxLen = c.quick ? 3 : 4;
  for (int len = 0; len <= maxLen; ++len) {
    mc::forSequences(6, len, [&](const std::vector<int>& sel) {
      c.run([&] { return "lanelet sequence " + mc::join(sel); },
            [&] {
              std::vector<Point3d> l, r;
              for (int i = 0; i < 4; ++i) {
                l.emplace_back(10 + i, 5. * i, 4, 0);
                r.emplace_back(20 + i, 5. * i, 0, 0);
              }
              std::vector<Lanelet> row;
              for (size_t i = 0; i < 3; ++i) {
                row.emplace_back(Id(31 + i), LineString3d(Id(41 + i), {l[i], l[i + 1]}), LineString3d(Id(51 + i), {r[i], r[i + 1]}));
                row.back().addRegulatoryElement(std::make_shared<GenericRegulatoryElement>(Id(61 + i)));
              }
              ConstLanelets lls;
              Ids wl, wr, wre, wids, wc;
              std::string cl;
              auto add = [](Ids& to, const Ids& from) {
                for (auto i : from) {
                  if (to.empty() || to.back() != i) {
                    to.push_back(i);
                  }
                }
              };
              for (int s : sel) {
                auto ll = s >= 3 ? row[size_t(s - 3)].invert() : row[size_t(s)];
                lls.push_back(ll);
                add(wl, idsOf(ll.leftBound()));
                add(wr, idsOf(ll.rightBound()));
                wids.push_back(ll.id());
                wre.push_back(ll.regulatoryElements().front()->id());
              }
              LaneletSequence seq(lls);
              std::string hist = "sequence of " + mc::join(sel);
              for (int round = 0; round < 2; ++round) {  // second round: everything cached
                MC_REQUIRE(seq.size() == lls.size() && seq.empty() == lls.empty() && seq.lanelets() == lls, "sequence-lanelets", hist);
                MC_REQUIRE(seq.ids() == wids, "sequence-ids", hist);
                MC_REQUIRE(idsOf(seq.leftBound()) == wl && idsOf(seq.rightBound()) == wr, "sequence-bounds", hist << " left " << show(idsOf(seq.leftBound())));
                MC_REQUIRE(idsOf(seq.invert().leftBound()) == rev(wr) && idsOf(seq.invert().rightBound()) == rev(wl), "sequence-inverted-bounds", hist);
                Ids poly = wl;
                add(poly, rev(wr));
                MC_REQUIRE(idsOf(seq.polygon3d()) == poly, "sequence-polygon", hist << show(idsOf(seq.polygon3d())));
                auto inv = seq.invert();
                MC_REQUIRE(inv.inverted() && inv.invert() == seq && inv.ids() == rev(wids), "sequence-inverted-ids", hist);
                std::string want, got;
                for (auto& x : lls) {
                  for (auto p : x.centerline()) {
                    want += std::to_string(p.x()) + "," + std::to_string(p.y()) + ";";
                  }
                }
                auto cc = seq.centerline();
                for (auto& ls : cc.lineStrings()) {
                  for (auto p : ls) {
                    got += std::to_string(p.x()) + "," + std::to_string(p.y()) + ";";
                  }
                }
                MC_REQUIRE(got == want, "sequence-centerline", hist << got << " instead of " << want);
                Ids re;
                for (auto& x : seq.regulatoryElements()) {
                  re.push_back(x->id());
                }
                MC_REQUIRE(re == wre, "sequence-regelems", hist);
                size_t i = 0;
                for (auto& x : seq) {
                  MC_REQUIRE(x == lls[i] && seq[i] == x, "sequence-iteration", hist);
                  ++i;
                }
              }
              c.step(2);
              c.state(hist);
            });
    });
  }
}

// ---------------------------------------------------------------- C10
struct RWorld {
  std::vector<LineString3d> ls;
  std::vector<Polygon3d> pg;
  std::vector<Lanelet> ll;
  std::vector<bool> alive;
  // model: roles as ordered lists of element names
  Ids refs, cancels, refLines, cancelLines, row, yield, stopOfYield;
  std::map<Id, std::string> subtype;
  std::shared_ptr<TrafficLight> tl;
  std::shared_ptr<TrafficSign> ts;
  std::shared_ptr<RightOfWay> rw;
  std::shared_ptr<AllWayStop> aw;
  std::shared_ptr<GenericRegulatoryElement> ge;
  std::map<std::string, Ids> roles;
  Point3d pt{60, 7, 7, 0};
  Area ar{70, {LineString3d(80, {Point3d(320, 0, 0, 0), Point3d(321, 1, 0, 0), Point3d(322, 0, 1, 0)})}};
  RWorld() {
    for (int i = 0; i < 4; ++i) {
      ls.emplace_back(Id(10 + i), Points3d{Point3d(100 + 2 * i, i, 0, 0), Point3d(101 + 2 * i, i, 1, 0)});
      pg.emplace_back(Id(20 + i), Points3d{Point3d(200 + 3 * i, i, 0, 0), Point3d(201 + 3 * i, i, 1, 0), Point3d(202 + 3 * i, i + 1, 1, 0)});
      ll.emplace_back(Id(30 + i), LineString3d(Id(40 + i), Points3d{Point3d(300 + i, 0, 1, 0)}), LineString3d(Id(50 + i), Points3d{Point3d(310 + i, 0, 0, 0)}));
      alive.push_back(true);
    }
  }
};
bool eraseFirst(Ids& v, Id i) {
  auto it = std::find(v.begin(), v.end(), i);
  if (it == v.end()) {
    return false;
  }
  v.erase(it);
  return true;
}
template <typename T>
Ids ids(const std::vector<T>& v) {
  Ids r;
  for (auto& e : v) {
    r.push_back(e.id());
  }
  return r;
}
struct ROp {
  std::string name;
  std::function<void(RWorld&)> f;
};
#define SAME(got, want, sig, what)                                                                        \
  do {                                                                                                    \
    auto g_ = (got);                                                                                      \
    Ids w_ = (want);                                                                                      \
    MC_REQUIRE(g_ == w_, sig, hist << ": " << what << " gives " << show(g_) << " instead of " << show(w_)); \
  } while (false)

std::vector<std::string> rolesOf(const RegulatoryElement& r) {
  std::vector<std::string> v;
  for (auto& p : r.getParameters()) {
    if (!p.second.empty()) {
      v.push_back(p.first);
    }
  }
  return v;
}
//! everything the generic interface tells agrees with the model of the roles
void checkGeneric(const RegulatoryElement& re, const std::map<std::string, Ids>& model, const std::string& hist) {
  auto params = re.getParameters();
  std::map<std::string, Ids> got;
  for (auto& p : params) {
    for (auto& e : p.second) {
      got[p.first].push_back(utils::getId(e));
    }
  }
  std::map<std::string, Ids> want;
  for (auto& m : model) {
    if (!m.second.empty()) {
      want.insert(m);
    }
  }
  std::string g, w;
  for (auto& e : got) {
    g += e.first + show(e.second);
  }
  for (auto& e : want) {
    w += e.first + show(e.second);
  }
  MC_REQUIRE(g == w, "regelem-parameters", hist << ": parameters are " << g << " instead of " << w);
  struct V : RuleParameterVisitor {
    std::map<std::string, Ids> seen;
    void operator()(const ConstLineString3d& l) override { seen[role].push_back(l.id()); }
    void operator()(const ConstPolygon3d& l) override { seen[role].push_back(l.id()); }
    void operator()(const ConstPoint3d& l) override { seen[role].push_back(l.id()); }
    void operator()(const ConstWeakLanelet& l) override { seen[role].push_back(l.expired() ? 0 : l.lock().id()); }
    void operator()(const ConstWeakArea& l) override { seen[role].push_back(l.expired() ? 0 : l.lock().id()); }
  } v;
  re.applyVisitor(v);
  MC_REQUIRE(v.seen == got, "regelem-visitor", hist);
  for (Id i : {10, 11, 12, 13, 20, 21, 30, 31, 32, 60, 70, 101, 201, 300, 321, 999}) {
    bool member = false;
    for (auto& e : want) {
      for (auto x : e.second) {
        member |= x == i;
      }
    }
    MC_REQUIRE(!!re.find<ConstRuleParameter>(i) == member, "regelem-find", hist << ": find(" << i << ")");
    MC_REQUIRE(!!re.find<ConstLineString3d>(i) == (member && i < 20), "regelem-find-typed", hist << ": find<ConstLineString3d>(" << i << ")");
    MC_REQUIRE(!!re.find<ConstPolygon3d>(i) == (member && i >= 20 && i < 30), "regelem-find-typed", hist << ": find<ConstPolygon3d>(" << i << ")");
    MC_REQUIRE(!!re.find<ConstLanelet>(i) == (member && i >= 30 && i < 40), "regelem-find-typed", hist << ": find<ConstLanelet>(" << i << ")");
    MC_REQUIRE(!!re.find<ConstPoint3d>(i) == (member && i == 60), "regelem-find-typed", hist << ": find<ConstPoint3d>(" << i << ")");
    MC_REQUIRE(!!re.find<ConstArea>(i) == (member && i == 70), "regelem-find-typed", hist << ": find<ConstArea>(" << i << ")");
    // has() also looks into the members
    bool inside = member;
    for (auto& e : want) {
      for (auto x : e.second) {
        inside |= (x >= 10 && x < 20 && (i == 100 + 2 * (x - 10) || i == 101 + 2 * (x - 10))) || (x >= 20 && x < 30 && i >= 200 + 3 * (x - 20) && i < 203 + 3 * (x - 20)) || (x >= 30 && x < 40 && (i == 300 + x - 30 || i == 310 + x - 30)) || (x == 70 && i >= 320 && i < 323);
      }
    }
    MC_REQUIRE(utils::has(re, i) == inside, "regelem-has", hist << ": has(" << i << ") is " << !inside);
  }
  // members by role and type, under both names of the role
  for (const char* role : {"refers", "ref_line", "yield", "cancels", "custom"}) {
    auto it = want.find(role);
    Ids pick[5];  // points, lines, polygons, lanelets, areas
    for (auto x : it == want.end() ? Ids() : it->second) {
      if (x != 0) {
        pick[x == 60 ? 0 : x < 20 ? 1 : x < 30 ? 2 : x < 40 ? 3 : 4].push_back(x);
      }
    }
    const std::string what = std::string("members of role ") + role;
    SAME(ids(re.getParameters<ConstPoint3d>(role)), pick[0], "regelem-by-role", what);
    SAME(ids(re.getParameters<ConstLineString3d>(role)), pick[1], "regelem-by-role", what);
    SAME(ids(re.getParameters<ConstPolygon3d>(role)), pick[2], "regelem-by-role", what);
    SAME(ids(re.getParameters<ConstLanelet>(role)), pick[3], "regelem-by-role", what);
    SAME(ids(re.getParameters<ConstArea>(role)), pick[4], "regelem-by-role", what);
    auto e = std::find_if(std::begin(RoleNameString::Map), std::end(RoleNameString::Map), [&](auto& m) { return std::string(m.first) == role; });
    if (e != std::end(RoleNameString::Map)) {
      SAME(ids(re.getParameters<ConstPoint3d>(e->second)), pick[0], "regelem-by-role", what);
      SAME(ids(re.getParameters<ConstLineString3d>(e->second)), pick[1], "regelem-by-role", what);
      SAME(ids(re.getParameters<ConstPolygon3d>(e->second)), pick[2], "regelem-by-role", what);
      SAME(ids(re.getParameters<ConstLanelet>(e->second)), pick[3], "regelem-by-role", what);
      SAME(ids(re.getParameters<ConstArea>(e->second)), pick[4], "regelem-by-role", what);
    }
  }
}
LineStringOrPolygon3d lp(RWorld& w, int i) { return i < 2 ? LineStringOrPolygon3d(w.ls[size_t(i)]) : LineStringOrPolygon3d(w.pg[size_t(i - 2)]); }
Id lpId(int i) { return i < 2 ? 10 + i : 20 + i - 2; }

struct RCase {
  std::string name;
  std::vector<ROp> ops;
  std::function<void(RWorld&)> init;
  std::function<void(RWorld&, const std::string&)> check;
};
std::vector<RCase> regelemCases() {
  std::vector<RCase> r;
  {
    RCase c;
    c.name = "TrafficLight";
    c.init = [](RWorld& w) {
      w.tl = TrafficLight::make(1, AttributeMap(), {lp(w, 0)}, w.ls[2]);
      w.refs = {10};
      w.refLines = {12};
    };
    for (int i = 0; i < 4; ++i) {
      c.ops.push_back({"addTrafficLight(" + std::to_string(lpId(i)) + ")", [i](RWorld& w) {
                         w.tl->addTrafficLight(lp(w, i));
                         w.refs.push_back(lpId(i));
                       }});
      c.ops.push_back({"removeTrafficLight(" + std::to_string(lpId(i)) + ")", [i](RWorld& w) {
                         bool want = eraseFirst(w.refs, lpId(i));
                         MC_REQUIRE(w.tl->removeTrafficLight(lp(w, i)) == want, "regelem-remove-result", "removeTrafficLight");
                       }});
    }
    for (int i = 1; i < 4; ++i) {
      c.ops.push_back({"setStopLine(" + std::to_string(10 + i) + ")", [i](RWorld& w) {
                         w.tl->setStopLine(w.ls[size_t(i)]);
                         w.refLines = {10 + i};
                       }});
    }
    c.ops.push_back({"removeStopLine", [](RWorld& w) {
                       w.tl->removeStopLine();
                       w.refLines = {};
                     }});
    c.check = [](RWorld& w, const std::string& hist) {
      const TrafficLight& k = *w.tl;
      SAME(ids(k.trafficLights()), w.refs, "traffic-light", "trafficLights()");
      SAME(ids(w.tl->trafficLights()), w.refs, "traffic-light", "trafficLights()");
      auto s = k.stopLine();
      auto s2 = w.tl->stopLine();
      MC_REQUIRE(!!s == !w.refLines.empty() && !!s2 == !!s && (!s || (s->id() == w.refLines[0] && s2->id() == w.refLines[0])), "traffic-light-stopline", hist);
      checkGeneric(k, {{"refers", w.refs}, {"ref_line", w.refLines}}, hist);
    };
    r.push_back(c);
  }
  for (int kind = 0; kind < 2; ++kind) {
    RCase c;
    c.name = kind == 0 ? "TrafficSign" : "SpeedLimit";
    c.init = [kind](RWorld& w) {
      TrafficSignsWithType s{{lp(w, 0)}, "de274"};
      if (kind == 0) {
        w.ts = TrafficSign::make(1, AttributeMap(), s, {}, {w.ls[2]});
      } else {
        w.ts = SpeedLimit::make(1, AttributeMap(), s, {}, {w.ls[2]});
      }
      w.refs = {10};
      w.refLines = {12};
      w.subtype[10] = "de274";
      w.ts->setId(2);
    };
    for (int i : {0, 2}) {
      c.ops.push_back({"addTrafficSign(" + std::to_string(lpId(i)) + ")", [i](RWorld& w) {
                         w.ts->addTrafficSign(lp(w, i));
                         w.refs.push_back(lpId(i));
                       }});
      c.ops.push_back({"removeTrafficSign(" + std::to_string(lpId(i)) + ")", [i](RWorld& w) {
                         bool want = eraseFirst(w.refs, lpId(i));
                         MC_REQUIRE(w.ts->removeTrafficSign(lp(w, i)) == want, "regelem-remove-result", "removeTrafficSign");
                       }});
    }
    for (int i : {1, 3}) {
      c.ops.push_back({"addCancellingTrafficSign(" + std::to_string(lpId(i)) + ")", [i](RWorld& w) {
                         w.ts->addCancellingTrafficSign({{lp(w, i)}, i == 1 ? "de278" : "de282"});
                         w.subtype[lpId(i)] = i == 1 ? "de278" : "de282";
                         w.cancels.push_back(lpId(i));
                       }});
      c.ops.push_back({"removeCancellingTrafficSign(" + std::to_string(lpId(i)) + ")", [i](RWorld& w) {
                         bool want = eraseFirst(w.cancels, lpId(i));
                         MC_REQUIRE(w.ts->removeCancellingTrafficSign(lp(w, i)) == want, "regelem-remove-result", "removeCancellingTrafficSign");
                       }});
    }
    for (int i : {2, 3}) {
      auto n = std::to_string(10 + i);
      c.ops.push_back({"addRefLine(" + n + ")", [i](RWorld& w) {
                         w.ts->addRefLine(w.ls[size_t(i)]);
                         w.refLines.push_back(10 + i);
                       }});
      c.ops.push_back({"removeRefLine(" + n + ")", [i](RWorld& w) {
                         bool want = eraseFirst(w.refLines, 10 + i);
                         MC_REQUIRE(w.ts->removeRefLine(w.ls[size_t(i)]) == want, "regelem-remove-result", "removeRefLine");
                       }});
      c.ops.push_back({"addCancellingRefLine(" + n + ")", [i](RWorld& w) {
                         w.ts->addCancellingRefLine(w.ls[size_t(i)]);
                         w.cancelLines.push_back(10 + i);
                       }});
    }
    c.ops.push_back({"removeCancellingRefLine(12)", [](RWorld& w) {
                       bool want = eraseFirst(w.cancelLines, 12);
                       MC_REQUIRE(w.ts->removeCancellingRefLine(w.ls[2]) == want, "regelem-remove-result", "removeCancellingRefLine");
                     }});
    c.check = [kind](RWorld& w, const std::string& hist) {
      const TrafficSign& k = *w.ts;
      SAME(ids(k.trafficSigns()), w.refs, "traffic-sign", "trafficSigns()");
      SAME(ids(w.ts->trafficSigns()), w.refs, "traffic-sign", "trafficSigns()");
      SAME(ids(k.cancellingTrafficSigns()), w.cancels, "traffic-sign-cancel", "cancellingTrafficSigns()");
      SAME(ids(w.ts->cancellingTrafficSigns()), w.cancels, "traffic-sign-cancel", "cancellingTrafficSigns()");
      SAME(ids(k.refLines()), w.refLines, "traffic-sign-reflines", "refLines()");
      SAME(ids(w.ts->refLines()), w.refLines, "traffic-sign-reflines", "refLines()");
      SAME(ids(k.cancelLines()), w.cancelLines, "traffic-sign-cancellines", "cancelLines()");
      SAME(ids(w.ts->cancelLines()), w.cancelLines, "traffic-sign-cancellines", "cancelLines()");
      if (!w.refs.empty() && w.subtype.count(w.refs[0]) != 0) {
        MC_REQUIRE(k.type() == w.subtype[w.refs[0]], "traffic-sign-type", hist << ": " << k.type());
      }
      std::set<std::string> types;
      for (auto i : w.cancels) {
        types.insert(w.subtype[i]);
      }
      auto ct = k.cancelTypes();
      MC_REQUIRE(ct == std::vector<std::string>(types.begin(), types.end()), "traffic-sign-canceltypes", hist << ": " << mc::join(ct));
      MC_REQUIRE(k.attribute(AttributeName::Subtype).value() == (kind == 0 ? "traffic_sign" : "speed_limit") && k.id() == 2, "traffic-sign-subtype", hist);
      checkGeneric(k, {{"refers", w.refs}, {"cancels", w.cancels}, {"ref_line", w.refLines}, {"cancel_line", w.cancelLines}}, hist);
    };
    r.push_back(c);
  }
  auto live = [](RWorld& w, const Ids& v) {
    Ids o;
    for (auto i : v) {
      if (w.alive[size_t(i - 30)]) {
        o.push_back(i);
      }
    }
    return o;
  };
  {
    RCase c;
    c.name = "RightOfWay";
    c.init = [](RWorld& w) {
      w.rw = RightOfWay::make(1, AttributeMap(), {w.ll[0]}, {w.ll[1]}, w.ls[2]);
      w.row = {30};
      w.yield = {31};
      w.refLines = {12};
    };
    for (int i = 0; i < 3; ++i) {
      auto n = std::to_string(30 + i);
      auto need = [i](RWorld& w) { return w.alive[size_t(i)]; };
      c.ops.push_back({"addRightOfWayLanelet(" + n + ")", [=](RWorld& w) {
                         if (need(w)) {
                           w.rw->addRightOfWayLanelet(w.ll[size_t(i)]);
                           w.row.push_back(30 + i);
                         }
                       }});
      c.ops.push_back({"addYieldLanelet(" + n + ")", [=](RWorld& w) {
                         if (need(w)) {
                           w.rw->addYieldLanelet(w.ll[size_t(i)]);
                           w.yield.push_back(30 + i);
                         }
                       }});
      c.ops.push_back({"removeRightOfWayLanelet(" + n + ")", [=](RWorld& w) {
                         if (need(w)) {
                           bool want = eraseFirst(w.row, 30 + i);
                           MC_REQUIRE(w.rw->removeRightOfWayLanelet(w.ll[size_t(i)]) == want, "regelem-remove-result", "removeRightOfWayLanelet(" << 30 + i << ")");
                         }
                       }});
      c.ops.push_back({"removeYieldLanelet(" + n + ")", [=](RWorld& w) {
                         if (need(w)) {
                           bool want = eraseFirst(w.yield, 30 + i);
                           MC_REQUIRE(w.rw->removeYieldLanelet(w.ll[size_t(i)]) == want, "regelem-remove-result", "removeYieldLanelet(" << 30 + i << ")");
                         }
                       }});
    }
    c.ops.push_back({"setStopLine(13)", [](RWorld& w) {
                       w.rw->setStopLine(w.ls[3]);
                       w.refLines = {13};
                     }});
    c.ops.push_back({"removeStopLine", [](RWorld& w) {
                       w.rw->removeStopLine();
                       w.refLines = {};
                     }});
    c.ops.push_back({"delete lanelet 30", [](RWorld& w) {
                       w.ll[0] = Lanelet();
                       w.alive[0] = false;
                     }});
    c.check = [live](RWorld& w, const std::string& hist) {
      const RightOfWay& k = *w.rw;
      SAME(ids(k.rightOfWayLanelets()), live(w, w.row), "right-of-way", "rightOfWayLanelets()");
      SAME(ids(w.rw->rightOfWayLanelets()), live(w, w.row), "right-of-way", "rightOfWayLanelets()");
      SAME(ids(k.yieldLanelets()), live(w, w.yield), "right-of-way-yield", "yieldLanelets()");
      SAME(ids(w.rw->yieldLanelets()), live(w, w.yield), "right-of-way-yield", "yieldLanelets()");
      for (int i = 0; i < 4; ++i) {
        if (w.alive[size_t(i)]) {
          auto want = std::count(w.row.begin(), w.row.end(), 30 + i) != 0     ? ManeuverType::RightOfWay
                      : std::count(w.yield.begin(), w.yield.end(), 30 + i) != 0 ? ManeuverType::Yield
                                                                               : ManeuverType::Unknown;
          MC_REQUIRE(k.getManeuver(w.ll[size_t(i)]) == want, "right-of-way-maneuver", hist << ": maneuver of " << 30 + i);
          MC_REQUIRE(k.getManeuver(w.ll[size_t(i)].invert()) == ManeuverType::Unknown, "right-of-way-maneuver-inverted", hist);
        }
      }
      auto s = k.stopLine();
      MC_REQUIRE(!!s == !w.refLines.empty() && (!s || s->id() == w.refLines[0]), "right-of-way-stopline", hist);
      auto z = [&](Ids v) {
        for (auto& i : v) {
          i = w.alive[size_t(i - 30)] ? i : 0;
        }
        return v;
      };
      checkGeneric(k, {{"right_of_way", z(w.row)}, {"yield", z(w.yield)}, {"ref_line", w.refLines}}, hist);
    };
    r.push_back(c);
  }
  for (int withStop = 0; withStop < 2; ++withStop) {
    RCase c;
    c.name = withStop != 0 ? "AllWayStop with stop lines" : "AllWayStop without stop lines";
    c.init = [withStop](RWorld& w) {
      if (withStop != 0) {
        w.aw = AllWayStop::make(1, AttributeMap(), {{w.ll[0], w.ls[0]}, {w.ll[1], w.ls[1]}});
        w.stopOfYield = {10, 11};
      } else {
        w.aw = AllWayStop::make(1, AttributeMap(), {{w.ll[0], {}}, {w.ll[1], {}}});
        w.stopOfYield = {0, 0};
      }
      w.yield = {30, 31};
    };
    for (int i = 0; i < 3; ++i) {
      for (int stop = 0; stop < 2; ++stop) {
        c.ops.push_back({"addLanelet(" + std::to_string(30 + i) + (stop != 0 ? ", stop line " + std::to_string(10 + i) : "") + ")", [=](RWorld& w) {
                           if (!w.alive[size_t(i)]) {
                             return;
                           }
                           const bool haveStops = !w.stopOfYield.empty() && w.stopOfYield[0] != 0;
                           const bool deadOnly = std::none_of(w.yield.begin(), w.yield.end(), [&](Id y) { return w.alive[size_t(y - 30)]; });
                           if (!w.yield.empty() && deadOnly && !haveStops && stop != 0) {
                             return;  // whether the existing ones count is not specified
                           }
                           const bool mayThrow = !w.yield.empty() && haveStops != (stop != 0);
                           bool threw = false;
                           try {
                             w.aw->addLanelet({w.ll[size_t(i)], stop != 0 ? Optional<LineString3d>(w.ls[size_t(i)]) : Optional<LineString3d>()});
                           } catch (InvalidInputError&) {
                             threw = true;
                           }
                           MC_REQUIRE(threw == mayThrow, "all-way-stop-consistency", "adding lanelet " << 30 + i << (threw ? " was refused" : " was accepted"));
                           if (!threw) {
                             w.yield.push_back(30 + i);
                             w.stopOfYield.push_back(stop != 0 ? 10 + i : 0);
                           }
                         }});
      }
      c.ops.push_back({"removeLanelet(" + std::to_string(30 + i) + ")", [=](RWorld& w) {
                         if (!w.alive[size_t(i)]) {
                           return;
                         }
                         auto it = std::find(w.yield.begin(), w.yield.end(), 30 + i);
                         const bool want = it != w.yield.end();
                         MC_REQUIRE(w.aw->removeLanelet(w.ll[size_t(i)]) == want, "regelem-remove-result", "removeLanelet");
                         if (want) {
                           w.stopOfYield.erase(w.stopOfYield.begin() + (it - w.yield.begin()));
                           w.yield.erase(it);
                         }
                       }});
    }
    for (int i : {2, 3}) {
      c.ops.push_back({"addTrafficSign(" + std::to_string(lpId(i)) + ")", [i](RWorld& w) {
                         w.aw->addTrafficSign(lp(w, i));
                         w.refs.push_back(lpId(i));
                       }});
    }
    c.ops.push_back({"removeTrafficSign(20)", [](RWorld& w) {
                       bool want = eraseFirst(w.refs, 20);
                       MC_REQUIRE(w.aw->removeTrafficSign(lp(w, 2)) == want, "regelem-remove-result", "removeTrafficSign");
                     }});
    c.ops.push_back({"delete lanelet 30", [](RWorld& w) {
                       w.ll[0] = Lanelet();
                       w.alive[0] = false;
                     }});
    c.check = [live](RWorld& w, const std::string& hist) {
      const AllWayStop& k = *w.aw;
      SAME(ids(k.lanelets()), live(w, w.yield), "all-way-stop", "lanelets()");
      SAME(ids(w.aw->lanelets()), live(w, w.yield), "all-way-stop", "lanelets()");
      Ids stops;
      for (auto s : w.stopOfYield) {
        if (s != 0) {
          stops.push_back(s);
        }
      }
      SAME(ids(k.stopLines()), stops, "all-way-stop-lines", "stopLines()");
      SAME(ids(k.trafficSigns()), w.refs, "all-way-stop-signs", "trafficSigns()");
      for (int i = 0; i < 4; ++i) {
        if (!w.alive[size_t(i)]) {
          continue;
        }
        auto it = std::find(w.yield.begin(), w.yield.end(), 30 + i);
        Id want = it == w.yield.end() ? 0 : w.stopOfYield[size_t(it - w.yield.begin())];
        auto s = k.getStopLine(w.ll[size_t(i)]);
        auto s2 = w.aw->getStopLine(w.ll[size_t(i)]);
        MC_REQUIRE((!s ? 0 : s->id()) == want && (!s2 ? 0 : s2->id()) == want, "all-way-stop-line-of", hist << ": stop line of " << 30 + i << " is " << (!s ? 0 : s->id()) << " instead of " << want);
      }
      auto z = w.yield;
      for (auto& i : z) {
        i = w.alive[size_t(i - 30)] ? i : 0;
      }
      checkGeneric(k, {{"yield", z}, {"ref_line", stops}, {"refers", w.refs}}, hist);
    };
    r.push_back(c);
  }
  {
    RCase c;
    c.name = "GenericRegulatoryElement";
    c.init = [](RWorld& w) { w.ge = std::make_shared<GenericRegulatoryElement>(5); };
    auto add = [&](const char* what, const std::string& role, Id id, std::function<void(RWorld&)> f, size_t dead = 9) {
      c.ops.push_back({"add " + std::string(what) + " " + std::to_string(id) + " as " + role, [=](RWorld& w) {
                         if (dead < w.alive.size() && !w.alive[dead]) {
                           return;
                         }
                         f(w);
                         w.roles[role].push_back(id);
                       }});
    };
    add("point", "refers", 60, [](RWorld& w) { w.ge->addParameter("refers", w.pt); });
    add("point", "custom", 60, [](RWorld& w) { w.ge->addParameter("custom", w.pt); });
    add("line string", "refers", 10, [](RWorld& w) { w.ge->addParameter(RoleName::Refers, w.ls[0]); });
    add("line string", "cancels", 11, [](RWorld& w) { w.ge->addParameter("cancels", w.ls[1]); });
    add("polygon", "ref_line", 20, [](RWorld& w) { w.ge->addParameter(RoleName::RefLine, w.pg[0]); });
    add("polygon", "custom", 21, [](RWorld& w) { w.ge->parameters()["custom"].emplace_back(w.pg[1]); });
    add("lanelet", "yield", 30, [](RWorld& w) { w.ge->addParameter(RoleName::Yield, w.ll[0]); }, 0);
    add("lanelet", "custom", 30, [](RWorld& w) { w.ge->addParameter("custom", w.ll[0].invert()); }, 0);
    add("area", "refers", 70, [](RWorld& w) { w.ge->addParameter("refers", w.ar); }, 1);
    add("area", "custom", 70, [](RWorld& w) { w.ge->addParameter("custom", w.ar); }, 1);
    c.ops.push_back({"delete lanelet 30", [](RWorld& w) {
                       w.ll[0] = Lanelet();
                       w.alive[0] = false;
                     }});
    c.ops.push_back({"delete area 70", [](RWorld& w) {
                       w.ar = Area();
                       w.alive[1] = false;
                     }});
    c.check = [](RWorld& w, const std::string& hist) {
      auto z = w.roles;
      for (auto& e : z) {
        for (auto& i : e.second) {
          i = (i == 30 && !w.alive[0]) || (i == 70 && !w.alive[1]) ? 0 : i;
        }
      }
      checkGeneric(*w.ge, z, hist);
      auto roles = rolesOf(*w.ge);
      MC_REQUIRE(w.ge->roles() == roles && w.ge->size() == roles.size() && w.ge->empty() == roles.empty() && roles.size() == z.size(), "regelem-roles", hist);
      // an element made from the same data is the same
      auto f = RegulatoryElementFactory::create("regulatory_element", 6, w.ge->parameters());
      checkGeneric(*f, z, hist + "created by the factory: ");
      MC_REQUIRE(f->id() == 6 && f->attribute(AttributeName::Subtype).value() == "regulatory_element", "regelem-factory", hist);
    };
    r.push_back(c);
  }
  return r;
}
void c10(mc::Ctx& c) {
  auto cases = regelemCases();
  const int depth = c.quick ? 4 : 5;
  for (auto& rc : cases) {
    const int n = int(rc.ops.size());
    for (int len = 1; len <= depth; ++len) {
      mc::forSequences(n, std::min(len, 2), [&](const std::vector<int>& head) {
        c.run([&] {
          std::string d = rc.name + ": ";
          for (int o : head) {
            d += rc.ops[size_t(o)].name + "; ";
          }
          return d + "then every sequence of " + std::to_string(len - int(head.size())) + " operations"; },
              [&] {
                mc::forSequences(n, len - int(head.size()), [&](const std::vector<int>& tail) {
                  RWorld w;
                  rc.init(w);
                  std::string hist = rc.name + ": ";
                  auto seq = head;
                  seq.insert(seq.end(), tail.begin(), tail.end());
                  for (int o : seq) {
                    hist += rc.ops[size_t(o)].name + "; ";
                    try {
                      rc.ops[size_t(o)].f(w);
                    } catch (mc::Failure& f) {
                      throw mc::Failure{f.sig, hist + f.msg};
                    }
                    c.step();
                  }
                  rc.check(w, hist);
                  std::string st = rc.name + show(w.refs) + show(w.cancels) + show(w.refLines) + show(w.cancelLines) + show(w.row) + show(w.yield) + show(w.stopOfYield) + (w.alive[0] ? "" : "dead");
                  for (auto& e : w.roles) {
                    st += e.first + show(e.second);
                  }
                  c.state(st);
                  c.outcome(st);
                });
              });
      });
    }
  }
}
// ---------------------------------------------------------------- C12
LineString3d plainLine(Id id, double y) { return LineString3d(id, {Point3d(id + 1, 0, y, 0), Point3d(id + 2, 1, y, 0), Point3d(id + 3, 2, y, 0)}); }
struct LaneletKind {
  using Handle = Lanelet;
  using Const = ConstLanelet;
  using Weak = WeakLanelet;
  using ConstWeak = ConstWeakLanelet;
  static Handle make() { return Lanelet(1, plainLine(10, 1), plainLine(20, 0)); }
  static Handle invert(const Handle& h) { return h.invert(); }
  static bool inverted(const Const& h) { return h.inverted(); }
  static size_t inMap(const LaneletMap& m) { return m.laneletLayer.size(); }
};
struct AreaKind {
  using Handle = Area;
  using Const = ConstArea;
  using Weak = WeakArea;
  using ConstWeak = ConstWeakArea;
  static Handle make() { return Area(1, {plainLine(10, 1), plainLine(20, 0)}); }
  static Handle invert(const Handle& h) { return h; }
  static bool inverted(const Const&) { return false; }
  static size_t inMap(const LaneletMap& m) { return m.areaLayer.size(); }
};
template <typename K>
bool gone(const typename K::ConstWeak& w) {
  try {
    w.lock();
    return false;
  } catch (const NullptrError&) {
    return true;
  }
}
//! histories of handles that keep an element and of those that do not
template <typename K>
void lifetimes(mc::Ctx& c, int depth, const char* what) {
  static const char* names[] = {"b=a", "b=inverse of a", "drop a", "drop b", "map", "no map", "w1=b", "w1=w0", "a=w0", "a=w1", "attribute", "list", "no list", "refer"};
  mc::forSequences(14, depth, [&](const std::vector<int>& ops) {
    c.run([&] { std::string o = what; for (int x : ops) o += std::string("; ") + names[x]; return o; }, [&] {
      Optional<typename K::Handle> a = K::make(), b;
      typename K::Weak w0(*a), w1;
      typename K::ConstWeak cw0{typename K::Const(*a)};
      bool w1Set = false, w1Inv = false, aInv = false, bInv = false, referred = false;
      LaneletMapPtr map;
      std::vector<typename K::Const> list;
      auto regelem = std::make_shared<GenericRegulatoryElement>(99);
      int value = 0;
      std::string st;
      for (int op : ops) {
        switch (op) {
          case 0:
            if (a) b = *a, bInv = aInv;
            break;
          case 1:
            if (a) b = K::invert(*a), bInv = K::inverted(K::invert(*a));
            break;
          case 2:
            a = {};
            break;
          case 3:
            b = {};
            break;
          case 4:
            if (a && !map) map = std::make_shared<LaneletMap>(), map->add(*a);
            break;
          case 5:
            map = nullptr;
            break;
          case 6:
            if (b) w1 = typename K::Weak(*b), w1Set = true, w1Inv = bInv;
            break;
          case 7:
            w1 = w0, w1Set = true, w1Inv = false;
            break;
          case 8:
            if (!w0.expired()) a = w0.lock(), aInv = false;
            break;
          case 9:
            if (!w1.expired()) a = w1.lock(), aInv = w1Inv;
            break;
          case 10:
            if (a) a->setAttribute("n", ++value);
            break;
          case 11:
            if (b) list.push_back(*b);
            break;
          case 12:
            list.clear();
            break;
          case 13:
            if (b && !referred) regelem->addParameter("m", typename K::Weak(*b)), referred = true;
            break;
        }
        c.step();
        const bool alive = !!a || !!b || !!map || !list.empty();
        MC_REQUIRE(w0.expired() == !alive && gone<K>(w0) == !alive, "weak-lifetime", "after " << names[op] << " the first weak handle " << (alive ? "has no element though it is still there" : "still gives the element"));
        MC_REQUIRE(cw0.expired() == !alive && gone<K>(cw0) == !alive, "weak-lifetime", "after " << names[op] << " the const weak handle is " << (alive ? "empty" : "not empty"));
        MC_REQUIRE(w1.expired() == !(alive && w1Set) && gone<K>(w1) == !(alive && w1Set), "weak-lifetime", "after " << names[op] << " the second weak handle is wrong");
        MC_REQUIRE((w0 == cw0) == alive && (w0 != cw0) == !alive, "weak-equal", "after " << names[op] << " two weak handles of the same element are " << (alive ? "different" : "equal though it is gone"));
        MC_REQUIRE((w0 == w1) == (alive && w1Set && !w1Inv), "weak-equal", "after " << names[op] << " comparison of the weak handles");
        if (alive) {
          auto l = w0.lock();
          MC_REQUIRE(l.id() == 1 && l.attributeOr("n", 0) == value, "weak-element", "the weak handle gives id " << l.id() << " value " << l.attributeOr("n", 0));
          MC_REQUIRE(!K::inverted(l), "weak-orientation", "the weak handle inverts");
          if (w1Set) MC_REQUIRE(K::inverted(w1.lock()) == w1Inv, "weak-orientation", "the second weak handle has another orientation");
          if (a) MC_REQUIRE((*a == l) == !aInv, "weak-identity", "after " << names[op]);
          if (map) MC_REQUIRE(K::inMap(*map) == 1, "weak-map", "map");
        }
        size_t members = regelem->template getParameters<typename K::Const>("m").size();
        MC_REQUIRE(members == size_t(referred && alive), "weak-member", "after " << names[op] << " the regulatory element refers to " << members << " elements");
        st = std::to_string(!!a) + std::to_string(!!b) + std::to_string(!!map) + std::to_string(list.size()) + std::to_string(aInv) + std::to_string(bInv) + std::to_string(w1Set) + std::to_string(w1Inv) + std::to_string(referred) + std::to_string(value);
      }
      c.state(what + st);
    });
  });
}
template <typename T>
std::string printed(const T& t) {
  std::ostringstream o;
  o << t;
  return o.str();
}
//! handles of two primitives: equal exactly if same element and orientation
template <typename A, typename B>
void compare(mc::Ctx& c, const A& x, const B& y, bool same, const std::string& what) {
  c.step();
  MC_REQUIRE((x == y) == same, "identity", what << " are " << (same ? "different" : "equal"));
  MC_REQUIRE((x != y) == !same, "identity-not", what << ": != says " << same);
  if (same) MC_REQUIRE(std::hash<A>()(x) == std::hash<B>()(y), "identity-hash", what << " have different hashes");
}
template <typename H, typename C, typename H2, typename C2>
void identityMatrix(mc::Ctx& c, const std::vector<std::pair<H, std::pair<int, bool>>>& hs, const std::string& what) {
  for (auto& x : hs) {
    for (auto& y : hs) {
      c.run([&] { return what + std::to_string(x.second.first) + (x.second.second ? "'" : "") + " and " + std::to_string(y.second.first) + (y.second.second ? "'" : ""); }, [&] {
        bool same = x.second == y.second;
        H a = x.first, b = y.first;
        C ca = a, cb = b;
        compare(c, a, b, same, "handles");
        compare(c, ca, cb, same, "const handles");
        compare(c, a, cb, same, "a handle and a const one");
        compare(c, ca, b, same, "a const handle and another");
        H2 a2(a), b2(b);
        C2 ca2(ca), cb2(cb);
        compare(c, a2, b2, same, "handles in two dimensions");
        compare(c, ca2, cb2, same, "const handles in two dimensions");
        compare(c, a2, cb2, same, "a handle and a const one in two dimensions");
        H back(b2);
        compare(c, a, back, same, "a handle and another by way of two dimensions");
        H moved = std::move(back);
        compare(c, a, moved, same, "a handle and a moved one");
        a = b;
        compare(c, a, b, true, "an assigned handle and its source");
        MC_REQUIRE(utils::contains(std::vector<C>{cb}, ca) == same, "identity-contains", "utils::contains");
        c.state(what + std::to_string(x.second.first * 100 + y.second.first * 10 + x.second.second * 2 + y.second.second));
      });
    }
  }
}
struct Pool {  // of lanelets and areas
  Lanelet l1{1, plainLine(10, 1), plainLine(20, 0)}, l2{2, plainLine(30, 1), plainLine(40, 0)}, l3{1, plainLine(10, 1), plainLine(20, 0)};
  Area a1{3, {plainLine(50, 1), plainLine(60, 0)}}, a2{1, {plainLine(10, 1), plainLine(20, 0)}}, a3{4, {}};
  struct Held {
    Optional<ConstLanelet> l;
    Optional<ConstArea> a;
    bool operator==(const Held& o) const { return l == o.l && a == o.a; }
  };
  std::vector<Held> all;
  Pool() {
    auto re = std::make_shared<GenericRegulatoryElement>(77);
    l1.addRegulatoryElement(re);
    a1.addRegulatoryElement(re);
    l1.attributes()["k"] = "l1";
    l2.attributes()["k"] = "l2";
    a1.attributes()["k"] = "a1";
    for (auto& l : {ConstLanelet(l1), ConstLanelet(l1.invert()), ConstLanelet(l2), ConstLanelet(l3)}) all.push_back({l, {}});
    for (auto& a : {a1, a2, a3}) all.push_back({{}, ConstArea(a)});
  }
  static ConstLaneletOrArea make(const Held& h) { return h.l ? ConstLaneletOrArea(*h.l) : ConstLaneletOrArea(*h.a); }
};
void checkHeld(mc::Ctx& c, const ConstLaneletOrArea& x, const Pool::Held& h, const std::string& what) {
  c.step();
  MC_REQUIRE(x.isLanelet() == !!h.l && x.isArea() == !!h.a, "either-kind", what << " is " << (x.isLanelet() ? "a lanelet" : "no lanelet") << " and " << (x.isArea() ? "an area" : "no area"));
  MC_REQUIRE(!!x.lanelet() == !!h.l && !!x.area() == !!h.a, "either-get", what);
  auto same = [&](auto& e) {
    MC_REQUIRE(x.id() == e.id() && &x.attributes() == &e.attributes() && x.regulatoryElements() == e.regulatoryElements(), "either-data", what);
    MC_REQUIRE(x.template regulatoryElementsAs<GenericRegulatoryElement>().size() == e.regulatoryElements().size() && x.template regulatoryElementsAs<TrafficLight>().empty(), "either-regelems", what);
    MC_REQUIRE(printed(x) == printed(e), "either-text", what);
  };
  if (h.l) {
    MC_REQUIRE(*x.lanelet() == *h.l && static_cast<const ConstLanelet&>(x) == *h.l, "either-lanelet", what << " holds another lanelet");
    MC_REQUIRE(idsOf(x.boundingPolygon()) == idsOf(h.l->polygon3d()), "either-polygon", what);
    same(*h.l);
  } else {
    MC_REQUIRE(*x.area() == *h.a && static_cast<const ConstArea&>(x) == *h.a, "either-area", what << " holds another area");
    MC_REQUIRE(idsOf(x.boundingPolygon()) == idsOf(h.a->outerBoundPolygon()), "either-polygon", what);
    same(*h.a);
  }
}
void eitherKind(mc::Ctx& c, int length) {
  static Pool p;
  const int n = int(p.all.size());
  mc::forSequences(n, length, [&](const std::vector<int>& seq) {
    c.run([&] { return "handles of lanelets or areas " + mc::join(seq); }, [&] {
      ConstLaneletOrAreas all;
      ConstLanelets lls;
      ConstAreas ars;
      ConstLaneletOrArea one = Pool::make(p.all[size_t(seq.empty() ? 0 : seq[0])]);
      for (int k : seq) {
        auto& h = p.all[size_t(k)];
        const auto x = Pool::make(h);
        checkHeld(c, x, h, "a new handle");
        for (size_t j = 0; j < all.size(); ++j) {
          bool same = h == p.all[size_t(seq[j])];
          MC_REQUIRE((x == all[j]) == same && (all[j] != x) == !same, "either-identity", "elements " << k << " and " << seq[j] << " are " << (same ? "different" : "equal"));
          if (same) MC_REQUIRE(std::hash<ConstLaneletOrArea>()(x) == std::hash<ConstLaneletOrArea>()(all[j]), "either-hash", "hashes of " << k);
        }
        all.push_back(x);
        if (h.l) {
          one = *h.l;
          lls.push_back(*h.l);
        } else {
          one = *h.a;
          ars.push_back(*h.a);
        }
        checkHeld(c, one, h, "an assigned handle");
        auto copy = one;
        one = copy;
        checkHeld(c, one, h, "a copied handle");
      }
      MC_REQUIRE(utils::getAllLanelets(all) == lls && utils::getAllAreas(all) == ars, "either-all", "got " << utils::getAllLanelets(all).size() << " lanelets and " << utils::getAllAreas(all).size() << " areas");
      c.state("either" + mc::join(seq));
    });
  });
}
template <typename Either, typename Ls, typename Poly, typename Param>
void eitherShape(mc::Ctx& c, int length, const std::string& name) {
  static LineString3d s1 = plainLine(10, 0), s2 = plainLine(20, 1), s3 = plainLine(10, 0);
  static Polygon3d p1(30, {Point3d(31, 0, 0, 0), Point3d(32, 0, 1, 0), Point3d(33, 1, 0, 0)}), p2(s1), p3;
  s1.attributes()["k"] = "s1";
  p1.attributes()["k"] = "p1";
  const std::vector<LineString3d> ls{s1, s1.invert(), s2, s3};
  const std::vector<Polygon3d> ps{p1, p2, p3};
  const int n = int(ls.size() + ps.size());
  auto isLine = [&](int k) { return k < int(ls.size()); };
  auto make = [&](int k) { return isLine(k) ? Either(Ls(ls[size_t(k)])) : Either(Poly(ps[size_t(k) - ls.size()])); };
  auto check = [&](const Either& x, int k, const std::string& what) {
    c.step();
    MC_REQUIRE(x.isLineString() == isLine(k) && x.isPolygon() == !isLine(k) && !!x.lineString() == isLine(k) && !!x.polygon() == !isLine(k), "shape-kind", what);
    auto param = x.asRuleParameter();
    Param converted = x;
    auto same = [&](auto& e, auto& fromParam, auto& fromConverted) {
      MC_REQUIRE(x.id() == e.id() && &x.attributes() == &e.attributes(), "shape-data", what);
      MC_REQUIRE(printed(x) == printed(e), "shape-text", what);
      MC_REQUIRE(fromParam && *fromParam == e && fromConverted && *fromConverted == e, "shape-parameter", what << " becomes another member of regulatory elements");
    };
    if (isLine(k)) {
      Ls e = ls[size_t(k)];
      MC_REQUIRE(*x.lineString() == e && static_cast<const Ls&>(x) == e, "shape-line", what);
      auto* q = boost::get<Ls>(&param);
      auto* r = boost::get<Ls>(&converted);
      same(e, q, r);
    } else {
      Poly e = ps[size_t(k) - ls.size()];
      MC_REQUIRE(*x.polygon() == e && static_cast<const Poly&>(x) == e, "shape-polygon", what);
      auto* q = boost::get<Poly>(&param);
      auto* r = boost::get<Poly>(&converted);
      same(e, q, r);
    }
  };
  mc::forSequences(n, length, [&](const std::vector<int>& seq) {
    c.run([&] { return name + " " + mc::join(seq); }, [&] {
      std::vector<Either> all;
      Either one = make(seq.empty() ? 0 : seq[0]);
      for (int k : seq) {
        const auto x = make(k);
        check(x, k, "a new handle");
        for (size_t j = 0; j < all.size(); ++j) {
          bool same = k == seq[j];
          MC_REQUIRE((x == all[j]) == same && (all[j] != x) == !same, "shape-identity", "shapes " << k << " and " << seq[j] << " are " << (same ? "different" : "equal"));
        }
        all.push_back(x);
        if (isLine(k)) {
          one = Ls(ls[size_t(k)]);
        } else {
          one = Poly(ps[size_t(k) - ls.size()]);
        }
        check(one, k, "an assigned handle");
        auto copy = one;
        one = copy;
        check(one, k, "a copied handle");
      }
      c.state(name + mc::join(seq));
    });
  });
  // of the mutable kind into the const kind
  for (int k = 0; k < n; ++k) {
    c.run([&] { return "conversion of " + std::to_string(k); }, [&] {
      LineStringOrPolygon3d m = isLine(k) ? LineStringOrPolygon3d(ls[size_t(k)]) : LineStringOrPolygon3d(ps[size_t(k) - ls.size()]);
      ConstLineStringOrPolygon3d cm(m);
      MC_REQUIRE(cm.isLineString() == isLine(k) && (isLine(k) ? *cm.lineString() == ls[size_t(k)] : *cm.polygon() == ps[size_t(k) - ls.size()]), "shape-const", "the const handle holds something else");
    });
  }
}
void c12(mc::Ctx& c) {
  const int d = c.quick ? 4 : 5;
  lifetimes<LaneletKind>(c, d, "lanelet");
  lifetimes<AreaKind>(c, d, "area");
  eitherKind(c, c.quick ? 3 : 5);
  eitherShape<LineStringOrPolygon3d, LineString3d, Polygon3d, RuleParameter>(c, c.quick ? 3 : 5, "line strings or polygons");
  eitherShape<ConstLineStringOrPolygon3d, ConstLineString3d, ConstPolygon3d, ConstRuleParameter>(c, c.quick ? 3 : 5, "const line strings or polygons");
  {
    std::vector<std::pair<Point3d, std::pair<int, bool>>> hs;
    for (int k = 0; k < 4; ++k) hs.push_back({Point3d(k < 3 ? 1 : 2, 0, 0, 0), {k, false}});
    hs.push_back({hs[1].first, {1, false}});
    identityMatrix<Point3d, ConstPoint3d, Point2d, ConstPoint2d>(c, hs, "points ");
  }
  {
    std::vector<std::pair<LineString3d, std::pair<int, bool>>> hs;
    for (int k = 0; k < 4; ++k) {
      auto l = k == 0 ? LineString3d(5) : plainLine(k < 3 ? 10 : 20, 0);
      hs.push_back({l, {k, false}});
      hs.push_back({l.invert(), {k, true}});
      hs.push_back({l.invert().invert(), {k, false}});
    }
    identityMatrix<LineString3d, ConstLineString3d, LineString2d, ConstLineString2d>(c, hs, "line strings ");
  }
  {
    std::vector<std::pair<Polygon3d, std::pair<int, bool>>> hs;
    for (int k = 0; k < 4; ++k) {
      auto l = k == 0 ? LineString3d(5) : plainLine(k < 3 ? 10 : 20, 0);
      hs.push_back({Polygon3d(l), {k, false}});
      hs.push_back({Polygon3d(l), {k, false}});
    }
    identityMatrix<Polygon3d, ConstPolygon3d, Polygon2d, ConstPolygon2d>(c, hs, "polygons ");
  }
  {
    std::vector<std::pair<Lanelet, std::pair<int, bool>>> hs;
    for (int k = 0; k < 3; ++k) {
      Lanelet l(k < 2 ? 1 : 2, plainLine(10, 1), plainLine(20, 0));
      hs.push_back({l, {k, false}});
      hs.push_back({l.invert(), {k, true}});
      hs.push_back({l.invert().invert(), {k, false}});
    }
    identityMatrix<Lanelet, ConstLanelet, Lanelet, ConstLanelet>(c, hs, "lanelets ");
  }
  {
    std::vector<std::pair<Area, std::pair<int, bool>>> hs;
    for (int k = 0; k < 3; ++k) {
      Area a(k < 2 ? 1 : 2, {plainLine(10, 1), plainLine(20, 0)});
      hs.push_back({a, {k, false}});
      hs.push_back({a, {k, false}});
    }
    identityMatrix<Area, ConstArea, Area, ConstArea>(c, hs, "areas ");
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(
      argc, argv,
      {{"C05", c05,
        "every operation sequence up to the bound on a lanelet (through the handle and the inverted handle) and on an area, all views compared with a "
        "reference model and with a freshly built object; every lanelet sequence of up to 3 lanelets; distinct = distinct histories",
        {"4 fixed bounds; point coordinates from a small set"}},
       {"C10", c10,
        "every operation sequence up to the bound on each of the five concrete regulatory elements against lists of ids; distinct = distinct model states",
        {"single thread"}},
       {"C12", c12,
        "every history of handles, weak handles, maps, lists and regulatory elements that hold one lanelet or area; every sequence of assignments to handles of either of two kinds; all pairs of handles of points, "
        "line strings, polygons, lanelets and areas; distinct = distinct states",
        {"one element, two handles, two weak handles"}}});
}
