// C03 line strings seen through all their views; C04 compound line strings and polygons.
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/Polygon.h>

#include <algorithm>

#include "mc.hpp"
using namespace lanelet;

namespace {
using Ids = std::vector<Id>;
std::string show(const Ids& v) { return "[" + mc::join(v) + "]"; }
template <typename PointT>
BasicPoint3d coord(const PointT& p) {
  return utils::to3D(p).basicPoint();
}
double xOf(Id id) { return double(id) * 10 + 0.5; }
Point3d mk(Id id) { return Point3d(id, xOf(id), double(id % 7), double(id % 5)); }

template <typename LsT>
Ids idsOf(const LsT& ls) {
  Ids r;
  for (auto it = ls.begin(); it != ls.end(); ++it) {
    r.push_back(it->id());
  }
  return r;
}

//! compares one (const) view with the sequence it has to show
template <typename LsT>
void checkView(const LsT& ls, const Ids& want, const char* name, const std::string& hist) {
#define W hist << " seen as " << name << ": "
  MC_REQUIRE(ls.size() == want.size() && ls.empty() == want.empty(), "ls-size", W << ls.size() << " instead of " << want.size());
  auto got = idsOf(ls);
  MC_REQUIRE(got == want, "ls-iteration", W << show(got) << " instead of " << show(want));
  MC_REQUIRE(size_t(std::distance(ls.begin(), ls.end())) == want.size(), "ls-distance", W);
  Ids back;
  for (auto it = ls.end(); it != ls.begin();) {
    --it;
    back.push_back(it->id());
  }
  std::reverse(back.begin(), back.end());
  MC_REQUIRE(back == want, "ls-reverse-iteration", W << show(back) << " instead of " << show(want));
  for (size_t i = 0; i < want.size(); ++i) {
    MC_REQUIRE(ls[i].id() == want[i], "ls-index", W << "[" << i << "] is " << ls[i].id());
    MC_REQUIRE((ls.begin() + long(i))->id() == want[i], "ls-iterator-advance", W);
    MC_REQUIRE((ls.end() - long(want.size() - i))->id() == want[i], "ls-iterator-advance", W);
    MC_REQUIRE(ls.end() - (ls.begin() + long(i)) == long(want.size() - i), "ls-distance", W);
    auto s = ls.segment(i);
    MC_REQUIRE(s.first.id() == want[i] && s.second.id() == want[(i + 1) % want.size()], "ls-segment", W << "segment " << i << " is " << s.first.id() << "-" << s.second.id());
  }
  if (!want.empty()) {
    MC_REQUIRE(ls.front().id() == want.front() && ls.back().id() == want.back(), "ls-ends", W << ls.front().id() << ".." << ls.back().id());
  }
  auto b = ls.basicLineString();
  MC_REQUIRE(b.size() == want.size(), "ls-basic", W);
  for (size_t i = 0; i < want.size(); ++i) {
    MC_REQUIRE(want[i] == InvalId || b[i].x() == xOf(want[i]), "ls-basic", W << "basic point " << i);
  }
#undef W
}
template <typename LsT>
void checkHybrid(const LsT& ls, const Ids& want, const char* name, const std::string& hist) {
  MC_REQUIRE(ls.size() == want.size() && size_t(std::distance(ls.begin(), ls.end())) == want.size(), "hybrid-size", hist << name);
  size_t i = 0;
  for (auto it = ls.begin(); it != ls.end(); ++it, ++i) {
    if (want[i] != InvalId) {
      MC_REQUIRE(it->x() == xOf(want[i]) && ls[i].x() == xOf(want[i]), "hybrid-iteration", hist << " seen as " << name);
      if (want[(i + 1) % want.size()] != InvalId) {
        auto s = ls.segment(i);
        auto sx = traits::toBasicPoint(s.second);
        MC_REQUIRE(sx.x() == xOf(want[(i + 1) % want.size()]), "hybrid-segment", hist << " seen as " << name);
      }
    }
  }
  if (!want.empty() && want.front() != InvalId && want.back() != InvalId) {
    MC_REQUIRE(ls.front().x() == xOf(want.front()) && ls.back().x() == xOf(want.back()), "hybrid-ends", hist << " seen as " << name);
  }
}
void checkAll(const LineString3d& fw, const Ids& m, const std::string& hist) {
  Ids r(m.rbegin(), m.rend());
  checkView(fw, m, "LineString3d", hist);
  checkView(fw.invert(), r, "inverted LineString3d", hist);
  checkView(fw.invert().invert(), m, "twice inverted LineString3d", hist);
  ConstLineString3d cfw = fw;
  checkView(cfw, m, "ConstLineString3d", hist);
  checkView(cfw.invert(), r, "inverted ConstLineString3d", hist);
  auto fw2 = utils::to2D(fw);
  checkView(fw2, m, "LineString2d", hist);
  checkView(fw2.invert(), r, "inverted LineString2d", hist);
  checkView(utils::to2D(fw.invert()), r, "LineString2d of inverted", hist);
  checkView(utils::to3D(fw2.invert()), r, "LineString3d of inverted 2d", hist);
  ConstLineString2d cfw2 = utils::to2D(cfw);
  checkView(cfw2, m, "ConstLineString2d", hist);
  checkView(cfw2.invert(), r, "inverted ConstLineString2d", hist);
  Polygon3d poly(fw);
  checkView(poly, m, "Polygon3d", hist);
  checkView(utils::to2D(ConstPolygon3d(cfw)), m, "ConstPolygon2d", hist);
  checkHybrid(utils::toHybrid(cfw), m, "hybrid3d", hist);
  checkHybrid(utils::toHybrid(cfw.invert()), r, "inverted hybrid3d", hist);
  checkHybrid(utils::toHybrid(cfw2), m, "hybrid2d", hist);
  checkHybrid(utils::toHybrid(cfw2.invert()), r, "inverted hybrid2d", hist);
  MC_REQUIRE(fw == fw.invert().invert() && (fw != fw.invert()) && fw.invert() == cfw.invert(), "ls-equality", hist);
  MC_REQUIRE(fw.numSegments() == (m.size() < 2 ? 0 : m.size() - 1), "ls-numsegments", hist);
  MC_REQUIRE(ConstPolygon3d(cfw).numSegments() == (m.size() < 2 ? 0 : m.size()), "poly-numsegments", hist);
}

struct World {
  LineString3d ls;
  Ids m;  // forward order
  Id next{100};
};
constexpr int NOps = 18;
const char* opNames[NOps] = {"push_back", "pop_back",      "insert@0",   "insert@mid", "insert@end",    "insertRange@0",
                             "insertRange@mid", "insertRange@end", "erase@0",    "erase@mid",  "erase@last",    "resize(n+2)",
                             "resize(n-1)",  "assign", "[mid]=",   "front/back=", "insertInvertedRange@mid", "moveAssign"};
constexpr int NViews = 6;
const char* viewNames[NViews] = {"LineString3d", "inverted LineString3d", "LineString2d", "inverted LineString2d", "Polygon3d", "inverted-then-2d LineString2d"};

//! applies the operation to a view and to the model of that view; returns false if not enabled
template <typename LsT>
bool apply(LsT& v, Ids& m, int op, Id& next, const std::string& hist) {
  using P = typename LsT::PointType;
  auto fresh = [&] { return P(mk(next++)); };
  const long n = long(m.size());
  auto expectIt = [&](auto it, long pos, const char* what) {
    MC_REQUIRE(it - v.begin() == pos, "iterator-result", hist << what << " returned an iterator to position " << (it - v.begin()) << " instead of " << pos);
    if (pos < long(m.size())) {
      MC_REQUIRE(it->id() == m[size_t(pos)], "iterator-result", hist << what << " returned an iterator to point " << it->id() << " instead of " << m[size_t(pos)]);
    }
  };
  auto insertAt = [&](long pos) {
    auto p = fresh();
    auto it = v.insert(v.begin() + pos, p);
    m.insert(m.begin() + pos, p.id());
    expectIt(it, pos, "insert");
  };
  // two points were inserted; the existing tests pin that an inverted line string returns the last of them
  auto expectRange = [&](auto it, long pos) {
    if (!v.inverted()) {
      expectIt(it, pos, "range insert");
    } else {
      MC_REQUIRE(it - v.begin() == pos || it - v.begin() == pos + 1, "iterator-result", hist << "range insert returned an iterator to position " << (it - v.begin()));
    }
  };
  auto insertRangeAt = [&](long pos) {
    std::vector<P> ps{fresh(), fresh()};
    auto it = v.insert(v.begin() + pos, ps.begin(), ps.end());
    m.insert(m.begin() + pos, {ps[0].id(), ps[1].id()});
    expectRange(it, pos);
  };
  auto eraseAt = [&](long pos) {
    auto it = v.erase(v.begin() + pos);
    m.erase(m.begin() + pos);
    expectIt(it, pos, "erase");
  };
  switch (op) {
    case 0: {
      auto p = fresh();
      v.push_back(p);
      m.push_back(p.id());
      return true;
    }
    case 1:
      if (n == 0) {
        return false;
      }
      v.pop_back();
      m.pop_back();
      return true;
    case 2:
      insertAt(0);
      return true;
    case 3:
      if (n < 2) {
        return false;
      }
      insertAt(1);
      return true;
    case 4:
      if (n < 1) {
        return false;
      }
      insertAt(n);
      return true;
    case 5:
      insertRangeAt(0);
      return true;
    case 6:
      if (n < 2) {
        return false;
      }
      insertRangeAt(1);
      return true;
    case 7:
      if (n < 1) {
        return false;
      }
      insertRangeAt(n);
      return true;
    case 8:
      if (n < 1) {
        return false;
      }
      eraseAt(0);
      return true;
    case 9:
      if (n < 3) {
        return false;
      }
      eraseAt(1);
      return true;
    case 10:
      if (n < 2) {
        return false;
      }
      eraseAt(n - 1);
      return true;
    case 11:
      v.resize(size_t(n) + 2);
      m.resize(size_t(n) + 2, InvalId);
      return true;
    case 12:
      if (n < 1) {
        return false;
      }
      v.resize(size_t(n) - 1);
      m.resize(size_t(n) - 1);
      return true;
    case 13: {
      std::vector<P> ps{fresh(), fresh(), fresh()};
      v = ps;
      m = {ps[0].id(), ps[1].id(), ps[2].id()};
      return true;
    }
    case 14: {
      if (n < 2) {
        return false;
      }
      auto p = fresh();
      v[1] = p;
      m[1] = p.id();
      return true;
    }
    case 15: {
      if (n < 1) {
        return false;
      }
      auto p = fresh();
      auto q = fresh();
      v.front() = p;
      m.front() = p.id();
      v.back() = q;
      m.back() = q.id();
      return true;
    }
    case 16: {
      if (n < 2) {
        return false;
      }
      Points3d src{mk(next), mk(next + 1)};
      next += 2;
      LsT other(77, src);
      auto inv = LsT(other.invertForTest());
      auto it = v.insert(v.begin() + 1, inv.begin(), inv.end());
      m.insert(m.begin() + 1, {src[1].id(), src[0].id()});
      expectRange(it, 1);
      return true;
    }
    case 17: {
      std::vector<Point3d> ps{mk(next), mk(next + 1), mk(next + 2)};
      next += 3;
      m = {ps[0].id(), ps[1].id(), ps[2].id()};
      if constexpr (std::is_same<P, Point2d>::value) {
        v = std::move(ps);
      } else {
        v = ps;
      }
      return true;
    }
  }
  return false;
}
// uniform way to invert for op 16 (Polygons cannot be inverted)
struct L3 : LineString3d {
  using LineString3d::LineString3d;
  using LineStringImpl::operator=;
  explicit L3(const LineString3d& l) : LineString3d(l) {}
  LineString3d invertForTest() const { return invert(); }
};
struct L2 : LineString2d {
  using LineString2d::LineString2d;
  using LineStringImpl::operator=;
  explicit L2(const LineString2d& l) : LineString2d(l) {}
  LineString2d invertForTest() const { return invert(); }
};
struct P3 : Polygon3d {
  using Polygon3d::Polygon3d;
  using LineStringImpl::operator=;
  explicit P3(const Polygon3d& l) : Polygon3d(l) {}
  Polygon3d invertForTest() const { return Polygon3d(LineString3d(*this).invert()); }
};
bool applyView(World& w, int view, int op, const std::string& hist) {
  Ids r(w.m.rbegin(), w.m.rend());
  bool ok = false;
  switch (view) {
    case 0: {
      L3 v(w.ls);
      return apply(v, w.m, op, w.next, hist);
    }
    case 1: {
      L3 v(w.ls.invert());
      ok = apply(v, r, op, w.next, hist);
      break;
    }
    case 2: {
      L2 v(utils::to2D(w.ls));
      return apply(v, w.m, op, w.next, hist);
    }
    case 3: {
      L2 v(utils::to2D(w.ls).invert());
      ok = apply(v, r, op, w.next, hist);
      break;
    }
    case 4: {
      P3 v{Polygon3d(w.ls)};
      return apply(v, w.m, op, w.next, hist);
    }
    case 5: {
      L2 v(utils::to2D(w.ls.invert()));
      ok = apply(v, r, op, w.next, hist);
      break;
    }
  }
  w.m.assign(r.rbegin(), r.rend());
  return ok;
}

void c03(mc::Ctx& c) {
  const int depth = c.quick ? 3 : 4;
  const int nv = c.quick ? 4 : NViews;
  const int n = nv * NOps;
  for (int start : {3, 0, 1}) {
    mc::forSequences(n, 1, [&](const std::vector<int>& head) {
      c.run(
          [&] {
            return "line string with " + std::to_string(start) + " points; " + opNames[head[0] % NOps] + " through " + viewNames[head[0] / NOps] +
                   "; then every sequence of " + std::to_string(depth - 1) + " operations through any view";
          },
          [&] {
            mc::forSequences(n, start == 3 ? depth - 1 : depth - 2, [&](const std::vector<int>& tail) {
              World w;
              Points3d ps;
              for (int i = 1; i <= start; ++i) {
                ps.push_back(mk(i));
                w.m.push_back(i);
              }
              w.ls = LineString3d(1, ps);
              LineString3d copy = w.ls;  // shares the data
              auto seq = head;
              seq.insert(seq.end(), tail.begin(), tail.end());
              std::string hist = show(w.m);
              for (size_t i = 0; i < seq.size(); ++i) {
                hist += std::string("; ") + opNames[seq[i] % NOps] + " through " + viewNames[seq[i] / NOps];
                if (!applyView(w, seq[i] / NOps, seq[i] % NOps, hist)) {
                  return;
                }
                c.step();
                if (std::all_of(seq.begin() + long(i) + 1, seq.end(), [](int x) { return x == 0; })) {
                  checkAll(copy, w.m, hist);
                  // points are shared, not copied
                  if (!w.m.empty()) {
                    copy.front().x() = 77.25;
                    MC_REQUIRE(w.ls.invert().back().x() == 77.25 && utils::to2D(w.ls).front().x() == 77.25, "ls-shared", hist);
                    copy.front().x() = xOf(w.m.front());
                  }
                }
              }
              c.state(hist);
              c.outcome(show(w.m));
            });
          });
    });
  }
}

// ---------------------------------------------------------------- C04
//! concatenation without repeating a point that follows itself
Ids concat(const std::vector<Ids>& parts) {
  Ids r;
  for (auto& p : parts) {
    for (auto i : p) {
      if (r.empty() || r.back() != i) {
        r.push_back(i);
      }
    }
  }
  return r;
}
template <typename T>
void checkCompound(const T& cl, const Ids& want, const char* name, const std::string& hist) {
#define W hist << " as " << name << ": "
  MC_REQUIRE(cl.size() == want.size() && cl.empty() == want.empty(), "compound-size", W << "size " << cl.size() << " instead of " << want.size());
  Ids got;
  for (auto it = cl.begin(); it != cl.end(); ++it) {
    got.push_back(Id(std::lround((traits::toBasicPoint(*it).x() - 0.5) / 10)));
  }
  MC_REQUIRE(got == want, "compound-iteration", W << show(got) << " instead of " << show(want));
  Ids back;
  for (auto it = cl.end(); it != cl.begin();) {
    --it;
    back.push_back(Id(std::lround((traits::toBasicPoint(*it).x() - 0.5) / 10)));
  }
  std::reverse(back.begin(), back.end());
  MC_REQUIRE(back == want, "compound-reverse-iteration", W << show(back) << " instead of " << show(want));
  for (size_t i = 0; i < want.size(); ++i) {
    MC_REQUIRE(traits::toBasicPoint(cl[i]).x() == xOf(want[i]), "compound-index", W << "[" << i << "]");
    MC_REQUIRE(size_t(std::distance(std::next(cl.begin(), long(i)), cl.end())) == want.size() - i, "compound-distance", W << "from " << i);
    MC_REQUIRE(traits::toBasicPoint(*(cl.end() - long(want.size() - i))).x() == xOf(want[i]), "compound-advance", W << i);
    auto s = cl.segment(i);
    MC_REQUIRE(traits::toBasicPoint(s.first).x() == xOf(want[i]) && traits::toBasicPoint(s.second).x() == xOf(want[(i + 1) % want.size()]), "compound-segment", W << "segment " << i);
  }
  if (!want.empty()) {
    MC_REQUIRE(traits::toBasicPoint(cl.front()).x() == xOf(want.front()) && traits::toBasicPoint(cl.back()).x() == xOf(want.back()), "compound-ends", W);
  }
  if (want.size() >= 2) {  // how many segments one point makes is left open
    bool ring = std::string(name).find("Polygon") != std::string::npos;
    MC_REQUIRE(cl.numSegments() == want.size() - (ring ? 0 : 1), "compound-numsegments", W << cl.numSegments() << " segments");
  }
#undef W
}
void c04(mc::Ctx& c) {
  // parts: all sequences over 3 points without immediate repetition, length 0..3, each also as an inverted line string
  std::vector<Ids> parts{{}};
  for (Id a = 1; a <= 3; ++a) {
    parts.push_back({a});
    for (Id b = 1; b <= 3; ++b) {
      if (b != a) {
        parts.push_back({a, b});
        for (Id d = 1; d <= 3; ++d) {
          if (d != b) {
            parts.push_back({a, b, d});
          }
        }
      }
    }
  }
  const int n = int(parts.size()) * 2;
  std::vector<Point3d> pts{mk(0), mk(1), mk(2), mk(3)};
  auto body = [&](const std::vector<int>& sel) {
    LineStrings3d lss;
    std::vector<Ids> shown;
    Ids lsIds;
    std::string hist = "compound of";
    for (int s : sel) {
      auto ids = parts[size_t(s / 2)];
      Points3d p;
      for (auto i : ids) {
        p.push_back(pts[size_t(i)]);
      }
      LineString3d ls(Id(500 + lss.size()), p);
      lsIds.push_back(ls.id());
      if (s % 2 == 1) {
        ls = ls.invert();
        std::reverse(ids.begin(), ids.end());
      }
      hist += " " + show(ids) + (s % 2 == 1 ? "(inverted)" : "");
      shown.push_back(ids);
      lss.push_back(ls);
    }
    auto want = concat(shown);
    Ids inv(want.rbegin(), want.rend());
    CompoundLineString3d c3(lss);
    checkCompound(c3, want, "CompoundLineString3d", hist);
    checkCompound(c3.invert(), inv, "inverted CompoundLineString3d", hist);
    checkCompound(c3.invert().invert(), want, "twice inverted", hist);
    auto c2 = utils::to2D(c3);
    checkCompound(c2, want, "CompoundLineString2d", hist);
    checkCompound(c2.invert(), inv, "inverted CompoundLineString2d", hist);
    checkCompound(CompoundHybridLineString2d(c2), want, "CompoundHybridLineString2d", hist);
    checkCompound(CompoundHybridLineString3d(c3.invert()), inv, "inverted CompoundHybridLineString3d", hist);
    CompoundPolygon3d poly(lss);
    checkCompound(poly, want, "CompoundPolygon3d", hist);
    checkCompound(CompoundPolygon3d(c3.invert()), inv, "CompoundPolygon3d of inverted", hist);
    checkCompound(utils::to2D(poly), want, "CompoundPolygon2d", hist);
    auto basic = c3.basicLineString();
    MC_REQUIRE(basic.size() == want.size(), "compound-basic", hist);
    auto gotIds = c3.ids();
    MC_REQUIRE(Ids(gotIds.begin(), gotIds.end()) == lsIds, "compound-ids", hist);
    auto iids = c3.invert().ids();
    std::reverse(lsIds.begin(), lsIds.end());
    MC_REQUIRE(Ids(iids.begin(), iids.end()) == lsIds, "compound-ids", hist);
    auto ilss = c3.invert().lineStrings();
    Ids flat;
    for (auto& l : ilss) {
      for (auto& p : l) {
        if (flat.empty() || flat.back() != p.id()) {
          flat.push_back(p.id());
        }
      }
    }
    MC_REQUIRE(flat == inv, "compound-linestrings", hist << ": lineStrings() of the inverted one gives " << show(flat));
    // compound of compounds
    if (sel.size() >= 2) {
      CompoundLineString3d first(LineStrings3d{lss[0]});
      CompoundLineString3d rest(LineStrings3d(lss.begin() + 1, lss.end()));
      checkCompound(CompoundLineString3d(CompoundLineStrings3d{first, rest}), want, "compound of compounds", hist);
      checkCompound(CompoundLineString3d(CompoundLineStrings3d{rest.invert(), first.invert()}), inv, "compound of inverted compounds", hist);
    }
    c.step();
    c.state(hist);
    c.outcome(show(want));
  };
  c.run([&] { return std::string("empty compound"); }, [&] { body({}); });
  const int maxParts = c.quick ? 3 : 4;
  for (int len = 1; len <= maxParts; ++len) {
    if (len <= 2) {
      mc::forSequences(n, len, [&](const std::vector<int>& sel) {
        c.run([&] { return "parts " + mc::join(sel); }, [&] { body(sel); });
      });
    } else {
      mc::forSequences(n, 2, [&](const std::vector<int>& head) {
        c.run([&] { return "parts " + mc::join(head) + " followed by every " + std::to_string(len - 2) + " parts"; },
              [&] {
                mc::forSequences(n, len - 2, [&](const std::vector<int>& tail) {
                  auto sel = head;
                  sel.insert(sel.end(), tail.begin(), tail.end());
                  body(sel);
                });
              });
      });
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv,
                      {{"C03", c03, "every sequence of operations through any view of one line string, all views compared with a vector after every operation", {"operations on positions 0, middle and end; fresh points"}},
                       {"C04", c04, "every compound of up to the bound many parts, each a forward or inverted line string of up to 3 of 3 points, compared with the concatenation", {"3 distinct points"}}});
}
