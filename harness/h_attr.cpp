// C01 attribute interpretation, C02 attribute map, against plain reference models.
#include <lanelet2_core/Attribute.h>
#include <lanelet2_core/utility/Units.h>

#include <algorithm>
#include <cmath>

#include "mc.hpp"
using namespace lanelet;

namespace {
// ---------------------------------------------------------------- C01
struct Interp {
  int b = -1;  // -1 none, 0/1
  bool hasD = false;
  double d = 0;
  bool hasI = false;
  int i = 0;
  bool hasId = false;
  Id id = 0;
  bool hasV = false;
  double v = 0;  // m/s
};
constexpr double KMH = 1. / 3.6;
constexpr double MPH = 0.44704;
struct Text {
  std::string t;
  Interp e;
};
Interp num(int b, bool isInt, Id whole, double d, bool fitsInt = true) {
  Interp r;
  r.b = b;
  r.hasD = true;
  r.d = d;
  r.hasI = isInt && fitsInt;
  r.i = r.hasI ? int(whole) : 0;
  r.hasId = isInt;
  r.id = isInt ? whole : 0;
  r.hasV = true;
  r.v = d * KMH;
  return r;
}
Interp boolean(int b) {
  Interp r;
  r.b = b;
  return r;
}
Interp vel(double ms) {
  Interp r;
  r.hasV = true;
  r.v = ms;
  return r;
}
// expected interpretation written down by hand from the documentation
const std::vector<Text>& texts() {
  static const std::vector<Text> t{
      {"1", num(1, true, 1, 1)},
      {"0", num(0, true, 0, 0)},
      {"true", boolean(1)},
      {"yes", boolean(1)},
      {"false", boolean(0)},
      {"no", boolean(0)},
      {"2", num(-1, true, 2, 2)},
      {"-7", num(-1, true, -7, -7)},
      {"1.5", num(-1, false, 0, 1.5)},
      {"-0.25", num(-1, false, 0, -0.25)},
      {"50", num(-1, true, 50, 50)},
      {"2147483647", num(-1, true, 2147483647LL, 2147483647.)},
      {"2147483648", num(-1, true, 2147483648LL, 2147483648., false)},
      {"-2147483649", num(-1, true, -2147483649LL, -2147483649., false)},
      {"9007199254740993", num(-1, true, 9007199254740993LL, 9007199254740992., false)},
      {"50 km/h", vel(50 * KMH)},
      {"50km/h", vel(50 * KMH)},
      {"50 kmh", vel(50 * KMH)},
      {"50kmh", vel(50 * KMH)},
      {"13.5 m/s", vel(13.5)},
      {"13.5 mps", vel(13.5)},
      {"2.mps", vel(2)},
      {"30 mph", vel(30 * MPH)},
      {"30mph", vel(30 * MPH)},
      {"", {}},
      {"abc", {}},
      {"True", {}},
      {"road", {}},
      {"50 parsec", {}},
      {"km/h", {}},
      {"no way", {}},
      {"1.5.5", {}},
  };
  return t;
}
bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b)); }

// typed values: construction must read back as the same value and the text must carry it
struct Typed {
  std::string what;
  std::function<Attribute()> make;
  std::function<std::string(const Attribute&)> wrong;  // empty if the attribute reads back as the value
};
template <typename T>
std::string show(const T& t) {
  std::ostringstream o;
  o.precision(17);
  o << t;
  return o.str();
}
std::vector<Typed> typedValues() {
  std::vector<Typed> r;
  for (double d : {0., 1., -1., 0.5, 1.25, 1. / 3, 1.23456789, 123456.7890123, 1e-7, -2.5e-9, 1e10, 3.141592653589793,
                   0.1, 50., 49.99999999}) {
    r.push_back({"double " + show(d), [d] { return Attribute(d); },
                 [d](const Attribute& a) {
                   auto v = a.asDouble();
                   return !!v && near(*v, d) ? "" : "asDouble gives " + (v ? show(*v) : "nothing");
                 }});
  }
  for (int i : {0, 1, -1, 42, 2147483647, -2147483647 - 1}) {
    r.push_back({"int " + show(i), [i] { return Attribute(i); }, [i](const Attribute& a) {
                   auto v = a.asInt();
                   return !!v && *v == i ? "" : "asInt gives " + (v ? show(*v) : "nothing");
                 }});
  }
  for (Id i : {Id(0), Id(1), Id(-5), Id(3000000000LL), Id(9007199254740993LL), Id(-9223372036854775807LL)}) {
    r.push_back({"id " + show(i), [i] { return Attribute(i); }, [i](const Attribute& a) {
                   auto v = a.asId();
                   return !!v && *v == i ? "" : "asId gives " + (v ? show(*v) : "nothing");
                 }});
  }
  for (bool i : {false, true}) {
    r.push_back({"bool " + show(i), [i] { return Attribute(i); }, [i](const Attribute& a) {
                   auto v = a.asBool();
                   return !!v && *v == i ? "" : "asBool gives " + (v ? show(*v) : "nothing");
                 }});
  }
  for (double d : {0., 1., 13.888888888, 1. / 3, 36.111}) {
    r.push_back({"velocity " + show(d) + " m/s", [d] { return Attribute(Velocity(d * units::MPS())); },
                 [d](const Attribute& a) {
                   auto v = a.asVelocity();
                   return !!v && near(v->value(), d) ? "" : "asVelocity gives " + (v ? show(v->value()) : "nothing");
                 }});
  }
  return r;
}
enum Query { QBool, QDouble, QId, QInt, QVel, QCopy, QMove, QAssign, NQuery };
const char* queryName[] = {"asBool", "asDouble", "asId", "asInt", "asVelocity", "copy", "move", "assign"};

std::string query(Attribute& a, int q, const Interp& e, bool useTemplate) {
  std::ostringstream err;
  switch (q) {
    case QBool: {
      auto v = useTemplate ? a.as<bool>() : a.asBool();
      if (!!v != (e.b >= 0) || (!!v && *v != (e.b == 1))) {
        err << "asBool is " << (v ? show(*v) : "nothing") << ", expected " << (e.b < 0 ? "nothing" : show(e.b));
      }
      break;
    }
    case QDouble: {
      auto v = useTemplate ? a.as<double>() : a.asDouble();
      if (!!v != e.hasD || (!!v && !near(*v, e.d))) {
        err << "asDouble is " << (v ? show(*v) : "nothing") << ", expected " << (e.hasD ? show(e.d) : "nothing");
      }
      break;
    }
    case QId: {
      auto v = useTemplate ? a.as<Id>() : a.asId();
      if (!!v != e.hasId || (!!v && *v != e.id)) {
        err << "asId is " << (v ? show(*v) : "nothing") << ", expected " << (e.hasId ? show(e.id) : "nothing");
      }
      break;
    }
    case QInt: {
      auto v = useTemplate ? a.as<int>() : a.asInt();
      if (!!v != e.hasI || (!!v && *v != e.i)) {
        err << "asInt is " << (v ? show(*v) : "nothing") << ", expected " << (e.hasI ? show(e.i) : "nothing");
      }
      break;
    }
    case QVel: {
      auto v = useTemplate ? a.as<Velocity>() : a.asVelocity();
      if (!!v != e.hasV || (!!v && !near(v->value(), e.v))) {
        err << "asVelocity is " << (v ? show(v->value()) : "nothing") << ", expected "
            << (e.hasV ? show(e.v) : "nothing");
      }
      break;
    }
    case QCopy: {
      Attribute b(a);
      a = b;
      break;
    }
    case QMove: {
      Attribute b(std::move(a));
      a = std::move(b);
      break;
    }
    case QAssign: {
      Attribute b("17");
      b.asInt();
      b = a;
      std::swap(a, b);
      break;
    }
  }
  return err.str();
}

void c01(mc::Ctx& c) {
  const auto& ts = texts();
  const int depth = c.quick ? 3 : 5;
  // (a) query histories over one text, then the text is replaced, then the history continues
  for (size_t t1 = 0; t1 < ts.size(); ++t1) {
    for (size_t t2 = 0; t2 < ts.size(); ++t2) {
      if (c.quick && t2 % 7 != t1 % 7) {
        continue;
      }
      auto desc = [&] {
        return "text \"" + ts[t1].t + "\" then setValue/assign \"" + ts[t2].t + "\", all query sequences of length " +
               std::to_string(depth - 1) + " before and " + std::to_string(2) + " after";
      };
      c.run(desc, [&] {
        mc::forSequences(NQuery, depth - 1, [&](const std::vector<int>& before) {
          for (int how = 0; how < 3; ++how) {
            for (int q1 = 0; q1 < NQuery; ++q1) {
              Attribute a(ts[t1].t);
              std::string hist = "\"" + ts[t1].t + "\"";
              auto ask = [&](int q, const Text& t, bool templ) {
                hist += std::string(" ") + queryName[q];
                auto err = query(a, q, t.e, templ);
                MC_REQUIRE(err.empty(), "attr-history", hist << ": " << err);
                MC_REQUIRE(a.value() == t.t, "attr-text", hist << ": value() is " << a.value());
                c.step();
                c.outcome(std::string(queryName[q]) + t.t);
                c.state(hist);
              };
              for (int q : before) {
                ask(q, ts[t1], how == 1);
              }
              if (how == 0) {
                a.setValue(ts[t2].t);
                hist += " setValue";
              } else if (how == 1) {
                a = Attribute(ts[t2].t);
                hist += " =Attribute";
              } else {
                Attribute other(ts[t2].t.c_str());
                query(other, q1, ts[t2].e, false);
                a = other;
                hist += " =queriedAttribute";
              }
              hist += "(\"" + ts[t2].t + "\")";
              ask(q1, ts[t2], false);
              ask((q1 + before[0] + 1) % 5, ts[t2], true);
            }
          }
        });
      });
    }
  }
  // (b) typed construction, every query history, then the value must still be there, also through the text
  auto typed = typedValues();
  for (auto& t : typed) {
    c.run([&] { return "constructed from " + t.what + ", all query sequences of length " + std::to_string(depth); },
          [&] {
            mc::forSequences(NQuery, depth, [&](const std::vector<int>& seq) {
              Attribute a = t.make();
              auto err = t.wrong(a);
              MC_REQUIRE(err.empty(), "attr-typed", t.what << ": " << err);
              Attribute viaText(a.value());
              err = t.wrong(viaText);
              MC_REQUIRE(err.empty(), "attr-typed-text", t.what << " written as \"" << a.value() << "\": " << err);
              std::string hist = t.what;
              Attribute b = t.make();
              for (int q : seq) {
                query(b, q, {}, false);
                hist += std::string(" ") + queryName[q];
                c.step();
              }
              err = t.wrong(b);
              MC_REQUIRE(err.empty(), "attr-typed-history", hist << ": " << err);
              // every interpretation agrees with that of the bare text
              Attribute ref(b.value());
              MC_REQUIRE(!!b.asBool() == !!ref.asBool(), "attr-typed-vs-text", hist << ": asBool differs from that of the text " << b.value());
              Attribute b2 = t.make();
              MC_REQUIRE(!!b2.asDouble() == !!ref.asDouble() && (!ref.asDouble() || near(*b2.asDouble(), *ref.asDouble())), "attr-typed-vs-text", hist << ": asDouble differs from that of the text " << b.value());
              c.state(hist);
            });
          });
  }
}

// ---------------------------------------------------------------- C02
struct Key {
  const char* s;
  int e;
};
const Key keys[] = {{"type", int(AttributeName::Type)},
                    {"subtype", int(AttributeName::Subtype)},
                    {"dynamic", int(AttributeName::Dynamic)},
                    {"foo", -1},
                    {"typ", -1}};
using Model = std::map<std::string, std::string>;
struct Two {
  AttributeMap m[2];
  Model r[2];
};
void compare(Two& w, const std::string& hist) {
  for (int i = 0; i < 2; ++i) {
    auto& m = w.m[i];
    const auto& cm = w.m[i];
    auto& r = w.r[i];
    MC_REQUIRE(m.size() == r.size() && m.empty() == r.empty(), "map-size", hist << ": size of map " << i << " is " << m.size() << " instead of " << r.size());
    auto it = r.begin();
    for (auto& e : m) {
      MC_REQUIRE(it != r.end() && e.first == it->first && e.second.value() == it->second, "map-iteration", hist << ": map " << i << " iterates over " << e.first);
      ++it;
    }
    MC_REQUIRE(it == r.end(), "map-iteration", hist);
    for (auto& k : keys) {
      auto want = r.find(k.s);
      auto got = m.find(k.s);
      auto cgot = cm.find(k.s);
      const bool has = want != r.end();
      MC_REQUIRE((got != m.end()) == has && (cgot != cm.end()) == has, "map-find", hist << ": find(" << k.s << ") in map " << i);
      MC_REQUIRE(!has || (got->second.value() == want->second && cgot->second.value() == want->second && got->first == k.s), "map-find", hist << ": find(" << k.s << ") in map " << i);
      bool threw = false;
      try {
        MC_REQUIRE(cm.at(k.s).value() == want->second && m.at(k.s).value() == want->second, "map-at", hist);
      } catch (std::out_of_range&) {
        threw = true;
      }
      MC_REQUIRE(threw == !has, "map-at", hist << ": at(" << k.s << ") in map " << i);
      if (k.e >= 0) {
        auto en = AttributeName(k.e);
        auto got2 = m.find(en);
        auto cgot2 = cm.find(en);
        MC_REQUIRE((got2 != m.end()) == has && (cgot2 != cm.end()) == has, "map-enum-find", hist << ": find by enum of " << k.s << " in map " << i << (has ? " misses it" : " finds a removed entry"));
        MC_REQUIRE(!has || (got2 == got && cgot2 == cgot && got2->second.value() == want->second), "map-enum-find", hist << ": enum lookup of " << k.s << " is not the entry found by name in map " << i);
        threw = false;
        try {
          MC_REQUIRE(&cm.at(en) == &cm.at(k.s) && &m.at(en) == &m.at(k.s), "map-enum-at", hist);
        } catch (std::out_of_range&) {
          threw = true;
        }
        MC_REQUIRE(threw == !has, "map-enum-at", hist << ": at(enum " << k.s << ") in map " << i);
      }
    }
  }
  MC_REQUIRE((w.m[0] == w.m[1]) == (w.r[0] == w.r[1]) && (w.m[0] != w.m[1]) == (w.r[0] != w.r[1]), "map-equality", hist);
}
struct Op {
  std::string name;
  std::function<void(Two&, int)> f;
};
std::vector<Op> mapOps(bool quick) {
  std::vector<Op> o;
  for (auto& k : keys) {
    if (quick && (k.s == std::string("typ") || k.s == std::string("subtype"))) {
      continue;
    }
    std::string s = k.s;
    o.push_back({"insert(" + s + ")", [s](Two& w, int n) {
                   auto v = std::to_string(n);
                   auto r = w.r[0].insert({s, v});
                   auto m = w.m[0].insert({s, Attribute(v)});
                   MC_REQUIRE(r.second == m.second && m.first->first == s && m.first->second.value() == r.first->second, "map-insert-result", s);
                 }});
    o.push_back({"[" + s + "]=", [s](Two& w, int n) {
                   w.r[0][s] = std::to_string(n);
                   w.m[0][s] = Attribute(std::to_string(n));
                 }});
    o.push_back({"erase(" + s + ")", [s](Two& w, int) {
                   MC_REQUIRE(w.r[0].erase(s) == w.m[0].erase(s), "map-erase-result", s);
                 }});
    if (k.e >= 0) {
      auto en = AttributeName(k.e);
      o.push_back({"[enum " + s + "]=", [s, en](Two& w, int n) {
                     w.r[0][s] = std::to_string(n);
                     w.m[0][en] = Attribute(std::to_string(n));
                   }});
      o.push_back({"erase(find(enum " + s + "))", [s, en](Two& w, int) {
                     auto it = w.m[0].find(en);
                     if (it != w.m[0].end()) {
                       auto next = w.m[0].erase(it);
                       auto rn = w.r[0].erase(w.r[0].find(s));
                       MC_REQUIRE((next == w.m[0].end()) == (rn == w.r[0].end()) && (rn == w.r[0].end() || next->first == rn->first), "map-erase-result", s);
                     }
                   }});
    }
  }
  o.push_back({"insert(hint,type)", [](Two& w, int n) {
                 w.r[0].insert(w.r[0].end(), {"type", std::to_string(n)});
                 w.m[0].insert(w.m[0].end(), {"type", Attribute(std::to_string(n))});
               }});
  o.push_back({"clear", [](Two& w, int) {
                 w.r[0].clear();
                 w.m[0].clear();
               }});
  o.push_back({"B=A", [](Two& w, int) {
                 w.r[1] = w.r[0];
                 w.m[1] = w.m[0];
               }});
  o.push_back({"A=B", [](Two& w, int) {
                 w.r[0] = w.r[1];
                 w.m[0] = w.m[1];
               }});
  o.push_back({"B=move(A),A={}", [](Two& w, int) {
                 w.r[1] = w.r[0];
                 w.m[1] = std::move(w.m[0]);
                 w.r[0].clear();
                 w.m[0] = AttributeMap();
               }});
  o.push_back({"swap(A,B)", [](Two& w, int) {
                 std::swap(w.r[0], w.r[1]);
                 std::swap(w.m[0], w.m[1]);
               }});
  o.push_back({"A=copy(A)", [](Two& w, int) {
                 AttributeMap cp(w.m[0]);
                 w.m[0] = AttributeMap(std::move(cp));
               }});
  o.push_back({"A=A", [](Two& w, int) {
                 auto& self = w.m[0];
                 w.m[0] = self;
               }});
  o.push_back({"A=AttributeMap(range of A)", [](Two& w, int) {
                 AttributeMap cp(w.m[0].begin(), w.m[0].end());
                 w.m[0] = cp;
               }});
  return o;
}
void c02(mc::Ctx& c) {
  auto ops = mapOps(c.quick);
  const int depth = c.quick ? 4 : 5;
  mc::forSequences(int(ops.size()), 2, [&](const std::vector<int>& head) {
    c.run(
        [&] { return ops[size_t(head[0])].name + "; " + ops[size_t(head[1])].name + "; then every operation sequence of length " + std::to_string(depth - 2); },
        [&] {
          mc::forSequences(int(ops.size()), depth - 2, [&](const std::vector<int>& tail) {
            Two w;
            std::string hist;
            auto seq = head;
            seq.insert(seq.end(), tail.begin(), tail.end());
            int n = 0;
            for (size_t i = 0; i < seq.size(); ++i) {
              const int o = seq[i];
              hist += ops[size_t(o)].name + "; ";
              ops[size_t(o)].f(w, n++ % 3);
              c.step();
              // the state after a prefix is the same for all its extensions: compare it for the first one only
              if (std::all_of(seq.begin() + long(i) + 1, seq.end(), [](int x) { return x == 0; })) {
                compare(w, hist);
              }
            }
            std::string st;
            for (auto& r : w.r) {
              for (auto& e : r) {
                st += e.first + "=" + e.second + ",";
              }
              st += "|";
            }
            c.state(st);
            c.outcome(st);
          });
        });
  });
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv,
                      {{"C01", c01, "every query/copy/reset history up to the bound over 32 texts and 36 typed values, "
                                    "compared with a hand-written interpretation table; distinct = distinct histories",
                        {"texts outside the alphabet are not covered"}},
                       {"C02", c02, "every sequence of 30 (quick: 22) operations up to the bound on two attribute maps against std::map, "
                                    "all lookups by name and by enum compared after every operation",
                        {"single thread; 5 keys, values from a 3-element domain"}}});
}
