// I06: handlers of maps, built in and own ones. C13: own kinds of regulatory elements.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/io_handlers/Factory.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>

#include "mc.hpp"
using namespace lanelet;

namespace {
//! what is registered stays registered: every case has a process of its own
template <typename F>
void inOwnProcess(F&& f) {
  int p[2];
  if (pipe(p) != 0) throw std::runtime_error("pipe");
  const pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    std::string out;
    try {
      f();
    } catch (const mc::Failure& e) {
      out = e.sig + "\n" + e.msg;
    } catch (const std::exception& e) {
      out = std::string("exception\n") + e.what();
    }
    size_t done = 0;
    while (done < out.size()) {
      ssize_t n = ::write(p[1], out.data() + done, out.size() - done);
      if (n <= 0) break;
      done += size_t(n);
    }
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  for (ssize_t n; (n = ::read(p[0], b, sizeof b)) > 0;) out.append(b, size_t(n));
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!out.empty()) throw mc::Failure{out.substr(0, out.find('\n')), out.substr(out.find('\n') + 1)};
  MC_REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash", "the process of the case ended with status " << st);
}

// ------------------------------------------------------------------ I06
struct Seen {
  std::string who, file, ctorConfig, config, params;
  const Projector* projector{};
  double lat{};
  const LaneletMap* map{};
  int calls{};
} gSeen;
enum class Way { Fine, OneError, TwoErrors, Throws };
Way gWay;
Id gMapId;
std::string text(const io::Configuration& c) {
  std::string s;
  for (auto& e : c) s += e.first + "=" + e.second.value() + ";";
  return s;
}
void behave(ErrorMessages& errors) {
  if (gWay == Way::OneError || gWay == Way::TwoErrors) errors.push_back("first");
  if (gWay == Way::TwoErrors) errors.push_back("second");
  if (gWay == Way::Throws) throw FileNotFoundError("own");
}
template <char N, char E>
struct Names {
  static constexpr char Name[] = {'o', 'w', 'n', '_', N, 0};
  static constexpr char Ext[] = {E == '-' ? char(0) : '.', E, 0};
  static constexpr char OsmName[] = "osm_handler", OsmExt[] = ".osm";
  static constexpr const char* name() { return N == 'o' ? OsmName : Name; }
  static constexpr const char* ext() { return E == 'o' ? OsmExt : Ext; }
};
template <char N, char E>
struct OwnParser : io_handlers::Parser {
  OwnParser(const Projector& p, const io::Configuration& c) : Parser(p, c) { gSeen.ctorConfig = text(c); }
  static constexpr const char* name() { return Names<N, E>::name(); }
  static constexpr const char* extension() { return Names<N, E>::ext(); }
  std::unique_ptr<LaneletMap> parse(const std::string& file, ErrorMessages& errors) const override {
    gSeen.who = std::string("parser ") + N + E;
    gSeen.file = file;
    gSeen.config = text(const_cast<OwnParser*>(this)->config());
    ++gSeen.calls;
    gSeen.projector = &projector();
    gSeen.lat = projector().origin().position.lat;
    behave(errors);
    return utils::createMap(Points3d{Point3d(gMapId, 1, 2, 3)});
  }
};
template <char N, char E>
struct OwnWriter : io_handlers::Writer {
  OwnWriter(const Projector& p, const io::Configuration& c) : Writer(p, c) { gSeen.ctorConfig = text(c); }
  static constexpr const char* name() { return Names<N, E>::name(); }
  static constexpr const char* extension() { return Names<N, E>::ext(); }
  void write(const std::string& file, const LaneletMap& map, ErrorMessages& errors, const io::Configuration& params) const override {
    gSeen.who = std::string("writer ") + N + E;
    gSeen.file = file;
    gSeen.config = text(const_cast<OwnWriter*>(this)->config());
    gSeen.params = text(params);
    gSeen.map = &map;
    ++gSeen.calls;
    gSeen.projector = &projector();
    gSeen.lat = projector().origin().position.lat;
    behave(errors);
  }
};
struct Kind {
  bool parser;
  std::string name, ext, who;
  std::function<void()> add;
};
template <char N, char E>
void kind(std::vector<Kind>& ks) {
  const std::string tag{N, E};
  ks.push_back({true, Names<N, E>::name(), Names<N, E>::ext(), "parser " + tag, [] { io_handlers::RegisterParser<OwnParser<N, E>> r; }});
  ks.push_back({false, Names<N, E>::name(), Names<N, E>::ext(), "writer " + tag, [] { io_handlers::RegisterWriter<OwnWriter<N, E>> r; }});
}
void i06(mc::Ctx& c) {
  std::vector<Kind> ks;
  kind<'a', '-'>(ks), kind<'a', 'x'>(ks), kind<'a', 'y'>(ks), kind<'b', '-'>(ks), kind<'b', 'x'>(ks), kind<'b', 'o'>(ks), kind<'o', 'x'>(ks);
  for (int len = 0; len <= (c.quick ? 2 : 3); ++len) {
    mc::forSequences(int(ks.size()), len, [&](const std::vector<int>& seq) {
      c.run(
          [&] {
            std::string s = "registered:";
            for (int k : seq) s += " " + ks[size_t(k)].who + " (" + ks[size_t(k)].name + ", '" + ks[size_t(k)].ext + "')";
            return s;
          },
          [&] {
            inOwnProcess([&] {
              // the reference: who is asked for a name or an extension is who registered for it last
              std::map<std::string, std::string> byName[2], byExt[2];
              for (int w = 0; w < 2; ++w) byName[w] = {{"osm_handler", "osm"}, {"bin_handler", "bin"}}, byExt[w] = {{".osm", "osm"}, {".bin", "bin"}};
              for (int k : seq) {
                auto& q = ks[size_t(k)];
                q.add();
                byName[q.parser ? 0 : 1][q.name] = q.who;
                if (!q.ext.empty()) byExt[q.parser ? 0 : 1][q.ext] = q.who;
              }
              auto keys = [](const std::map<std::string, std::string>& m) {
                std::vector<std::string> v;
                for (auto& e : m) v.push_back(e.first);
                return v;
              };
              auto sorted = [](std::vector<std::string> v) {
                std::sort(v.begin(), v.end());
                return v;
              };
              MC_REQUIRE(sorted(supportedParsers()) == keys(byName[0]) && sorted(supportedWriters()) == keys(byName[1]), "handler-list",
                         "parsers " << mc::join(supportedParsers(), ",") << " writers " << mc::join(supportedWriters(), ","));
              MC_REQUIRE(sorted(supportedParserExtensions()) == keys(byExt[0]) && sorted(supportedWriterExtensions()) == keys(byExt[1]), "extension-list",
                         "parsers " << mc::join(supportedParserExtensions(), ",") << " writers " << mc::join(supportedWriterExtensions(), ","));
              auto map = utils::createMap(Points3d{Point3d(7, 1, 2, 3)});
              const Origin origin({49, 8});
              const DefaultProjector projector(Origin({51, 9}));
              const io::Configuration some{{"key", Attribute("value")}, {"n", Attribute(3)}};
              // by extension (files) and by name
              const std::vector<std::string> files{"f.x", "f.y", "f.z", "f", "d.x/f.y", "d.x/f", "f.y.x", "f.x.y", "f.x ", "f.", "f.X", "own_a"};
              const std::vector<std::string> names{"own_a", "own_b", "own_c", "", ".x", "own_", "x", "osm_handler"};
              mkdir((c.scratch + "/d.x").c_str(), 0700);
              for (auto& f : files) std::ofstream(c.scratch + "/" + f) << "x";
              for (int w = 0; w < 2; ++w) {
                for (size_t i = 0; i < files.size() + names.size() + 1; ++i) {
                  const bool named = i >= files.size() && i < files.size() + names.size();
                  std::string file = i < files.size() ? files[i] : "f.x", name = named ? names[i - files.size()] : "", want;
                  if (i == files.size() + names.size()) file = "f.osm";
                  if (named) {
                    if (byName[w].count(name) != 0) want = byName[w][name];
                  } else {
                    const auto base = file.substr(file.rfind('/') == std::string::npos ? 0 : file.rfind('/') + 1);
                    const auto dot = base.rfind('.');
                    if (dot != std::string::npos && byExt[w].count(base.substr(dot)) != 0) want = byExt[w][base.substr(dot)];
                  }
                  if (want == "osm" || want == "bin") continue;  // these are the matter of other checks
                  if (file == "f.osm") std::ofstream(c.scratch + "/" + file) << "x";
                  file = c.scratch + "/" + file;
                  for (int form = 0; form < 16; ++form) {
                    for (Way way : {Way::Fine, Way::OneError, Way::TwoErrors, Way::Throws}) {
                      const bool byOrigin = (form & 1) != 0, ask = (form & 2) != 0, withParams = (form & 4) != 0, missing = (form & 8) != 0;
                      if (missing && (w == 1 || way != Way::Fine)) continue;
                      const std::string target = missing ? c.scratch + "/missing" + (named ? ".x" : file.substr(file.rfind('/') + 2)) : file;
                      gSeen = {};
                      gWay = way;
                      gMapId = 77;
                      ErrorMessages errors{"of before"};
                      auto* ep = ask ? &errors : nullptr;
                      std::string how = "nothing";
                      ErrorMessages thrown;
                      std::unique_ptr<LaneletMap> got;
                      const io::Configuration params = withParams ? some : io::Configuration{};
                      try {
                        if (w == 0) {
                          if (named) {
                            got = byOrigin ? withParams ? load(target, name, origin, ep, params) : load(target, name, origin, ep)
                                           : withParams ? load(target, name, projector, ep, params) : load(target, name, projector, ep);
                          } else {
                            got = byOrigin ? withParams ? load(target, origin, ep, params) : load(target, origin, ep)
                                           : withParams ? load(target, projector, ep, params) : load(target, projector, ep);
                          }
                        } else if (named) {
                          if (byOrigin) write(target, *map, name, origin, ep, params);
                          else write(target, *map, name, projector, ep, params);
                        } else {
                          if (byOrigin) write(target, *map, origin, ep, params);
                          else write(target, *map, projector, ep, params);
                        }
                      } catch (const ParseError& e) {
                        how = "ParseError", thrown = e.errorMessages;
                      } catch (const WriteError& e) {
                        how = "WriteError", thrown = e.errorMessages;
                      } catch (const FileNotFoundError& e) {
                        how = "FileNotFoundError", thrown = e.errorMessages;
                      } catch (const UnsupportedExtensionError& e) {
                        how = "UnsupportedExtensionError";
                      } catch (const UnsupportedIOHandlerError& e) {
                        how = "UnsupportedIOHandlerError";
                      }
                      std::ostringstream o;
                      o << (w == 0 ? "load " : "write ") << target.substr(c.scratch.size()) << (named ? " with '" + name + "'" : "") << (byOrigin ? " origin" : " projector") << (ask ? " errors" : "")
                        << (withParams ? " params" : "") << " handler way " << int(way) << ": " << how;
                      c.step();
                      if (missing) {
                        MC_REQUIRE(how == "FileNotFoundError" && gSeen.calls == 0, "missing-file", o.str());
                        continue;
                      }
                      if (want.empty()) {
                        MC_REQUIRE(how == (named ? "UnsupportedIOHandlerError" : "UnsupportedExtensionError") && gSeen.calls == 0, "unknown-handler", o.str());
                        continue;
                      }
                      MC_REQUIRE(gSeen.calls == 1 && gSeen.who == want, "wrong-handler", o.str() << ": " << gSeen.calls << " calls of '" << gSeen.who << "' instead of '" << want << "'");
                      MC_REQUIRE(gSeen.file == target, "handler-file", o.str() << ": " << gSeen.file);
                      MC_REQUIRE(byOrigin ? gSeen.lat == 49. && dynamic_cast<const DefaultProjector*>(gSeen.projector) != nullptr : gSeen.projector == &projector, "handler-projector", o.str());
                      MC_REQUIRE(gSeen.config == text(params) && gSeen.ctorConfig == text(params) && (w == 0 || gSeen.params == text(params)), "handler-config",
                                 o.str() << ": " << gSeen.config << " " << gSeen.ctorConfig << " " << gSeen.params);
                      MC_REQUIRE(w == 0 || gSeen.map == map.get(), "handler-map", o.str());
                      ErrorMessages reported;
                      if (way == Way::OneError) reported = {"first"};
                      if (way == Way::TwoErrors) reported = {"first", "second"};
                      if (way == Way::Throws) {
                        MC_REQUIRE(how == "FileNotFoundError" && thrown == ErrorMessages{"own"}, "handler-exception", o.str());
                        continue;
                      }
                      if (!ask && !reported.empty()) {
                        MC_REQUIRE(how == (w == 0 ? "ParseError" : "WriteError") && thrown == reported, "errors-thrown", o.str() << " with " << mc::join(thrown, ","));
                        continue;
                      }
                      MC_REQUIRE(how == "nothing", "errors-thrown", o.str());
                      if (ask) MC_REQUIRE(errors == reported, "errors-reported", o.str() << " reported " << mc::join(errors, ","));
                      if (w == 0) MC_REQUIRE(got && got->pointLayer.size() == 1 && got->pointLayer.exists(77), "handler-result", o.str());
                    }
                  }
                }
              }
              // handlers made by the factories themselves
              for (int w = 0; w < 2; ++w) {
                for (bool named : {true, false}) {
                  for (auto& e : named ? byName[w] : byExt[w]) {
                    if (e.second == "osm" || e.second == "bin") continue;
                    for (bool withParams : {false, true}) {
                      gSeen = {};
                      gWay = Way::Fine;
                      ErrorMessages errors;
                      if (w == 0) {
                        auto h = named ? withParams ? io_handlers::ParserFactory::create(e.first, projector, some) : io_handlers::ParserFactory::create(e.first, projector)
                                       : withParams ? io_handlers::ParserFactory::createFromExtension(e.first, projector, some) : io_handlers::ParserFactory::createFromExtension(e.first, projector);
                        h->parse("some file", errors);
                      } else {
                        auto h = named ? withParams ? io_handlers::WriterFactory::create(e.first, projector, some) : io_handlers::WriterFactory::create(e.first, projector)
                                       : withParams ? io_handlers::WriterFactory::createFromExtension(e.first, projector, some) : io_handlers::WriterFactory::createFromExtension(e.first, projector);
                        h->write("some file", *map, errors);
                      }
                      MC_REQUIRE(gSeen.who == e.second && gSeen.calls == 1 && gSeen.file == "some file" && gSeen.projector == &projector && gSeen.config == (withParams ? text(some) : ""),
                                 "factory-handler", (w == 0 ? "parser " : "writer ") << e.first << ": " << gSeen.who << " with configuration " << gSeen.config);
                      c.step();
                      // without an origin parsers refuse to project, writers warn
                      const DefaultProjector none;
                      bool refused = false;
                      try {
                        if (w == 0) (named ? io_handlers::ParserFactory::create(e.first, none, some) : io_handlers::ParserFactory::createFromExtension(e.first, none, some))->parse("f", errors);
                        else (named ? io_handlers::WriterFactory::create(e.first, none, some) : io_handlers::WriterFactory::createFromExtension(e.first, none, some))->write("f", *map, errors);
                      } catch (const IOError&) {
                        refused = true;
                      }
                      MC_REQUIRE(refused == (w == 0), "no-origin", (w == 0 ? "parser " : "writer ") << e.first);
                    }
                  }
                }
              }
            });
            c.step(100);
            std::string s;
            for (int k : seq) s += char('a' + k);
            c.state(s);
          });
    });
  }
}

// ------------------------------------------------------------------ C13
//! own kinds: any members; needs a line that it refers to; an own one that takes the place of a speed limit; one derived from it
struct OwnA : RegulatoryElement {
  static constexpr char RuleName[] = "own_a";
  explicit OwnA(const RegulatoryElementDataPtr& d) : RegulatoryElement(d) {}
};
struct OwnB : RegulatoryElement {
  static constexpr char RuleName[] = "own_b";
  explicit OwnB(const RegulatoryElementDataPtr& d) : RegulatoryElement(d) {
    if (getParameters<ConstLineString3d>(RoleName::Refers).empty()) throw InvalidInputError("own_b needs a line");
  }
  ConstLineStrings3d lines() const { return getParameters<ConstLineString3d>(RoleName::Refers); }
};
struct OwnLimit : RegulatoryElement {
  static constexpr char RuleName[] = "speed_limit";
  explicit OwnLimit(const RegulatoryElementDataPtr& d) : RegulatoryElement(d) {}
};
struct OwnLight : TrafficLight {
  static constexpr char RuleName[] = "own_light";
  explicit OwnLight(const RegulatoryElementDataPtr& d) : TrafficLight(d) {}
};
struct OwnAA : OwnA {
  static constexpr char RuleName[] = "own_aa";
  explicit OwnAA(const RegulatoryElementDataPtr& d) : OwnA(d) {}
};
const std::vector<std::string> Rules{"own_a", "own_b", "speed_limit", "own_light", "own_aa", "traffic_light", "", "regulatory_element", "own_c", "Own_a"};

std::string kindOf(const RegulatoryElementConstPtr& r) {
  if (std::dynamic_pointer_cast<const OwnAA>(r)) return "OwnAA";
  if (std::dynamic_pointer_cast<const OwnA>(r)) return "OwnA";
  if (std::dynamic_pointer_cast<const OwnB>(r)) return "OwnB";
  if (std::dynamic_pointer_cast<const OwnLimit>(r)) return "OwnLimit";
  if (std::dynamic_pointer_cast<const OwnLight>(r)) return "OwnLight";
  if (std::dynamic_pointer_cast<const SpeedLimit>(r)) return "SpeedLimit";
  if (std::dynamic_pointer_cast<const TrafficLight>(r)) return "TrafficLight";
  if (std::dynamic_pointer_cast<const GenericRegulatoryElement>(r)) return "GenericRegulatoryElement";
  return "?";
}
template <typename T, typename LL>
std::vector<Id> idsAs(LL& ll) {
  std::vector<Id> v;
  for (auto& r : ll.template regulatoryElementsAs<T>()) v.push_back(r->id());
  return v;
}
void c13(mc::Ctx& c) {
  const std::vector<std::pair<std::string, std::pair<std::string, std::function<void()>>>> kinds{
      {"own_a", {"OwnA", [] { RegisterRegulatoryElement<OwnA> r; }}},
      {"own_b", {"OwnB", [] { RegisterRegulatoryElement<OwnB> r; }}},
      {"speed_limit", {"OwnLimit", [] { RegisterRegulatoryElement<OwnLimit> r; }}},
      {"own_light", {"OwnLight", [] { RegisterRegulatoryElement<OwnLight> r; }}},
      {"own_aa", {"OwnAA", [] { RegisterRegulatoryElement<OwnAA> r; }}}};
  for (int mask = 0; mask < 32; ++mask) {
    mc::forSequences(int(Rules.size()), c.quick ? 2 : 3, [&](const std::vector<int>& rs) {
      c.run(
          [&] {
            std::string s = "own kinds:";
            for (int k = 0; k < 5; ++k) {
              if (mask >> k & 1) s += " " + kinds[size_t(k)].second.first;
            }
            s += ", elements of the rules";
            for (int r : rs) s += " '" + Rules[size_t(r)] + "'";
            return s;
          },
          [&] {
            inOwnProcess([&] {
              std::map<std::string, std::string> reg{{"speed_limit", "SpeedLimit"}, {"traffic_light", "TrafficLight"}, {"regulatory_element", "GenericRegulatoryElement"}};
              for (int k = 0; k < 5; ++k) {
                if (mask >> k & 1) kinds[size_t(k)].second.second(), reg[kinds[size_t(k)].first] = kinds[size_t(k)].second.first;
              }
              auto avail = RegulatoryElementFactory::availableRules();
              for (auto& e : reg) MC_REQUIRE(std::count(avail.begin(), avail.end(), e.first) == 1, "rule-list", e.first << " is not listed once");
              for (auto& e : kinds) MC_REQUIRE(std::count(avail.begin(), avail.end(), e.first) == int(reg.count(e.first)), "rule-list", e.first);
              // every element with and without a line, in a lanelet each and all in one
              for (int lines = 0; lines < (1 << rs.size()); ++lines) {
                LineString3d left(1, {Point3d(11, 0, 1), Point3d(12, 9, 1)}), right(2, {Point3d(13, 0, 0), Point3d(14, 9, 0)});
                Lanelet all(3, left, right);
                std::map<Id, std::string> kind;
                std::map<Id, Ids> members;
                std::map<Id, std::string> rule;
                Ids order;
                for (size_t i = 0; i < rs.size(); ++i) {
                  const bool line = (lines >> i & 1) != 0;
                  const Id id = Id(100 + i);
                  const std::string r = Rules[size_t(rs[i])], eff = r.empty() ? "regulatory_element" : r;
                  LineString3d l(Id(200 + i), {Point3d(Id(300 + 2 * i), 5, double(i)), Point3d(Id(301 + 2 * i), 6, double(i))});
                  if (eff == "traffic_light" || eff == "own_light") l.attributes()["type"] = "traffic_light";
                  RuleParameterMap m;
                  if (line) m[RoleName::Refers].push_back(l);
                  auto data = std::make_shared<RegulatoryElementData>(id, m, AttributeMap{{"subtype", "something"}, {"note", "kept"}, {"type", "regulatory_element"}});
                  RegulatoryElementPtr got;
                  std::string how;
                  try {
                    got = RegulatoryElementFactory::create(r, data);
                  } catch (const InvalidInputError&) {
                    how = "InvalidInputError";
                  }
                  const bool known = reg.count(eff) != 0;
                  const bool builtIn = known && (reg[eff] == "SpeedLimit" || reg[eff] == "TrafficLight" || reg[eff] == "OwnLight");
                  c.step();
                  if (!known || (reg[eff] == "OwnB" && !line)) {
                    MC_REQUIRE(!got && how == "InvalidInputError", "rule-refused", "'" << r << "': " << (got ? kindOf(got) : how));
                    continue;
                  }
                  if (!got && builtIn) continue;  // these have requirements of their own
                  MC_REQUIRE(got && kindOf(got) == reg[eff], "rule-kind", "'" << r << "' gives " << (got ? kindOf(got) : how) << " instead of " << reg[eff]);
                  MC_REQUIRE(got->id() == id && got->attribute("subtype").value() == eff && got->attribute("note").value() == "kept" && got->constData() == data, "rule-data",
                             "'" << r << "' has id " << got->id() << " subtype " << got->attribute("subtype").value());
                  MC_REQUIRE(got->size() == (line ? 1U : 0U) && utils::has(*got, l.id()) == line, "rule-members", "'" << r << "'");
                  all.addRegulatoryElement(got);
                  order.push_back(id), kind[id] = reg[eff], rule[id] = eff;
                  if (line) members[id].push_back(l.id());
                }
                // typed views of the lanelet: in order, those of the kind or one derived from it
                auto check = [&](Lanelet ll, const std::string& where, bool ordered) {
                  const ConstLanelet cl = ll;
                  auto want = [&](std::initializer_list<const char*> k) {
                    Ids v;
                    for (Id id : order) {
                      if (std::find_if(k.begin(), k.end(), [&](const char* x) { return kind[id] == x; }) != k.end()) v.push_back(id);
                    }
                    return v;
                  };
                  auto same = [&](Ids a, Ids b) {
                    if (!ordered) std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
                    return a == b;
                  };
                  const auto a = want({"OwnA", "OwnAA"}), aa = want({"OwnAA"}), b = want({"OwnB"}), li = want({"OwnLimit"}), tl = want({"TrafficLight", "OwnLight"}), ol = want({"OwnLight"}),
                             g = want({"GenericRegulatoryElement"}), s = want({"SpeedLimit"});
                  MC_REQUIRE(same(idsAs<OwnA>(ll), a) && same(idsAs<OwnA>(cl), a) && same(idsAs<OwnAA>(ll), aa) && same(idsAs<OwnAA>(cl), aa) && same(idsAs<OwnB>(ll), b) &&
                                 same(idsAs<OwnB>(cl), b) && same(idsAs<OwnLimit>(ll), li) && same(idsAs<OwnLimit>(cl), li) && same(idsAs<TrafficLight>(ll), tl) && same(idsAs<TrafficLight>(cl), tl) &&
                                 same(idsAs<OwnLight>(ll), ol) && same(idsAs<OwnLight>(cl), ol) && same(idsAs<GenericRegulatoryElement>(ll), g) && same(idsAs<SpeedLimit>(cl), s) &&
                                 same(idsAs<RegulatoryElement>(ll), order),
                             "typed-view", where);
                  for (auto& r : ll.regulatoryElements()) {
                    MC_REQUIRE(kindOf(r) == kind[r->id()] && r->attribute("subtype").value() == rule[r->id()] && r->attribute("note").value() == "kept", "kept-kind",
                               where << ": " << r->id() << " is a " << kindOf(r) << " instead of " << kind[r->id()]);
                    Ids m;
                    for (auto& l : RegulatoryElementConstPtr(r)->getParameters<ConstLineString3d>(RoleName::Refers)) m.push_back(l.id());
                    MC_REQUIRE(m == members[r->id()], "kept-members", where << ": " << r->id() << " of kind " << kindOf(r));
                  }
                };
                check(all, "the lanelet", true);
                check(all.invert(), "the inverted lanelet", true);
                LaneletMap map;
                map.add(all);
                for (Id id : order) MC_REQUIRE(map.regulatoryElementLayer.exists(id), "in-map", id << " of kind " << kind[id]);
                for (std::string ext : {".osm", ".bin"}) {
                  const Origin origin({49, 8});
                  ErrorMessages e1, e2;
                  write(c.scratch + "/m" + ext, map, origin, &e1);
                  auto back = load(c.scratch + "/m" + ext, origin, &e2);
                  MC_REQUIRE(e1.empty() && e2.empty(), "io-errors", ext << ": " << mc::join(e1, ",") << mc::join(e2, ","));
                  MC_REQUIRE(back->laneletLayer.size() == 1 && back->regulatoryElementLayer.size() == order.size(), "io-lost", ext << ": " << back->regulatoryElementLayer.size() << " elements");
                  check(back->laneletLayer.get(3), "loaded from " + ext, false);
                  for (auto& r : back->regulatoryElementLayer) MC_REQUIRE(kindOf(r) == kind[r->id()], "io-kind", ext << ": " << r->id() << " in the layer is a " << kindOf(r));
                }
              }
            });
            c.step(20);
            std::string s = std::to_string(mask);
            for (int r : rs) s += "," + std::to_string(r);
            c.state(s);
          });
    });
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::mainImpl(
      argc, argv,
      {{"I06", i06, "every history of up to two (thorough three) registrations of 14 own parsers and writers, then every file and name × form of load and write × behaviour of the handler",
        {"who registers last for a name or an extension is asked"}},
       {"C13", c13, "every set of five own kinds of regulatory elements × every sequence of two (thorough three) rules × members, looked up in lanelets and through files",
        {"elements made by the parser are those of the factory"}}});
}
