// Bounded exhaustive exploration framework shared by all harnesses.
//
// A property function enumerates a finite, ordered space of cases (operation sequences, inputs, fault points,
// schedules). Every worker process walks the same enumeration and executes the cases of its own residue class.
// A case is identified by (property, tier, index); the replay file names it and carries a readable description.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {
using U64 = std::uint64_t;

inline U64 fnv(const void* p, size_t n, U64 h = 1469598103934665603ULL) {
  auto* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 1099511628211ULL;
  }
  return h;
}
inline U64 hashStr(const std::string& s) { return fnv(s.data(), s.size()); }

inline std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o;
}

//! thrown by CHECK macros: (signature, message)
struct Failure {
  std::string sig, msg;
};

struct Violation {
  U64 idx{};
  std::string sig, msg, desc;
};

struct Shared {  // one per worker, in shared memory: what it is doing right now
  volatile U64 idx;
  volatile U64 inCase;
  volatile U64 progress;
  volatile U64 done;
};

class Ctx {
 public:
  std::string prop;
  bool quick{true};
  int shard{0}, nShards{1};
  bool replaying{false};
  U64 replayIdx{0};
  std::string scratch;  // private directory of this worker
  Shared* sh{nullptr};
  double deadline{0};

  // results
  U64 cases{0}, states{0}, transitions{0}, traces{0};
  bool truncated{false};
  std::unordered_set<U64> stateSet, outcomeSet;
  std::vector<std::string> samples;
  std::map<std::string, U64> counters;
  std::vector<Violation> violations;
  std::set<std::string> sigs;
  std::vector<std::string> notes;

  template <typename Desc, typename Body>
  void run(Desc&& desc, Body&& body) {
    if (stop_) {
      return;
    }
    const U64 idx = next_++;
    if (replaying) {
      if (idx != replayIdx) {
        return;
      }
      std::cerr << "replaying case " << idx << ": " << desc() << std::endl;
    } else if (int(idx % U64(nShards)) != shard) {
      return;
    }
    if ((idx & 63) == 0 && deadline > 0 && now() > deadline) {
      truncated = true;
      stop_ = true;
      return;
    }
    sh->idx = idx;
    sh->inCase = 1;
    sh->progress = sh->progress + 1;
    ++cases;
    ++traces;
    try {
      body();
    } catch (const Failure& f) {
      add(idx, f.sig, f.msg, desc());
    } catch (const std::exception& e) {
      add(idx, "unexpected-exception", std::string("unexpected exception: ") + e.what(), desc());
    }
    sh->inCase = 0;
    // keep a few, spread over the run
    if (samples.size() < 3 && (cases == 1 || cases == 50 || cases == 1000)) {
      samples.push_back(desc());
    }
    if (replaying) {
      stop_ = true;
    }
  }
  //! total number of cases in the enumeration (over all shards)
  U64 enumerated() const { return next_; }
  bool stopped() const { return stop_; }
  //! for enumerations with expensive descent: is the case with this (next) index mine? Use skip() to pass over a block
  void skip(U64 n) { next_ += n; }
  U64 nextIndex() const { return next_; }

  void step(U64 n = 1) {
    transitions += n;
    sh->progress = sh->progress + 1;
  }
  void state(U64 h) { stateSet.insert(h); }
  void state(const std::string& s) { stateSet.insert(hashStr(s)); }
  void outcome(const std::string& s) { outcomeSet.insert(hashStr(s)); }
  void count(const std::string& k, U64 n = 1) { counters[k] += n; }

  static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }

 private:
  void add(U64 idx, const std::string& sig, const std::string& msg, const std::string& desc) {
    ++counters["violating_cases"];
    if (sigs.count(sig) != 0 && violations.size() >= 8) {
      return;
    }
    sigs.insert(sig);
    size_t same = 0;
    for (auto& v : violations) {
      same += v.sig == sig;
    }
    if (same < 2) {
      violations.push_back({idx, sig, msg, desc});
    }
    if (violations.size() >= 40) {
      stop_ = true;
    }
  }
  U64 next_{0};
  bool stop_{false};
};

#define MC_REQUIRE(cond, sig, ...)                                   \
  do {                                                               \
    if (!(cond)) {                                                   \
      std::ostringstream mc_os_;                                     \
      mc_os_ << "expected " << #cond << ": " << __VA_ARGS__;         \
      throw ::mc::Failure{sig, mc_os_.str()};                        \
    }                                                                \
  } while (false)

struct Prop {
  std::string id;
  std::function<void(Ctx&)> fn;
  std::string rule;  //!< how cases are made and what makes one non-trivial
  std::vector<std::string> assumptions;
  double stallQuick{60}, stallThorough{240};
};

namespace detail {
inline void wr(std::ostream& o, const std::string& s) {
  U64 n = s.size();
  o.write(reinterpret_cast<char*>(&n), 8);
  o.write(s.data(), long(n));
}
inline void wu(std::ostream& o, U64 n) { o.write(reinterpret_cast<char*>(&n), 8); }
inline U64 ru(std::istream& i) {
  U64 n = 0;
  i.read(reinterpret_cast<char*>(&n), 8);
  return n;
}
inline std::string rd(std::istream& i) {
  U64 n = ru(i);
  std::string s(n, 0);
  i.read(&s[0], long(n));
  return s;
}
inline void save(const Ctx& c, const std::string& path) {
  std::ofstream o(path, std::ios::binary);
  for (U64 v : {c.cases, c.transitions, c.traces, U64(c.truncated), c.enumerated()}) {
    wu(o, v);
  }
  wu(o, c.states);
  for (auto* set : {&c.stateSet, &c.outcomeSet}) {
    wu(o, set->size());
    for (auto v : *set) {
      wu(o, v);
    }
  }
  wu(o, c.samples.size());
  for (auto& s : c.samples) {
    wr(o, s);
  }
  wu(o, c.counters.size());
  for (auto& s : c.counters) {
    wr(o, s.first);
    wu(o, s.second);
  }
  wu(o, c.violations.size());
  for (auto& v : c.violations) {
    wu(o, v.idx);
    wr(o, v.sig);
    wr(o, v.msg);
    wr(o, v.desc);
  }
  wu(o, 0xC0FFEE);
}
struct Total {
  U64 cases{0}, transitions{0}, traces{0}, truncated{0}, enumerated{0}, states{0};
  std::unordered_set<U64> stateSet, outcomeSet;
  std::vector<std::string> samples;
  std::map<std::string, U64> counters;
  std::vector<Violation> violations;
};
inline bool load(Total& t, const std::string& path) {
  std::ifstream i(path, std::ios::binary);
  if (!i) {
    return false;
  }
  t.cases += ru(i);
  t.transitions += ru(i);
  t.traces += ru(i);
  t.truncated |= ru(i);
  t.enumerated = std::max(t.enumerated, ru(i));
  t.states += ru(i);
  for (auto* set : {&t.stateSet, &t.outcomeSet}) {
    U64 n = ru(i);
    for (U64 k = 0; k < n && i; ++k) {
      set->insert(ru(i));
    }
  }
  for (U64 n = ru(i), k = 0; k < n && i; ++k) {
    t.samples.push_back(rd(i));
  }
  for (U64 n = ru(i), k = 0; k < n && i; ++k) {
    auto key = rd(i);
    t.counters[key] += ru(i);
  }
  for (U64 n = ru(i), k = 0; k < n && i; ++k) {
    Violation v;
    v.idx = ru(i);
    v.sig = rd(i);
    v.msg = rd(i);
    v.desc = rd(i);
    t.violations.push_back(v);
  }
  return ru(i) == 0xC0FFEE;
}
struct Known {
  std::string property, sig, what, desc;
};
//! known_findings.txt: "known: property=<id> sig=<signature> case=<exact case description> | <what fails>" per line
inline std::vector<Known> readKnown(const std::string& path) {
  std::vector<Known> r;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.rfind("known: property=", 0) != 0) {
      continue;
    }
    Known k;
    std::string rest = l.substr(16);
    auto a = rest.find(" sig=");
    auto b = rest.find(" case=");
    auto d = rest.find(" | ");
    if (a == std::string::npos || b == std::string::npos || d == std::string::npos) {
      continue;
    }
    k.property = rest.substr(0, a);
    k.sig = rest.substr(a + 5, b - a - 5);
    k.desc = rest.substr(b + 6, d - b - 6);
    k.what = rest.substr(d + 3);
    r.push_back(k);
  }
  return r;
}
}  // namespace detail

//! runs fn in a forked worker; returns when it exits
inline int mainImpl(int argc, char** argv, const std::vector<Prop>& props) {
  std::string prop, tier = "quick", replay, verif = "/verif";
  int jobs = 8;
  U64 seed = 1;
  double budget = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") {
      prop = val();
    } else if (a == "--tier") {
      tier = val();
    } else if (a == "--replay") {
      replay = val();
    } else if (a == "--verif") {
      verif = val();
    } else if (a == "--jobs") {
      jobs = std::stoi(val());
    } else if (a == "--seed") {
      seed = std::stoull(val());
    } else if (a == "--budget") {
      budget = std::stod(val());
    }
  }
  U64 replayIdx = 0;
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string l;
    while (std::getline(f, l)) {
      if (l.rfind("property=", 0) == 0) {
        prop = l.substr(9);
      } else if (l.rfind("tier=", 0) == 0) {
        tier = l.substr(5);
      } else if (l.rfind("index=", 0) == 0) {
        replayIdx = std::stoull(l.substr(6));
      }
    }
  }
  const Prop* p = nullptr;
  for (auto& x : props) {
    if (x.id == prop) {
      p = &x;
    }
  }
  if (p == nullptr) {
    std::cerr << "unknown property " << prop << std::endl;
    return 2;
  }
  const double t0 = Ctx::now();
  const bool quick = tier != "thorough";
  char tmpl[] = "/tmp/ll2mc.XXXXXX";
  const std::string scratch = mkdtemp(tmpl);
  auto* sh = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(sh, 0, sizeof(Shared) * 64);

  auto spawn = [&](int slot, int shard, int n, bool isReplay, U64 idx, const std::string& out) {
    std::cout.flush();
    std::cerr.flush();
    pid_t pid = fork();
    if (pid != 0) {
      return pid;
    }
    setpgid(0, 0);
    Ctx c;
    c.prop = prop;
    c.quick = quick;
    c.shard = shard;
    c.nShards = n;
    c.replaying = isReplay;
    c.replayIdx = idx;
    c.sh = sh + slot;
    c.deadline = (budget > 0 && !isReplay) ? t0 + budget : 0;
    c.scratch = scratch + "/w" + std::to_string(slot);
    mkdir(c.scratch.c_str(), 0700);
    struct rlimit_dummy {};
    if (!isReplay) {  // library chatter of thousands of cases is of no use
      int fd = open((c.scratch + "/stderr").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      dup2(fd, 2);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
    }
    signal(SIGPIPE, SIG_DFL);
    int rc = 0;
    try {
      p->fn(c);
    } catch (const std::exception& e) {
      std::cerr << "harness error: " << e.what() << std::endl;
      rc = 3;
    }
    detail::save(c, out);
    c.sh->done = 1;
    std::cout.flush();
    std::cerr.flush();
    _exit(rc);
  };
  // waits for pids; on stall kills. returns exit statuses
  auto waitAll = [&](std::vector<pid_t>& pids, double stall) {
    std::vector<int> st(pids.size(), -1);
    std::vector<U64> last(pids.size(), ~0ULL);
    std::vector<double> lastT(pids.size(), Ctx::now());
    size_t left = pids.size();
    while (left != 0) {
      for (size_t i = 0; i < pids.size(); ++i) {
        if (st[i] != -1) {
          continue;
        }
        int s = 0;
        if (waitpid(pids[i], &s, WNOHANG) == pids[i]) {
          st[i] = s;
          --left;
          continue;
        }
        if (sh[i].progress != last[i]) {
          last[i] = sh[i].progress;
          lastT[i] = Ctx::now();
        } else if (sh[i].inCase != 0 && Ctx::now() - lastT[i] > stall) {
          kill(pids[i], SIGKILL);
          waitpid(pids[i], &s, 0);
          st[i] = 0x10000;  // stalled
          --left;
        }
      }
      usleep(2000);
    }
    return st;
  };
  auto tailOf = [&](const std::string& f) {
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    auto t = s.str();
    auto asan = t.find("ERROR: ");
    if (asan != std::string::npos) {
      t = t.substr(asan, 1500);
    }
    return t.size() > 1500 ? t.substr(t.size() - 1500) : t;
  };
  auto cleanup = [&] {
    std::string cmd = "rm -rf -- " + scratch;
    if (scratch.rfind("/tmp/ll2mc.", 0) == 0 && system(cmd.c_str()) != 0) {
      std::cerr << "could not remove " << scratch << std::endl;
    }
  };
  const double stall = quick ? p->stallQuick : p->stallThorough;

  // returns violations of one replayed case
  auto replayCase = [&](U64 idx, double limit) {
    detail::Total t;
    memset(static_cast<void*>(sh), 0, sizeof(Shared));
    auto out = scratch + "/replay.out";
    unlink(out.c_str());
    std::vector<pid_t> pids{spawn(0, 0, 1, true, idx, out)};
    auto st = waitAll(pids, limit);
    if (st[0] != 0) {
      Violation v;
      v.idx = idx;
      if (st[0] == 0x10000) {
        v.sig = "hang";
        v.msg = "no progress within " + std::to_string(int(limit)) + " s";
      } else {
        v.sig = "crash";
        v.msg = WIFSIGNALED(st[0]) ? "process died with signal " + std::to_string(WTERMSIG(st[0]))
                                   : "process exited with status " + std::to_string(WEXITSTATUS(st[0]));
      }
      t.violations.push_back(v);
    } else {
      detail::load(t, out);
    }
    return t.violations;
  };

  if (!replay.empty()) {
    auto vs = replayCase(replayIdx, 4 * stall);
    for (auto& v : vs) {
      std::cout << "reproduced: [" << v.sig << "] " << v.msg << std::endl;
    }
    if (vs.empty()) {
      std::cout << "the case passes" << std::endl;
    }
    cleanup();
    return vs.empty() ? 0 : 1;
  }

  std::vector<pid_t> pids;
  for (int i = 0; i < jobs; ++i) {
    pids.push_back(spawn(i, i, jobs, false, 0, scratch + "/out" + std::to_string(i)));
  }
  auto st = waitAll(pids, stall);
  detail::Total t;
  bool harnessError = false;
  for (int i = 0; i < jobs; ++i) {
    auto err = scratch + "/w" + std::to_string(i) + "/stderr";
    if (st[i] == 0) {
      harnessError |= !detail::load(t, scratch + "/out" + std::to_string(i));
      continue;
    }
    if (WIFEXITED(st[i]) && st[i] != 0x10000 && WEXITSTATUS(st[i]) == 3) {
      std::cerr << tailOf(err) << std::endl;
      harnessError = true;
      continue;
    }
    Violation v;
    v.idx = sh[i].idx;
    v.sig = st[i] == 0x10000 ? "hang" : "crash";
    v.msg = st[i] == 0x10000 ? "no progress within the time limit"
                             : (WIFSIGNALED(st[i]) ? "process died with signal " + std::to_string(WTERMSIG(st[i]))
                                                   : "process exited with status " + std::to_string(WEXITSTATUS(st[i])));
    v.msg += "; stderr: " + tailOf(err);
    t.violations.push_back(v);
  }
  // describe + replay each violation before reporting
  auto known = detail::readKnown(verif + "/known_findings.txt");
  std::set<std::string> knownPrinted;
  int reported = 0;
  std::set<std::string> sigsDone;
  for (auto& v : t.violations) {
    bool isKnown = false;
    for (auto& k : known) {
      if (k.property == prop && k.sig == v.sig && k.desc == v.desc) {
        isKnown = true;
        if (knownPrinted.insert(k.sig + k.desc).second) {
          std::cout << "KNOWN-FINDING: property=" << prop << " " << k.what << std::endl;
        }
      }
    }
    if (isKnown || reported >= 5 || !sigsDone.insert(v.sig).second) {
      continue;
    }
    auto again = replayCase(v.idx, 2 * stall);
    if (v.sig == "hang" && again.empty()) {
      std::cerr << "case " << v.idx << " was slow once and finished when run alone; not reported" << std::endl;
      t.truncated = 1;
      continue;
    }
    if (again.empty() && v.sig == "crash") {
      // state carried between cases of a worker: report, it did crash
      v.msg += " (not reproduced when the case is run alone)";
    }
    mkdir((verif + "/replays").c_str(), 0755);
    auto path = verif + "/replays/" + prop + "-" + tier + "-" + std::to_string(v.idx) + ".txt";
    std::ofstream f(path);
    f << "property=" << prop << "\ntier=" << tier << "\nindex=" << v.idx << "\nsignature=" << v.sig
      << "\ncase: " << v.desc << "\n" << v.msg << "\nreproduced alone: " << (again.empty() ? "no" : "yes")
      << "\nreplay: " << argv[0] << " --replay " << path << "\n";
    f.close();
    std::cout << "  [" << v.sig << "] " << v.msg << "\n  case: " << v.desc << std::endl;
    std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl;
    ++reported;
  }
  const U64 states = t.stateSet.size() + t.states;
  std::ostringstream e;
  e << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
    << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << states
    << ",\n  \"transitions\": " << t.transitions << ",\n  \"traces_validated_against_impl\": " << t.traces
    << ",\n  \"distinct_outcomes\": " << t.outcomeSet.size() << ",\n  \"cases_enumerated\": " << t.enumerated
    << ",\n  \"exhaustive\": " << ((t.truncated == 0 && t.violations.empty() && !harnessError) ? "true" : "false")
    << ",\n  \"rule\": \"" << jsonEsc(p->rule) << "\"";
  for (auto& k : t.counters) {
    e << ",\n  \"n_" << jsonEsc(k.first) << "\": " << k.second;
  }
  e << ",\n  \"samples\": [";
  for (size_t i = 0; i < t.samples.size() && i < 8; ++i) {
    e << (i != 0 ? ", " : "") << "\"" << jsonEsc(t.samples[i].substr(0, 700)) << "\"";
  }
  e << "]\n },\n \"assumptions\": [";
  for (size_t i = 0; i < p->assumptions.size(); ++i) {
    e << (i != 0 ? ", " : "") << "\"" << jsonEsc(p->assumptions[i]) << "\"";
  }
  e << "],\n \"violations\": " << reported << ",\n \"wall_s\": " << (Ctx::now() - t0) << "\n}\n";
  mkdir((verif + "/evidence").c_str(), 0755);
  std::ofstream(verif + "/evidence/" + prop + ".json") << e.str();
  std::cout << prop << " " << tier << ": cases=" << t.cases << "/" << t.enumerated << " states=" << states
            << " transitions=" << t.transitions << " outcomes=" << t.outcomeSet.size()
            << " truncated=" << t.truncated << " violations=" << t.violations.size() << " wall=" << (Ctx::now() - t0)
            << "s" << std::endl;
  for (auto& k : t.counters) {
    std::cout << "   " << k.first << "=" << k.second << std::endl;
  }
  cleanup();
  if (reported > 0) {
    return 1;
  }
  return harnessError ? 2 : 0;
}

//! calls f(indices) for each vector in {0..radix-1}^len (odometer order, last index fastest)
template <typename F>
void forSequences(int radix, int len, F&& f) {
  std::vector<int> v(size_t(len), 0);
  while (true) {
    f(v);
    int i = len - 1;
    while (i >= 0 && ++v[size_t(i)] == radix) {
      v[size_t(i--)] = 0;
    }
    if (i < 0) {
      return;
    }
  }
}
template <typename It>
std::string join(const It& r, const char* sep = ",") {
  std::ostringstream o;
  bool first = true;
  for (auto& x : r) {
    o << (first ? "" : sep) << x;
    first = false;
  }
  return o.str();
}
}  // namespace mc
