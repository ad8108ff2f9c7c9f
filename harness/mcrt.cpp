#include "mcrt.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>

extern "C" char __libc_single_threaded;

namespace {
constexpr int MaxT = 4;
using U64 = std::uint64_t;
using U16 = unsigned short;
using U32 = unsigned;
using U8 = unsigned char;
struct VC {
  U64 c[MaxT]{};
  void join(const VC& o) {
    for (int i = 0; i < MaxT; ++i) c[i] = std::max(c[i], o.c[i]);
  }
};
struct Access {
  U64 clock{0};
  U8 mask{0};
  bool atomic{false};
  void* pc{nullptr};
};
struct Cell {
  U64 gen{0};
  uintptr_t addr{0};
  Access w[MaxT], r[MaxT];
  U8 freed{0};  // bytes that were freed
  int freedBy{-1};
  void* freePc{nullptr};
  int owner{-1};  // thread that allocated it during the run and is, as far as known, alone in using it
  U64 site{0};    // where it was allocated
};
//! open addressing, entries of older generations count as empty
struct Shadow {
  std::vector<Cell> t;
  U64 gen{1};
  size_t fill{0};
  Shadow() : t(1 << 14) {}
  Cell& at(uintptr_t a) {
    if (fill * 2 > t.size()) grow();
    size_t m = t.size() - 1, i = (a * 0x9E3779B97F4A7C15ULL >> 20) & m;
    while (t[i].gen == gen && t[i].addr != a) i = (i + 1) & m;
    if (t[i].gen != gen) {
      t[i] = Cell();
      t[i].gen = gen;
      t[i].addr = a;
      ++fill;
    }
    return t[i];
  }
  Cell* find(uintptr_t a) {
    size_t m = t.size() - 1, i = (a * 0x9E3779B97F4A7C15ULL >> 20) & m;
    while (t[i].gen == gen && t[i].addr != a) i = (i + 1) & m;
    return t[i].gen == gen ? &t[i] : nullptr;
  }
  void forget(uintptr_t a) {
    size_t m = t.size() - 1, i = (a * 0x9E3779B97F4A7C15ULL >> 20) & m;
    while (t[i].gen == gen && t[i].addr != a) i = (i + 1) & m;
    if (t[i].gen == gen) {
      t[i] = Cell();
      t[i].gen = gen;
      t[i].addr = a;
    }
  }
  void grow() {
    std::vector<Cell> o(t.size() * 2);
    std::swap(o, t);
    fill = 0;
    for (auto& c : o) {
      if (c.gen == gen) at(c.addr) = c;
    }
  }
  void clear() {
    ++gen;
    fill = 0;
  }
};
struct Thread {
  pthread_t h{};
  std::atomic<int> go{0};
  std::function<void()> body;
  bool finished{true};
  const void* blockedOn{nullptr};
  VC vc;
  int spurious{0};
};
struct LockState {
  int owner{-1};
  int depth{0};
  int readers{0};
  VC vc;
};
struct Choice {
  int n, taken;
};
struct World {
  Thread th[MaxT];
  int n{0};
  int cur{-1};
  bool active{false};
  mcrt::Options opt;
  mcrt::Stats* stats{nullptr};
  std::vector<Choice> choices;
  size_t pos{0};
  int preempted{0};
  std::string trace;
  std::map<uintptr_t, VC> sync;        // release clocks of atomics, per 4 byte word
  std::map<const void*, LockState> locks;
  Shadow shadow;
  std::map<uintptr_t, size_t> quarantine;  // freed during the run
  mcrt::Report report;
  std::atomic<int> mainGo{0};
  std::set<U64> sharedSites;  // allocations of these places were found to be used by several threads
  bool escaped{false};
};
World& W() {
  static World* w = new World;
  return *w;
}
__thread int tTid = -1;
__thread int tIn = 0;  // inside the runtime
__thread uintptr_t tLo = 0, tHi = 0;

struct In {
  In() { ++tIn; }
  ~In() { --tIn; }
};
bool on() { return tTid >= 0 && tIn == 0 && W().active; }

void fwait(std::atomic<int>& a) {
  for (int i = 0; i < 200; ++i) {
    if (a.load(std::memory_order_acquire) != 0) break;
  }
  while (a.load(std::memory_order_acquire) == 0) {
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  a.store(0, std::memory_order_release);
}
void fwake(std::atomic<int>& a) {
  a.store(1, std::memory_order_release);
  syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
std::string sym(void* pc) {
  if (pc == nullptr) return "?";
  Dl_info d;
  std::ostringstream o;
  if (dladdr(pc, &d) != 0 && d.dli_sname != nullptr) {
    int st = 0;
    char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::string s = st == 0 ? n : d.dli_sname;
    free(n);
    if (s.size() > 160) s = s.substr(0, 160) + "...";
    o << s << "+" << (static_cast<char*>(pc) - static_cast<char*>(d.dli_saddr));
  } else {
    o << pc;
  }
  return o.str();
}
__thread void* tStack[256];
__thread int tDepth = 0;
std::string where(void* pc) {
  std::string s = sym(pc);
  if (tDepth >= 2 && tDepth < 256) s += " called from " + sym(tStack[tDepth - 1]);
  return s;
}
void fail(const std::string& kind, const std::string& what) {
  auto& w = W();
  if (w.report.kind.empty()) {
    w.report.kind = kind;
    w.report.what = what;
    w.report.schedule = w.trace;
  }
}
int choose(int n) {
  auto& w = W();
  if (n <= 1) return 0;
  if (w.pos < w.choices.size()) {
    int k = w.choices[w.pos].taken;
    if (w.choices[w.pos].n != n) {  // the program does not behave the same under the same schedule
      fail("nondeterminism", "the number of alternatives changed under the same schedule");
    }
    ++w.pos;
    return std::min(k, n - 1);
  }
  w.choices.push_back({n, 0});
  ++w.pos;
  return 0;
}
void switchTo(int t) {
  auto& w = W();
  int me = tTid;
  w.cur = t;
  ++w.stats->switches;
  w.trace += char('0' + t);
  const bool goesOn = me >= 0 && !w.th[me].finished;  // nothing of the run may be looked at after the next line
  fwake(w.th[t].go);
  if (goesOn) fwait(w.th[me].go);
}
//! the running thread reached a synchronisation operation (or cannot go on)
void point(bool mayContinue) {
  auto& w = W();
  const int me = tTid;
  ++w.stats->points;
  std::vector<int> en;
  if (mayContinue) en.push_back(me);
  if (!mayContinue || w.preempted < w.opt.preemptions) {
    for (int i = 0; i < w.n; ++i) {
      if (i != me && !w.th[i].finished && w.th[i].blockedOn == nullptr) en.push_back(i);
    }
  }
  if (en.empty()) {
    bool anyBlocked = false;
    for (int i = 0; i < w.n; ++i) anyBlocked |= !w.th[i].finished;
    if (anyBlocked) {
      fail("deadlock", "every unfinished thread waits for a lock");
      // cannot be unwound: report from here
      fprintf(stderr, "deadlock\n");
      _exit(77);
    }
    fwake(w.mainGo);
    return;
  }
  int k = choose(int(en.size()));
  int t = en[size_t(k)];
  if (t == me) return;
  if (mayContinue) ++w.preempted;
  switchTo(t);
}
void acquireFrom(const void* a, size_t n) {
  auto& w = W();
  for (uintptr_t x = uintptr_t(a) & ~3ULL; x < uintptr_t(a) + n; x += 4) {
    auto it = w.sync.find(x);
    if (it != w.sync.end()) w.th[tTid].vc.join(it->second);
  }
}
void releaseTo(const void* a, size_t n, bool rmw, bool rel) {
  auto& w = W();
  for (uintptr_t x = uintptr_t(a) & ~3ULL; x < uintptr_t(a) + n; x += 4) {
    if (!rmw) {
      w.sync[x] = rel ? w.th[tTid].vc : VC();
    } else if (rel) {
      w.sync[x].join(w.th[tTid].vc);
    }
  }
  if (rel) ++w.th[tTid].vc.c[tTid];
}
void access(const void* p, size_t n, bool write, bool atomic, void* pc) {
  auto& w = W();
  ++w.stats->accesses;
  auto& vc = w.th[tTid].vc;
  uintptr_t a = uintptr_t(p), e = a + n;
  while (a < e) {
    uintptr_t word = a & ~7ULL;
    uintptr_t stop = std::min<uintptr_t>(e, word + 8);
    U8 mask = 0;
    for (uintptr_t x = a; x < stop; ++x) mask |= U8(1u << (x - word));
    auto& c = w.shadow.at(word);
    if (c.owner >= 0 && c.owner != tTid) {
      w.sharedSites.insert(c.site);
      w.escaped = true;
    }
    if ((c.freed & mask) != 0) {
      fail("use-after-free", std::string(write ? "write" : "read") + " of freed memory by thread " + std::to_string(tTid) + " in " + where(pc) +
                                 ", freed by thread " + std::to_string(c.freedBy) + " in " + sym(c.freePc));
    }
    for (int t = 0; t < w.n; ++t) {
      if (t == tTid) continue;
      auto conflict = [&](const Access& o, const char* what) {
        if (o.clock != 0 && (o.mask & mask) != 0 && !(o.atomic && atomic) && o.clock > vc.c[t]) {
          fail("race", std::string(write ? "write" : "read") + " by thread " + std::to_string(tTid) + " in " + where(pc) + " races with " +
                           what + " by thread " + std::to_string(t) + " in " + sym(o.pc));
        }
      };
      conflict(c.w[t], "write");
      if (write) conflict(c.r[t], "read");
    }
    auto& mine = write ? c.w[tTid] : c.r[tTid];
    const U64 now = vc.c[tTid];
    if (mine.clock == now && !mine.atomic == !atomic) {
      mine.mask |= mask;
    } else if (!(mine.clock == now && !mine.atomic)) {  // a plain access of the same epoch weighs more
      mine.clock = now;
      mine.mask = mask;
      mine.atomic = atomic;
    }
    mine.pc = pc;
    a = stop;
  }
}
void plain(const void* p, size_t n, bool write, void* pc) {
  if (!on()) return;
  // the thread's own stack: nobody else gets to know it
  if (uintptr_t(p) >= tLo && uintptr_t(p) < tHi) return;
  In in;
  access(p, n, write, false, pc);
}
bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

//! Operations on memory that no other thread uses commute with everything others do: no schedule has to switch there.
//! Whether memory is of that kind is checked at every access; explore() starts again when it turns out not to be.
bool local(const volatile void* p) {
  uintptr_t a = uintptr_t(p);
  if (a >= tLo && a < tHi) return true;
  auto* c = W().shadow.find(a & ~7ULL);
  return c != nullptr && c->owner == tTid;
}
template <typename T>
T aload(const volatile T* a, int mo, void* pc) {
  if (!on()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  In in;
  if (!local(a)) point(true);
  T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  access(const_cast<const T*>(a), sizeof(T), false, true, pc);
  if (isAcq(mo)) acquireFrom(const_cast<const T*>(a), sizeof(T));
  return v;
}
template <typename T>
void astore(volatile T* a, T v, int mo, void* pc) {
  if (!on()) return __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
  In in;
  if (!local(a)) point(true);
  access(const_cast<T*>(a), sizeof(T), true, true, pc);
  releaseTo(const_cast<T*>(a), sizeof(T), false, isRel(mo));
  __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template <typename T, typename F>
T armw(volatile T* a, int mo, void* pc, bool counter, F&& f) {
  if (!on()) {
    T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(a, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
    }
    return old;
  }
  In in;
  if ((!counter || W().opt.pointsAtRmw) && !local(a)) point(true);
  T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  access(const_cast<T*>(a), sizeof(T), true, true, pc);
  if (isAcq(mo)) acquireFrom(const_cast<T*>(a), sizeof(T));
  releaseTo(const_cast<T*>(a), sizeof(T), true, isRel(mo));
  __atomic_store_n(a, f(old), __ATOMIC_SEQ_CST);
  return old;
}
template <typename T>
bool acas(volatile T* a, T* exp, T v, int mo, int fmo, void* pc, bool weak) {
  if (!on()) return __atomic_compare_exchange_n(a, exp, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  In in;
  if (!local(a)) point(true);
  T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  bool ok = old == *exp;
  auto& me = W().th[tTid];
  if (ok && weak && W().opt.spuriousCas && me.spurious == 0 && choose(2) == 1) {
    ++me.spurious;
    W().trace += "s";
    ok = false;
  }
  access(const_cast<T*>(a), sizeof(T), ok, true, pc);
  if (isAcq(ok ? mo : fmo)) acquireFrom(const_cast<T*>(a), sizeof(T));
  if (ok) {
    releaseTo(const_cast<T*>(a), sizeof(T), true, isRel(mo));
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
  } else {
    *exp = old;
  }
  return ok;
}

void lockAcquire(const void* l, bool shared, bool recursive = false) {
  In in;
  auto& w = W();
  point(true);
  auto& s = w.locks[l];
  while (shared ? s.owner != -1 : (s.owner != -1 || s.readers != 0)) {
    if (recursive && s.owner == tTid) break;
    w.th[tTid].blockedOn = l;
    point(false);
  }
  if (shared) {
    ++s.readers;
  } else {
    s.owner = tTid;
    ++s.depth;
  }
  w.th[tTid].vc.join(s.vc);
}
void lockRelease(const void* l) {
  In in;
  auto& w = W();
  auto& s = w.locks[l];
  s.vc.join(w.th[tTid].vc);
  ++w.th[tTid].vc.c[tTid];
  if (s.owner == tTid) {
    if (--s.depth == 0) s.owner = -1;
  } else if (s.readers > 0) {
    --s.readers;
  }
  for (int i = 0; i < w.n; ++i) {
    if (w.th[i].blockedOn == l) w.th[i].blockedOn = nullptr;
  }
  point(true);
}
void* worker(void* arg) {
  const int id = int(reinterpret_cast<intptr_t>(arg));
  ++tIn;
  tTid = -1;
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void* lo = nullptr;
  size_t sz = 0;
  pthread_attr_getstack(&at, &lo, &sz);
  tLo = uintptr_t(lo);
  tHi = tLo + sz;
  auto& w = W();
  while (true) {
    fwait(w.th[id].go);
    tTid = id;
    --tIn;
    try {
      w.th[id].body();
    } catch (const std::exception& e) {
      ++tIn;
      fail("exception", std::string("thread ") + std::to_string(id) + ": " + e.what());
      --tIn;
    } catch (...) {
      ++tIn;
      fail("exception", std::string("thread ") + std::to_string(id) + " ended with an exception");
      --tIn;
    }
    ++tIn;
    w.th[id].finished = true;
    tDepth = 0;
    point(false);
    tTid = -1;
  }
  return nullptr;
}
}  // namespace

namespace mcrt {
U64 tick() {
  static U64 n = 0;
  return ++n;
}
Report explore(const Program& p, const Options& o, Stats& s, const std::function<void()>& progress) {
  auto& w = W();
  __libc_single_threaded = 0;
  w.opt = o;
  w.stats = &s;
  w.choices.clear();
  w.report = Report();
  w.sharedSites.clear();
  w.escaped = false;
  static bool started = [] {
    for (int i = 0; i < MaxT; ++i) {
      pthread_attr_t a;
      pthread_attr_init(&a);
      pthread_attr_setstacksize(&a, 8 << 20);
      pthread_create(&W().th[i].h, &a, worker, reinterpret_cast<void*>(intptr_t(i)));
    }
    return true;
  }();
  (void)started;
  while (true) {
    auto bodies = p.make();
    w.n = int(bodies.size());
    w.pos = 0;
    w.preempted = 0;
    w.trace.clear();
    w.sync.clear();
    w.locks.clear();
    w.shadow.clear();
    for (int i = 0; i < w.n; ++i) {
      auto& t = w.th[i];
      t.body = std::move(bodies[size_t(i)]);
      t.finished = false;
      t.blockedOn = nullptr;
      t.vc = VC();
      t.vc.c[i] = 1;
      t.spurious = 0;
    }
    w.active = true;
    {
      In in;
      int first = choose(w.n);
      w.trace += char('0' + first);
      w.cur = first;
      fwake(w.th[first].go);
      fwait(w.mainGo);
    }
    w.active = false;
    ++s.schedules;
    const bool again = w.escaped;
    w.escaped = false;
    {
      auto q = std::move(w.quarantine);
      w.quarantine.clear();
      for (auto& x : q) free(reinterpret_cast<void*>(x.first));
    }
    if (w.report.kind.empty()) {
      auto what = p.check();
      if (!what.empty()) {
        w.report.kind = "check";
        w.report.what = what;
        w.report.schedule = w.trace;
      }
    }
    for (int i = 0; i < w.n; ++i) w.th[i].body = nullptr;
    if (again && w.report.kind.empty()) {
      w.choices.clear();
      continue;
    }
    if (!w.report.kind.empty()) return w.report;
    while (!w.choices.empty() && w.choices.back().taken + 1 >= w.choices.back().n) w.choices.pop_back();
    if (w.choices.empty()) return w.report;
    ++w.choices.back().taken;
    if (s.schedules >= o.maxSchedules) {
      s.truncated = true;
      return w.report;
    }
    if ((s.schedules & 63) == 0) progress();
  }
}
}  // namespace mcrt

// ---------------------------------------------------------------- memory
void* operator new(size_t n) {
  void* p = malloc(n);
  if (p == nullptr) throw std::bad_alloc();
  if (on()) {  // what happened to the memory in an earlier life does not matter
    In in;
    auto& w = W();
    U64 site = uintptr_t(__builtin_return_address(0));
    for (int d = tDepth - 1; d >= 0 && d > tDepth - 6; --d) {
      if (d < 256) site = site * 0x9E3779B97F4A7C15ULL + uintptr_t(tStack[d]);
    }
    const int owner = w.sharedSites.count(site) != 0 ? -1 : tTid;
    for (uintptr_t a = uintptr_t(p); a < uintptr_t(p) + n; a += 8) {
      w.shadow.forget(a & ~7ULL);
      auto& c = w.shadow.at(a & ~7ULL);
      c.owner = owner;
      c.site = site;
    }
  }
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new(size_t n, std::align_val_t a) {
  void* p = aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a));
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
static void release(void* p, void* pc) {
  if (p == nullptr) return;
  if (tTid < 0 || tIn != 0 || !W().active) {
    free(p);
    return;
  }
  In in;
  auto& w = W();
  size_t n = malloc_usable_size(p);
  if (!w.quarantine.emplace(uintptr_t(p), n).second) {
    fail("double-free", "memory is freed twice, second time by thread " + std::to_string(tTid) + " in " + where(pc));
    return;
  }
  access(p, n, true, false, pc);
  for (uintptr_t a = uintptr_t(p); a < uintptr_t(p) + n; a += 8) {
    auto& c = w.shadow.at(a & ~7ULL);
    c.freed = 0xff;
    c.freedBy = tTid;
    c.freePc = pc;
  }
}
void operator delete(void* p) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { release(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete(void* p, std::align_val_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p, __builtin_return_address(0)); }

// ---------------------------------------------------------------- locks used by the library and libstdc++
// libstdc++ keeps a pool of mutexes selected by address. One mutex for all would order accesses that the pool leaves
// unordered, therefore every address has its own here (see splock.cpp).
bool mcrtSpAcquire(const void* p) {
  if (!on()) return false;
  lockAcquire(p, false);
  return true;
}
void mcrtSpRelease(const void* p) { lockRelease(p); }

extern "C" {
#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) {
    static auto r = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    return r(m);
  }
  lockAcquire(m, false, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) {
    static auto r = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
    return r(m);
  }
  {
    In in;
    point(true);
    auto& s = W().locks[m];
    if (s.owner != -1) return 16;
  }
  lockAcquire(m, false);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) {
    static auto r = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    return r(m);
  }
  lockRelease(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!on()) {
    static auto r = reinterpret_cast<int (*)(pthread_rwlock_t*)>(dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"));
    return r(m);
  }
  lockAcquire(m, true);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!on()) {
    static auto r = reinterpret_cast<int (*)(pthread_rwlock_t*)>(dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"));
    return r(m);
  }
  lockAcquire(m, false);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!on()) {
    static auto r = reinterpret_cast<int (*)(pthread_rwlock_t*)>(dlsym(RTLD_NEXT, "pthread_rwlock_unlock"));
    return r(m);
  }
  lockRelease(m);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!on()) {
    static auto r = reinterpret_cast<int (*)(pthread_once_t*, void (*)())>(dlsym(RTLD_NEXT, "pthread_once"));
    return r(o, f);
  }
  lockAcquire(o, false);
  if (*o == 0) {
    f();
    *o = 2;  // what glibc writes when done
  }
  lockRelease(o);
  return 0;
}
// initialisation of function local statics
int __cxa_guard_acquire(long long* g) {
  auto* b = reinterpret_cast<volatile char*>(g);
  if (!on()) return *b != 0 ? 0 : 1;
  lockAcquire(g, false);
  if (*b != 0) {
    lockRelease(g);
    return 0;
  }
  return 1;
}
void __cxa_guard_release(long long* g) {
  *reinterpret_cast<volatile char*>(g) = 1;
  if (on()) {
    {
      In in;
      releaseTo(g, 1, false, true);
    }
    lockRelease(g);
  }
}
void __cxa_guard_abort(long long* g) {
  if (on()) lockRelease(g);
}

// ---------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if (tDepth >= 0 && tDepth < 256) tStack[tDepth] = pc;
  ++tDepth;
}
void __tsan_func_exit() { --tDepth; }
#define RW(N)                                                                      \
  void __tsan_read##N(void* p) { plain(p, N, false, PC); }                         \
  void __tsan_write##N(void* p) { plain(p, N, true, PC); }                         \
  void __tsan_unaligned_read##N(void* p) { plain(p, N, false, PC); }               \
  void __tsan_unaligned_write##N(void* p) { plain(p, N, true, PC); }               \
  void __tsan_volatile_read##N(void* p) { plain(p, N, false, PC); }                \
  void __tsan_volatile_write##N(void* p) { plain(p, N, true, PC); }                \
  void __tsan_read_write##N(void* p) { plain(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { plain(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { plain(p, n, true, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) plain(p, 8, true, PC);
}
void __tsan_atomic_thread_fence(int) {
  if (on()) {
    In in;
    point(true);
  }
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T)                                                                                                     \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) { return aload<T>(a, mo, PC); }                             \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { astore<T>(a, v, mo, PC); }                             \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return armw<T>(a, mo, PC, false, [v](T) { return v; }); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return armw<T>(a, mo, PC, true, [v](T o) { return T(o + v); }); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return armw<T>(a, mo, PC, true, [v](T o) { return T(o - v); }); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return armw<T>(a, mo, PC, false, [v](T o) { return T(o & v); }); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return armw<T>(a, mo, PC, false, [v](T o) { return T(o | v); }); }  \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return armw<T>(a, mo, PC, false, [v](T o) { return T(o ^ v); }); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return armw<T>(a, mo, PC, false, [v](T o) { return T(~(o & v)); }); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) { return acas<T>(a, c, v, mo, f, PC, false); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { return acas<T>(a, c, v, mo, f, PC, true); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) {                                \
    acas<T>(a, &c, v, mo, f, PC, false);                                                                             \
    return c;                                                                                                        \
  }
AT(8, U8) AT(16, U16) AT(32, U32) AT(64, U64)
}
