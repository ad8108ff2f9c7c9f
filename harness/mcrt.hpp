// Controlled scheduler for code compiled with -fsanitize=thread (without the sanitizer's own runtime).
// Threads run one at a time; explore() enumerates every schedule at synchronisation operations up to a preemption
// bound. All memory accesses go through a vector clock race detector, freed memory stays poisoned until the run ends.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mcrt {
struct Options {
  int preemptions{2};
  bool pointsAtRmw{false};       //!< also switch at fetch_add & co (reference counts otherwise drown everything)
  bool spuriousCas{true};        //!< compare_exchange_weak may fail once per thread without reason
  std::uint64_t maxSchedules{2000000};
};
struct Stats {
  std::uint64_t schedules{0}, points{0}, accesses{0}, switches{0};
  bool truncated{false};
};
//! one execution: bodies are created anew for every schedule by make(); check() runs after all threads ended and
//! returns an empty string or what is wrong
struct Program {
  std::function<std::vector<std::function<void()>>()> make;
  std::function<std::string()> check;
};
struct Report {
  std::string kind;      //!< empty, race, use-after-free, deadlock, exception, check
  std::string what;
  std::string schedule;  //!< choices that lead there
};
//! a number that grows with every call, in the order the threads really run
std::uint64_t tick();
Report explore(const Program& p, const Options& o, Stats& s, const std::function<void()>& progress);
}  // namespace mcrt
