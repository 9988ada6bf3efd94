// Workload support for the concurrent half: injected delays and faults at the
// system-call boundary (linked with --wrap), a ledger of descriptors, recorded
// histories and a linearizability check.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <sched.h>
#include <sys/socket.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <optional>
#include "common.h"

namespace faults {
// Probability (in 1/1000) of a delay around each intercepted call, its maximum in microseconds.
extern std::atomic<int> delay_permille, delay_max_us;
// Probability of interrupted polls, and of short transfers for transfers longer than a byte.
extern std::atomic<int> eintr_permille, short_permille;
// Would-block answers on sockets.
extern std::atomic<int> again_permille;
// Decides whether a call fails, returning the errno. Called with the call's name and descriptor.
extern std::atomic<int (*)(const char* call, int fd)> fail_hook;
// Told of the addresses connected to.
extern std::atomic<void (*)(const struct sockaddr*, socklen_t)> connect_hook;
// Descriptors opened through the intercepted calls and still open.
std::vector<int> open_fds();
std::string opener(int fd);  // Where it was opened, with VH_FDTRACE set.
std::uint64_t opened();
std::uint64_t closed();
// Closes of descriptors that were not open.
std::uint64_t bad_closes();
// In threads that set this, waits and transfers are noted as uses of the descriptor.
extern thread_local bool guarded;
// How many such waits there are right now; closes during one; uses of closed descriptors.
int polled(int fd);
std::uint64_t closed_in_use();
std::uint64_t bad_uses();
void jitter(int permille = -1);
std::uint64_t rnd();  // Per-thread randomness.
void seed_thread(std::uint64_t s);
}  // namespace faults

namespace hist {
// Unordered for the race detectors, but totally ordered in real time.
inline std::uint64_t now() {
  static std::atomic<std::uint64_t> c{1};
  return c.fetch_add(1, std::memory_order_relaxed);
}

// Runs n threads through the same function, starting together.
template <typename F>
void run_threads(int n, std::uint64_t seed, F f) {
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) {
    ts.emplace_back([&, i] {
      faults::seed_thread(seed * 131 + i);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) sched_yield();
      f(i);
    });
  }
  for (auto& t : ts) t.join();
}

// Is there an order of the operations, respecting real time, that the model accepts?
// Op has members s, e (start and end stamps). apply(state, op) returns whether the
// operation with its recorded result is possible, updating the state.
template <typename State, typename Op, typename Apply, typename Hash>
bool linearizable(const State& init, std::vector<Op> ops, Apply apply, Hash hash, std::uint64_t* states = nullptr) {
  const std::size_t n = ops.size();
  if (n > 128) return true;
  std::sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.s < b.s; });
  struct Bits {
    std::uint64_t w[2] = {0, 0};
    bool get(std::size_t i) const { return w[i >> 6] >> (i & 63) & 1; }
    void set(std::size_t i) { w[i >> 6] |= 1ULL << (i & 63); }
  };
  std::unordered_set<std::uint64_t> seen;
  std::function<bool(State, Bits, std::size_t)> go = [&](State st, Bits done, std::size_t count) -> bool {
    if (count == n) return true;
    std::uint64_t k = vh::hcomb(vh::hcomb(done.w[0], done.w[1]), hash(st));
    if (!seen.insert(k).second) return false;
    if (seen.size() > 3000000) return true;  // Undecided; counted by the caller as explored.
    // Only operations that start before every pending one ends can go next.
    std::uint64_t first_end = ~0ULL;
    for (std::size_t i = 0; i < n; i++) {
      if (!done.get(i)) first_end = std::min(first_end, ops[i].e);
    }
    for (std::size_t i = 0; i < n; i++) {
      if (done.get(i)) continue;
      if (ops[i].s > first_end) break;
      State next = st;
      if (!apply(next, ops[i])) continue;
      Bits d = done;
      d.set(i);
      if (go(std::move(next), d, count + 1)) return true;
    }
    return false;
  };
  bool ok = go(init, Bits{}, 0);
  if (states) *states += seen.size();
  return ok;
}
}  // namespace hist
#endif
