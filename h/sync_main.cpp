// A01 flags, A02 mutexes, A03 queues and semaphores.
#include "conc.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/semaphore.h"
#include "arpc/wait.h"

using namespace std::chrono_literals;
namespace {
bool tsan =
#ifdef __SANITIZE_THREAD__
    true;
#else
    false;
#endif

void set_noise(vh::Rng& r) {
  faults::delay_permille = r.chance(1, 4) ? 0 : static_cast<int>(r.below(300));
  faults::delay_max_us = r.chance(1, 8) ? 1500 : 150;
  faults::eintr_permille = r.chance(1, 3) ? static_cast<int>(r.below(200)) : 0;
}
void no_noise() { faults::delay_permille = 0; faults::eintr_permille = 0; }

// Contexts of running operations, for a thread that cancels them at random.
struct Slot {
  std::mutex mu;
  arpc::context* ctx = nullptr;
};
struct Slots {
  std::array<Slot, 8> s;
  void cancel_one() {
    auto& x = s[faults::rnd() % s.size()];
    std::scoped_lock l(x.mu);
    if (x.ctx) x.ctx->cancel();
  }
};
// Runs f in a context that may be cancelled or expire at any time; false if it ended that way.
template <typename F>
bool bounded(Slots& slots, int who, int timeout_us, F f) {
  arpc::context ctx;
  if (timeout_us >= 0) ctx.set_deadline(std::chrono::floor<std::chrono::milliseconds>(std::chrono::system_clock::now() + std::chrono::microseconds(timeout_us)));
  { std::scoped_lock l(slots.s[who].mu); slots.s[who].ctx = &ctx; }
  struct Clear {
    Slot& s;
    ~Clear() { std::scoped_lock l(s.mu); s.ctx = nullptr; }
  } clear{slots.s[who]};
  try {
    f();
    return true;
  } catch (const arpc::errors::cancelled&) {
    return false;
  } catch (const arpc::errors::deadline_exceeded&) {
    return false;
  }
}
// In what kind of context an operation that must always work is called.
template <typename F>
void anywhere(F f) {
  switch (faults::rnd() % 4) {
    case 0: { arpc::context c; c.cancel(); f(); break; }
    case 1: { arpc::context c; c.set_timeout(-5ms); f(); break; }
    default: f();
  }
}
template <typename Op>
std::string show_history(const std::vector<Op>& h, const char* const* names) {
  auto s = h;
  std::sort(s.begin(), s.end(), [](const Op& a, const Op& b) { return a.s < b.s; });
  std::string r;
  for (auto& o : s) r += "[" + std::to_string(o.s) + "-" + std::to_string(o.e) + "] t" + std::to_string(o.who) + " " + names[o.kind] + " " + std::to_string(o.arg) + "\n";
  return r;
}
template <typename Op>
std::uint64_t hash_history(const std::vector<Op>& h) {
  // The order of starts and ends, independent of absolute stamps.
  std::vector<std::pair<std::uint64_t, std::uint64_t>> ev;
  for (auto& o : h) {
    std::uint64_t id = vh::hcomb(vh::hcomb(o.who, o.kind), o.arg);
    ev.push_back({o.s, id});
    ev.push_back({o.e, id + 1});
  }
  std::sort(ev.begin(), ev.end());
  std::uint64_t r = 7;
  for (auto& e : ev) r = vh::hcomb(r, e.second);
  return r;
}

// ---------------------------------------------------------------- A01
enum FlagOp { f_set, f_reset, f_true, f_false, f_waited };
const char* const flag_names[] = {"set", "reset", "is_set -> true", "is_set -> false", "wait returned"};
struct FOp { std::uint64_t s, e; int kind, arg, who; };

void flag_round(vh::Rng& r, int round) {
  constexpr int nf = 2;
  std::array<arpc::flag, nf> flags;
  const int threads = 2 + static_cast<int>(r.below(4)), per = 3 + static_cast<int>(r.below(8));
  const bool cancels = r.chance(1, 2);
  Slots slots;
  std::vector<std::vector<FOp>> hs(threads + 1);
  std::atomic<int> left{threads};
  std::uint64_t seed = r.next();
  std::array<std::array<int, 3>, nf> payload{};
  hist::run_threads(threads + 1, seed, [&](int who) {
    vh::Rng q(seed + who);
    auto& h = hs[who];
    auto rec = [&](int f, std::uint64_t s, int kind) { h.push_back({s, hist::now(), kind, f, who}); };
    if (who == threads) {
      // Ends everything: cancels at random, then sets all flags until nobody waits any more.
      while (left.load(std::memory_order_relaxed) > 0) {
        if (cancels) slots.cancel_one();
        else sched_yield();
        faults::jitter(500);
      }
      return;
    }
    for (int i = 0; i < per; i++) {
      int f = static_cast<int>(q.below(nf));
      auto& fl = flags[f];
      auto s = hist::now();
      switch (q.below(9)) {
        case 0: case 1: anywhere([&] { s = hist::now(); fl.set(); rec(f, s, f_set); }); break;
        case 2: case 3: anywhere([&] { s = hist::now(); fl.reset(); rec(f, s, f_reset); }); break;
        case 4: anywhere([&] { s = hist::now(); bool b = fl.is_set(); rec(f, s, b ? f_true : f_false); }); break;
        case 5: { bool b = static_cast<bool>(fl); rec(f, s, b ? f_true : f_false); break; }
        case 6: {
          auto [x, y] = arpc::select(fl.async_wait(), arpc::always());
          rec(f, s, x ? f_true : f_false);
          VH_CHECK(static_cast<bool>(y), "A01:always-not-ready", "");
          break;
        }
        case 7: {
          if (bounded(slots, who, static_cast<int>(q.below(1500)), [&] { fl.wait(); })) rec(f, s, f_waited);
          break;
        }
        case 8: {
          // Both flags at once.
          auto& other = flags[1 - f];
          bounded(slots, who, static_cast<int>(q.below(1500)), [&] {
            s = hist::now();
            auto [x, y] = arpc::select(fl.async_wait(), other.async_wait());
            if (x) rec(f, s, f_waited);
            if (y) rec(1 - f, s, f_waited);
            VH_CHECK(x || y, "A01:select-without-result", "");
          });
          break;
        }
      }
      faults::jitter(200);
    }
    left.fetch_sub(1, std::memory_order_relaxed);
  });
  for (int f = 0; f < nf; f++) {
    std::vector<FOp> h;
    for (auto& x : hs) for (auto& o : x) if (o.arg == f) h.push_back(o);
    // The state at the end, read without concurrency.
    auto s = hist::now();
    bool b = flags[f].is_set();
    h.push_back({s, hist::now(), b ? f_true : f_false, f, 99});
    s = hist::now();
    auto [x, y] = arpc::select(flags[f].async_wait(), arpc::always());
    h.push_back({s, hist::now(), x ? f_true : f_false, f, 99});
    std::uint64_t states = 0;
    bool ok = hist::linearizable<bool>(false, h, [](bool& st, const FOp& o) {
      switch (o.kind) {
        case f_set: st = true; return true;
        case f_reset: st = false; return true;
        case f_false: return !st;
        default: return st;
      }
    }, [](bool st) { return st ? 1u : 2u; }, &states);
    vh::stat("flag histories");
    vh::stat("flag operations", h.size());
    vh::stat("flag states explored", states);
    for (auto& o : h) vh::stat(std::string("flag ") + flag_names[o.kind]);
    VH_CHECK(ok, "A01:history", "no order of these operations on one flag explains the results:\n" + show_history(h, flag_names));
    vh::eval(hash_history(h), h.size() > 4);
    if (round < 2) vh::sample(show_history(h, flag_names));
  }
}

// Waiters in every form wake when the flag is set and stays so; data written before is visible.
void flag_wake_round(vh::Rng& r) {
  arpc::flag fl, other;
  const int waiters = 1 + static_cast<int>(r.below(12)), setters = 1 + static_cast<int>(r.below(3));
  std::uint64_t seed = r.next();
  std::array<int, 4> data{};
  std::atomic<int> woken{0}, started{0};
  const bool blink = r.chance(1, 2);
  hist::run_threads(waiters + setters, seed, [&](int who) {
    vh::Rng q(seed + who);
    if (who < waiters) {
      started.fetch_add(1, std::memory_order_relaxed);
      switch (q.below(4)) {
        case 0: fl.wait(); break;
        case 1: { auto [x, y] = arpc::select(fl.async_wait(), other.async_wait()); VH_CHECK(x && !y, "A01:wrong-wakeup", ""); break; }
        case 2: arpc::wait(fl.async_wait()); break;
        case 3: {
          std::vector<arpc::awaitable<void>> v;
          for (int i = 0; i < 3; i++) v.push_back(i == 1 ? fl.async_wait() : other.async_wait());
          auto [res] = arpc::select(v);
          VH_CHECK(!res[0] && res[1] && !res[2], "A01:wrong-wakeup", "");
          break;
        }
      }
      // Read without further synchronisation: with one setter, what it wrote must be there.
      if (setters == 1) VH_CHECK(data[0] == 41, "A01:stale-data", "data written before the set was not visible after the wait");
      woken.fetch_add(1, std::memory_order_relaxed);
    } else {
      if (q.chance(1, 2)) while (started.load(std::memory_order_relaxed) < waiters) sched_yield();
      if (setters == 1) data[0] = 41;
      if (blink && setters > 1) {
        // Waiters may or may not get through the blinking; the last set stays.
        for (int i = 0; i < 20; i++) { anywhere([&] { fl.set(); }); faults::jitter(300); anywhere([&] { fl.reset(); }); faults::jitter(300); }
      }
      if (setters == 1 && blink) { for (int i = 0; i < 5; i++) { fl.reset(); faults::jitter(300); } }
      // The other setters may still be resetting: repeat until everybody is through.
      do {
        anywhere([&] { fl.set(); });
        if (setters == 1) break;
        sched_yield();
      } while (woken.load(std::memory_order_relaxed) < waiters);
    }
  });
  VH_CHECK(woken.load() == waiters, "A01:lost-wakeup", "");
  vh::stat("flag waiters woken", waiters);
  vh::eval(vh::hcomb(vh::hcomb(waiters, setters), r.s), true);
}

void flag_idempotent(vh::Rng& r) {
  arpc::flag fl;
  for (int k = 0; k < 3; k++) {
    const int n = 70000 + static_cast<int>(r.below(1000));  // More than fits in a pipe.
    for (int i = 0; i < n; i++) { fl.set(); if (i % 1000 == 0) vh::tick(); }
    fl.wait();
    fl.wait();
    VH_CHECK(fl.is_set(), "A01:idempotent-set", "not set after many sets");
    fl.reset();
    VH_CHECK(!fl.is_set(), "A01:idempotent-set", "one reset did not clear the flag after many sets");
    { auto [x, y] = arpc::select(fl.async_wait(), arpc::timeout(2ms)); VH_CHECK(!x && y, "A01:wait-on-reset-flag", "a wait on a flag that was reset completed"); }
    for (int i = 0; i < n; i++) { fl.reset(); if (i % 1000 == 0) vh::tick(); }
    VH_CHECK(!fl.is_set(), "A01:idempotent-reset", "");
    fl.set();
    { auto [x, y] = arpc::select(fl.async_wait(), arpc::always()); VH_CHECK(x && y, "A01:idempotent-reset", "a single set after many resets did not complete a wait"); }
    fl.reset();
    vh::stat("flag idempotence loops");
  }
  vh::eval(991, true);
}

// ---------------------------------------------------------------- A02
enum MutexOp { m_lock, m_unlock, m_tryfail };
const char* const mutex_names[] = {"lock", "unlock", "try_lock -> false"};

void mutex_round(vh::Rng& r, int round) {
  const int threads = 2 + static_cast<int>(r.below(4));
  const int per = round % 5 == 0 ? (tsan ? 60 : 150) : 5;  // Short ones are checked as histories.
  const bool cancels = r.chance(1, 2);
  arpc::mutex mu, second;
  arpc::flag never_set;
  Slots slots;
  std::vector<std::vector<FOp>> hs(threads + 1);
  std::atomic<int> left{threads}, inside{0}, inside2{0};
  std::uint64_t counter = 0, counter2 = 0;
  std::string blob = "x";
  std::vector<std::uint64_t> acquired(threads, 0), acquired2(threads, 0), ended(threads, 0);
  std::uint64_t seed = r.next();
  hist::run_threads(threads + 1, seed, [&](int who) {
    if (who == threads) {
      while (left.load(std::memory_order_relaxed) > 0) {
        if (cancels) slots.cancel_one();
        else sched_yield();
        faults::jitter(600);
      }
      return;
    }
    vh::Rng q(seed + who);
    auto& h = hs[who];
    auto rec = [&](std::uint64_t s, int kind) { h.push_back({s, hist::now(), kind, 0, who}); };
    auto critical = [&] {
      int was = inside.fetch_add(1, std::memory_order_relaxed);
      VH_CHECK(was == 0, "A02:two-holders", std::to_string(was + 1) + " threads inside the mutex");
      counter++;
      if (counter % 3 == 0) blob += static_cast<char>('a' + who);
      if (blob.size() > 40) blob = "y";
      faults::jitter(200);
      acquired[who]++;
      inside.fetch_sub(1, std::memory_order_relaxed);
    };
    auto critical2 = [&] {
      int was = inside2.fetch_add(1, std::memory_order_relaxed);
      VH_CHECK(was == 0, "A02:two-holders", "second mutex");
      counter2++;
      acquired2[who]++;
      inside2.fetch_sub(1, std::memory_order_relaxed);
    };
    auto unlock = [&] { anywhere([&] { auto s = hist::now(); mu.unlock(); rec(s, m_unlock); }); };
    for (int i = 0; i < per; i++) {
      auto s = hist::now();
      const int limit = q.chance(1, 2) ? -1 : static_cast<int>(q.below(1200));
      switch (q.below(7)) {
        case 0:
          mu.lock();
          rec(s, m_lock); critical(); unlock();
          break;
        case 1: {
          bool b = false;
          anywhere([&] { s = hist::now(); b = mu.try_lock(); rec(s, b ? m_lock : m_tryfail); });
          if (b) { critical(); unlock(); }
          break;
        }
        case 2:
          try {
            mu.maybe_lock();
            rec(s, m_lock);
          } catch (const arpc::errors::try_again&) {
            rec(s, m_tryfail);
            break;
          }
          critical(); unlock();
          break;
        case 3:
          if (bounded(slots, who, limit, [&] { mu.lock(); })) { rec(s, m_lock); critical(); unlock(); }
          else ended[who]++;
          break;
        case 4: {
          auto [x] = arpc::select(mu.async_lock());
          VH_CHECK(x.has_value(), "A02:select-without-result", "");
          if (x) { *x; rec(s, m_lock); critical(); unlock(); }
          break;
        }
        case 5: {
          bool got = false, got2 = false;
          bool done = bounded(slots, who, limit, [&] {
            auto [a, b, c] = arpc::select(never_set.async_wait(), mu.async_lock(), second.async_lock());
            got = b.has_value();
            got2 = c.has_value();
            VH_CHECK(!a, "A02:select", "a flag that was never set");
          });
          if (!done) ended[who]++;
          if (got) { rec(s, m_lock); critical(); unlock(); }
          if (got2) { critical2(); second.unlock(); }
          break;
        }
        case 6: {
          auto [a, b] = arpc::select(mu.async_lock(), arpc::timeout(std::chrono::milliseconds(q.below(2))));
          VH_CHECK(a || b, "A02:select-without-result", "");
          if (a) { rec(s, m_lock); critical(); unlock(); }
          break;
        }
      }
      faults::jitter(200);
      if (per > 20) vh::tick();
    }
    left.fetch_sub(1, std::memory_order_relaxed);
  });
  std::uint64_t sum = 0, sum2 = 0, gone = 0;
  for (int i = 0; i < threads; i++) { sum += acquired[i]; sum2 += acquired2[i]; gone += ended[i]; }
  VH_CHECK(sum == counter && sum2 == counter2, "A02:lost-update", std::to_string(sum) + " sections, counter " + std::to_string(counter));
  bool free_now = mu.try_lock();
  VH_CHECK(free_now, "A02:not-free", "the mutex is not free after everybody unlocked it");
  VH_CHECK(!mu.try_lock(), "A02:locked-twice", "a locked mutex was locked again: a failed attempt left a token behind");
  if (free_now) { arpc::context c; c.cancel(); mu.unlock(); }
  { bool b = mu.try_lock(); VH_CHECK(b, "A02:unlock-in-cancelled", ""); VH_CHECK(!mu.try_lock(), "A02:locked-twice", ""); }
  vh::stat("mutex acquisitions", sum + sum2);
  vh::stat("mutex attempts cancelled or expired", gone);
  std::vector<FOp> h;
  for (auto& x : hs) for (auto& o : x) { h.push_back(o); vh::stat(std::string("mutex ") + mutex_names[o.kind]); }
  if (h.size() <= 64) {
    std::uint64_t states = 0;
    bool ok = hist::linearizable<bool>(false, h, [](bool& st, const FOp& o) {
      if (o.kind == m_lock) { if (st) return false; st = true; return true; }
      if (o.kind == m_unlock) { if (!st) return false; st = false; return true; }
      return st;
    }, [](bool st) { return st ? 1u : 2u; }, &states);
    vh::stat("mutex histories");
    vh::stat("mutex states explored", states);
    VH_CHECK(ok, "A02:history", "no order of these operations explains the results:\n" + show_history(h, mutex_names));
    if (round < 3) vh::sample(show_history(h, mutex_names));
  }
  vh::eval(hash_history(h), h.size() > 3);
}

// ---------------------------------------------------------------- A03
enum QueueOp { q_put, q_get, q_full, q_notfull, q_empty, q_notempty, q_size };
const char* const queue_names[] = {"put", "get", "saw full", "saw not full", "saw empty", "saw not empty", "saw size"};

template <typename T>
struct Item;
template <> struct Item<int> { static int make(int x) { return x; } static int id(const int& x) { return x; } };
template <> struct Item<std::string> {
  static std::string make(int x) { return "an item that does not fit inline " + std::to_string(x); }
  static int id(const std::string& s) { return s.size() > 33 ? std::atoi(s.c_str() + 33) : -1; }
};
template <> struct Item<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(int x) { return std::make_unique<int>(x); }
  static int id(const std::unique_ptr<int>& p) { return p ? *p : -1; }
};
struct Counted {
  static inline std::atomic<int> live{0};
  int v = -1;
  Counted() { live++; }
  explicit Counted(int x) : v(x) { live++; }
  Counted(const Counted& o) : v(o.v) { live++; }
  Counted(Counted&& o) noexcept : v(o.v) { o.v = -2; live++; }
  Counted& operator=(const Counted&) = default;
  Counted& operator=(Counted&& o) noexcept { v = o.v; if (&o != this) o.v = -2; return *this; }
  ~Counted() { live--; v = -3; }
};
template <> struct Item<Counted> { static Counted make(int x) { return Counted(x); } static int id(const Counted& c) { return c.v; } };

// One interface for queues and semaphores (whose items are anonymous).
template <typename T>
struct Q {
  arpc::queue<T> q;
  explicit Q(std::size_t n) : q(n) {}
  void put(int x) {
    if (faults::rnd() % 2) q.put(Item<T>::make(x));
    else if constexpr (std::is_copy_constructible_v<T>) { T v = Item<T>::make(x); q.put(v); VH_CHECK(Item<T>::id(v) == x, "A03:source-changed", ""); }
    else { T v = Item<T>::make(x); q.put(std::move(v)); }
  }
  bool maybe_put(int x) {
    T v = Item<T>::make(x);
    try {
      q.maybe_put(std::move(v));
      return true;
    } catch (const arpc::errors::try_again&) {
      VH_CHECK(Item<T>::id(v) == x, "A03:failed-put-consumed", "a put refused by a full queue consumed its argument");
      return false;
    }
  }
  int get() { return Item<T>::id(q.get()); }
  int maybe_get() { return Item<T>::id(q.maybe_get()); }
  auto async_put(int x) { return q.async_put(Item<T>::make(x)); }
  auto async_get() { return q.async_get().then([](T v) { return Item<T>::id(v); }); }
};
template <>
struct Q<void> {
  arpc::semaphore q;
  explicit Q(std::size_t n) : q(n) {}
  void put(int) { q.put(); }
  bool maybe_put(int) {
    try { q.maybe_put(); return true; } catch (const arpc::errors::try_again&) { return false; }
  }
  int get() { q.get(); return 0; }
  int maybe_get() { q.maybe_get(); return 0; }
  auto async_put(int) { return q.async_put(); }
  auto async_get() { return q.async_get().then([] { return 0; }); }
};

template <typename T>
void queue_round(vh::Rng& r, int round, const char* type) {
  constexpr bool sem = std::is_same_v<T, void>;
  std::size_t caps[] = {1, 1, 2, 3, 5, sem ? 8 : std::numeric_limits<std::size_t>::max()};
  const std::size_t cap = caps[r.below(6)];
  const bool lng = round % 4 == 0;
  const int threads = 2 + static_cast<int>(r.below(4)), per = lng ? (tsan ? 60 : 150) : 4 + static_cast<int>(r.below(6));
  const bool cancels = r.chance(1, 2);
  Q<T> q(cap);
  arpc::flag never_set;
  Slots slots;
  std::vector<std::vector<FOp>> hs(threads + 1);
  std::atomic<int> left{threads}, level{0};
  std::uint64_t seed = r.next();
  std::atomic<std::uint64_t> cancelled{0};
  vh::mark(std::string("queue<") + type + "> capacity " + std::to_string(cap) + " threads " + std::to_string(threads));
  hist::run_threads(threads + 1, seed, [&](int who) {
    if (who == threads) {
      while (left.load(std::memory_order_relaxed) > 0) {
        if (cancels) slots.cancel_one();
        else sched_yield();
        faults::jitter(600);
      }
      return;
    }
    vh::Rng p(seed + who);
    auto& h = hs[who];
    int next = who * 10000;
    auto rec = [&](std::uint64_t s, int kind, int arg) { h.push_back({s, hist::now(), kind, arg, who}); };
    for (int i = 0; i < per; i++) {
      auto s = hist::now();
      const int limit = static_cast<int>(p.below(1500));
      const int x = sem ? 0 : next++;
      switch (p.below(12)) {
        case 0: case 1: if (q.maybe_put(x)) rec(s, q_put, x); else rec(s, q_full, 0); break;
        case 2: try { int v = q.maybe_get(); rec(s, q_get, v); } catch (const arpc::errors::try_again&) { rec(s, q_empty, 0); } break;
        case 3: case 4: if (bounded(slots, who, limit, [&] { q.put(x); })) rec(s, q_put, x); else cancelled.fetch_add(1, std::memory_order_relaxed); break;
        case 5: case 6: { int v = 0; if (bounded(slots, who, limit, [&] { v = q.get(); })) rec(s, q_get, v); else cancelled.fetch_add(1, std::memory_order_relaxed); break; }
        case 7: { auto n = q.q.size(); rec(s, q_size, static_cast<int>(n)); break; }
        case 8: if (q.q.empty()) rec(s, q_empty, 0); else rec(s, q_notempty, 0); break;
        case 9: if (q.q.full()) rec(s, q_full, 0); else rec(s, q_notfull, 0); break;
        case 10: {
          // Put and get in one select: both reactions that ran must show up as results.
          bool ok = bounded(slots, who, limit, [&] {
            s = hist::now();
            auto [a, b, c] = arpc::select(never_set.async_wait(), q.async_put(x), q.async_get());
            VH_CHECK(!a && (b || c), "A03:select", "");
            if (b) { *b; rec(s, q_put, x); }
            if (c) rec(s, q_get, *c);
          });
          if (!ok) cancelled.fetch_add(1, std::memory_order_relaxed);
          break;
        }
        case 11: {
          auto [a, b] = arpc::select(q.async_get(), arpc::timeout(std::chrono::milliseconds(p.below(2))));
          if (a) rec(s, q_get, *a);
          VH_CHECK(a || b, "A03:select", "");
          break;
        }
      }
      faults::jitter(150);
      if (lng) vh::tick();
    }
    left.fetch_sub(1, std::memory_order_relaxed);
  });
  std::vector<FOp> h;
  for (auto& x : hs) for (auto& o : x) h.push_back(o);
  // What remains.
  std::size_t puts = 0, gets = 0;
  for (auto& o : h) { puts += o.kind == q_put; gets += o.kind == q_get; }
  VH_CHECK(q.q.size() == puts - gets, "A03:size", "size " + std::to_string(q.q.size()) + " after " + std::to_string(puts) + " puts and " + std::to_string(gets) + " gets");
  VH_CHECK(q.q.empty() == (puts == gets) && q.q.full() == (puts - gets == cap), "A03:state", "");
  VH_CHECK(q.q.capacity() == cap && q.q.max_size() == cap, "A03:capacity", "");
  while (q.q.size() && !vh::st().violations.count("A03:size")) {
    auto s = hist::now();
    int v = q.get();
    h.push_back({s, hist::now(), q_get, v, 99});
  }
  { auto [x, y] = arpc::select(q.async_get(), arpc::always()); VH_CHECK(!x && y, "A03:get-from-empty", ""); }
  // Every item exactly once.
  std::map<int, int> seen;
  for (auto& o : h) {
    vh::stat(std::string(sem ? "semaphore " : "queue ") + queue_names[o.kind]);
    if (o.kind == q_put) seen[o.arg]++;
    if (o.kind == q_get) seen[o.arg]--;
    if (o.kind == q_size) VH_CHECK(static_cast<std::size_t>(o.arg) <= cap, "A03:over-capacity", std::to_string(o.arg) + " items in a queue of " + std::to_string(cap));
  }
  for (auto& x : seen) VH_CHECK(x.second == 0, x.second > 0 ? "A03:lost-item" : "A03:duplicate-item", "item " + std::to_string(x.first) + " off by " + std::to_string(x.second));
  vh::stat("queue operations cancelled or expired", cancelled.load());
  if (!sem) {
    // In the order one consumer saw them, items of one producer ascend.
    for (auto& x : hs) {
      std::map<int, int> last;
      for (auto& o : x) if (o.kind == q_get) {
        auto& l = last[o.arg / 10000];
        VH_CHECK(o.arg >= l, "A03:producer-order", "item " + std::to_string(o.arg) + " after " + std::to_string(l));
        l = o.arg;
      }
    }
  }
  if (h.size() <= 70) {
    std::uint64_t states = 0;
    bool ok;
    if constexpr (sem) {
      ok = hist::linearizable<std::size_t>(0, h, [cap](std::size_t& n, const FOp& o) {
        switch (o.kind) {
          case q_put: if (n == cap) return false; n++; return true;
          case q_get: if (n == 0) return false; n--; return true;
          case q_full: return n == cap;
          case q_notfull: return n != cap;
          case q_empty: return n == 0;
          case q_notempty: return n != 0;
          default: return n == static_cast<std::size_t>(o.arg);
        }
      }, [](std::size_t n) { return vh::mix64(n); }, &states);
    } else {
      ok = hist::linearizable<std::deque<int>>({}, h, [cap](std::deque<int>& d, const FOp& o) {
        switch (o.kind) {
          case q_put: if (d.size() == cap) return false; d.push_back(o.arg); return true;
          case q_get: if (d.empty() || d.front() != o.arg) return false; d.pop_front(); return true;
          case q_full: return d.size() == cap;
          case q_notfull: return d.size() != cap;
          case q_empty: return d.empty();
          case q_notempty: return !d.empty();
          default: return d.size() == static_cast<std::size_t>(o.arg);
        }
      }, [](const std::deque<int>& d) { std::uint64_t x = 5; for (int i : d) x = vh::hcomb(x, i); return x; }, &states);
    }
    vh::stat(sem ? "semaphore histories" : "queue histories");
    vh::stat("queue states explored", states);
    VH_CHECK(ok, "A03:history", "no order of these operations on a queue of " + std::to_string(cap) + " explains the results:\n" + show_history(h, queue_names));
    if (round < 3) vh::sample(show_history(h, queue_names));
  }
  vh::eval(vh::hcomb(hash_history(h), cap), h.size() > 4);
}

// Blocked producers and consumers proceed: a pipeline through small queues.
template <typename T>
void pipeline_round(vh::Rng& r) {
  const int stages = 1 + static_cast<int>(r.below(3)), items = 100 + static_cast<int>(r.below(tsan ? 100 : 400));
  const int producers = 1 + static_cast<int>(r.below(3)), consumers = 1 + static_cast<int>(r.below(3));
  std::vector<std::unique_ptr<Q<T>>> qs;
  for (int i = 0; i <= stages; i++) qs.push_back(std::make_unique<Q<T>>(1 + r.below(3)));
  std::vector<std::vector<int>> got(consumers);
  std::atomic<int> taken{0};
  const int total = producers * items;
  std::vector<std::atomic<int>> moved(stages);
  std::uint64_t seed = r.next();
  hist::run_threads(producers + consumers + stages, seed, [&](int who) {
    if (who < producers) {
      for (int i = 0; i < items; i++) { qs[0]->put(who * 10000 + i); vh::tick(); }
    } else if (who < producers + stages) {
      int s = who - producers;
      for (int i = 0; i < total; i++) { auto v = qs[s]->q.get(); qs[s + 1]->q.put(std::move(v)); vh::tick(); }
    } else {
      while (taken.fetch_add(1, std::memory_order_relaxed) < total) { got[who - producers - stages].push_back(qs[stages]->get()); vh::tick(); }
    }
  });
  std::set<int> all;
  for (auto& g : got) {
    std::map<int, int> last;
    for (int x : g) {
      VH_CHECK(all.insert(x).second, "A03:duplicate-item", "pipeline item " + std::to_string(x));
      auto it = last.find(x / 10000);
      VH_CHECK(it == last.end() || it->second < x, "A03:producer-order", "pipeline");
      last[x / 10000] = x;
    }
  }
  VH_CHECK(static_cast<int>(all.size()) == total, "A03:lost-item", "pipeline delivered " + std::to_string(all.size()) + " of " + std::to_string(total));
  for (auto& q : qs) VH_CHECK(q->q.empty(), "A03:state", "pipeline queue not empty at the end");
  vh::stat("pipeline items", total);
  vh::eval(vh::hcomb(seed, total), true);
}
}  // namespace

void harness() {
  vh::Rng r(vh::seed() * 1000003 + 17);
  auto m = vh::mode();
  const int slow = tsan ? 1 : 3;
  if (m == "A01") {
    vh::mark("flag idempotence");
    flag_idempotent(r);
    for (int i = 0; i < vh::scale(300, 3000) * slow; i++) {
      set_noise(r);
      vh::mark("flag history round " + std::to_string(i));
      flag_round(r, i);
      if (i % 3 == 0) { vh::mark("flag wake round " + std::to_string(i)); flag_wake_round(r); }
      no_noise();
    }
  } else if (m == "A02") {
    for (int i = 0; i < vh::scale(300, 3000) * slow; i++) {
      set_noise(r);
      vh::mark("mutex round " + std::to_string(i));
      mutex_round(r, i);
      no_noise();
    }
  } else if (m == "A03") {
    for (int i = 0; i < vh::scale(100, 1000) * slow; i++) {
      set_noise(r);
      switch (i % 5) {
        case 0: queue_round<int>(r, i / 5, "int"); break;
        case 1: queue_round<std::string>(r, i / 5, "string"); break;
        case 2: queue_round<std::unique_ptr<int>>(r, i / 5, "unique_ptr"); break;
        case 3: queue_round<Counted>(r, i / 5, "Counted"); break;
        case 4: queue_round<void>(r, i / 5, "void"); break;
      }
      if (i % 10 == 0) {
        vh::mark("queue pipeline");
        if (r.chance(1, 2)) pipeline_round<std::string>(r); else pipeline_round<std::unique_ptr<int>>(r);
      }
      no_noise();
      VH_CHECK(Counted::live.load() == 0, "A03:leaked-item", std::to_string(Counted::live.load()) + " items alive after the queue is gone");
    }
  }
}
