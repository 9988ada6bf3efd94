// A07 thread pools.
#include "conc.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/executor.h"
#include "arpc/flag.h"
#include "arpc/future.h"
#include "arpc/select.h"
#include "arpc/wait.h"

using namespace std::chrono_literals;
namespace {
void set_noise(vh::Rng& r) {
  faults::delay_permille = r.chance(1, 3) ? 0 : static_cast<int>(r.below(300));
  faults::delay_max_us = 150;
  faults::eintr_permille = r.chance(1, 3) ? static_cast<int>(r.below(200)) : 0;
}
std::atomic<int> live{0};
struct Ticket {
  bool on = true;
  Ticket() { live.fetch_add(1, std::memory_order_relaxed); }
  Ticket(const Ticket& o) : on(o.on) { if (on) live.fetch_add(1, std::memory_order_relaxed); }
  Ticket(Ticket&& o) noexcept : on(o.on) { o.on = false; }
  ~Ticket() { if (on) live.fetch_sub(1, std::memory_order_relaxed); }
};
constexpr auto rlx = std::memory_order_relaxed;

// What one pool's tasks did.
struct Log {
  explicit Log(std::size_t n) : runs(n), payload(n) {}
  std::vector<std::atomic<int>> runs;
  std::vector<int> payload;  // Unsynchronised but for the pool.
  std::atomic<int> running{0}, most{0}, finished{0};
  std::mutex mu;
  std::set<std::thread::id> workers;
  std::vector<std::pair<int, int>> order;  // Submitter, index.
  void enter(std::size_t id) {
    runs[id].fetch_add(1, rlx);
    int now = running.fetch_add(1, rlx) + 1;
    int m = most.load(rlx);
    while (now > m && !most.compare_exchange_weak(m, now, rlx)) {}
  }
  void leave() {
    running.fetch_sub(1, rlx);
  }
};
struct Scope {
  Log& l;
  explicit Scope(Log& log, std::size_t id) : l(log) { l.enter(id); }
  ~Scope() { l.leave(); l.finished.fetch_add(1, rlx); }
};

void throw_something(std::uint64_t k) {
  switch (k % 6) {
    case 0: throw 7;
    case 1: throw std::runtime_error("task");
    case 2: throw arpc::errors::cancelled("task");
    case 3: throw arpc::errors::deadline_exceeded("task");
    case 4: throw arpc::errors::try_again("task");
    default: throw std::string("task");
  }
}

void busy_round(vh::Rng& r) {
  const unsigned workers = 1 + static_cast<unsigned>(r.below(5));
  const int queue_size = r.chance(1, 3) ? -1 : static_cast<int>(r.below(5));
  const int submitters = 1 + static_cast<int>(r.below(4)), per = 10 + static_cast<int>(r.below(60));
  const bool nested = queue_size < 0 && r.chance(1, 2), cancels = r.chance(1, 3), record_order = r.chance(1, 2);
  const int slow = r.chance(1, 2) ? 0 : static_cast<int>(r.below(300));
  std::uint64_t seed = r.next();
  const int total = submitters * per;
  Log log(static_cast<std::size_t>(total) * 2);
  std::vector<std::atomic<int>> accepted(static_cast<std::size_t>(total) * 2);
  std::set<std::thread::id> submitter_ids;
  std::mutex ids_mu;
  std::atomic<std::uint64_t> n_ok{0}, n_refused{0};
  const std::string what = std::to_string(workers) + " workers, queue " + std::to_string(queue_size) + ", " + std::to_string(submitters) + " submitters";
  {
    std::unique_ptr<arpc::thread_pool> pool_ptr;
    if (r.chance(1, 8)) {
      arpc::context gone;
      gone.cancel();
      pool_ptr = std::make_unique<arpc::thread_pool>(workers, queue_size);
    } else {
      pool_ptr = std::make_unique<arpc::thread_pool>(workers, queue_size);
    }
    auto& pool = *pool_ptr;
    hist::run_threads(submitters, seed, [&](int who) {
      { std::scoped_lock l(ids_mu); submitter_ids.insert(std::this_thread::get_id()); }
      vh::Rng q(seed + static_cast<std::uint64_t>(who));
      for (int i = 0; i < per; i++) {
        const auto id = static_cast<std::size_t>(who * per + i);
        log.payload[id] = static_cast<int>(id) * 3 + 1;
        const std::uint64_t behaviour = q.below(10), salt = q.next();
        const int sleep_us = q.chance(1, 4) ? static_cast<int>(q.below(static_cast<std::uint64_t>(slow) + 1)) : 0;
        auto task = [&, id, behaviour, salt, sleep_us, who, i, k = Ticket()]() {
          Scope s(log, id);
          VH_CHECK(log.payload[id] == static_cast<int>(id) * 3 + 1, "A07:stale-data", "");
          if (record_order) {
            std::scoped_lock l(log.mu);
            log.workers.insert(std::this_thread::get_id());
            log.order.push_back({who, i});
          }
          if (sleep_us) ::usleep(static_cast<unsigned>(sleep_us));
          if (nested && behaviour == 0) {
            const auto nid = static_cast<std::size_t>(total) + id;
            accepted[nid].store(1, rlx);
            pool.run([&log, nid, k2 = Ticket()] { Scope s2(log, nid); });
          }
          if (behaviour == 1) {
            arpc::context c;
            c.cancel();
            arpc::wait(arpc::never());  // Throws.
          }
          if (behaviour == 2) {
            arpc::context c;
            c.set_timeout(-1ms);
            arpc::wait(arpc::never());
          }
          if (behaviour <= 4) throw_something(salt);
        };
        bool ok = true;
        if (cancels && q.chance(1, 3)) {
          arpc::context c;
          if (q.chance(1, 3)) c.cancel();
          else c.set_timeout(std::chrono::milliseconds(q.range(-1, 2)));
          try {
            pool.run(std::move(task));
          } catch (const arpc::errors::cancelled&) {
            ok = false;
          } catch (const arpc::errors::deadline_exceeded&) {
            ok = false;
          }
        } else if (q.chance(1, 2)) {
          pool.run(task);  // Copied.
        } else {
          pool.run([t = std::move(task), p = std::make_unique<int>(4)]() mutable { VH_CHECK(*p == 4, "A07:task-damaged", ""); t(); });
        }
        accepted[id].store(ok, rlx);
        (ok ? n_ok : n_refused).fetch_add(1, rlx);
        faults::jitter(100);
      }
    });
    // Everything accepted is run while the pool lives. Tasks only add others before they end.
    for (;;) {
      int want = 0;
      for (auto& a : accepted) want += a.load(rlx);
      if (log.finished.load(rlx) >= want) {
        int again = 0;
        for (auto& a : accepted) again += a.load(rlx);
        if (again == want) break;
      }
      ::usleep(100);
    }
  }
  for (std::size_t i = 0; i < accepted.size(); i++) {
    VH_CHECK(log.runs[i] == accepted[i], log.runs[i] > accepted[i] ? accepted[i] ? "A07:run-twice" : "A07:refused-task-run" : "A07:task-lost",
             "task " + std::to_string(i) + " ran " + std::to_string(log.runs[i]) + " times; " + what);
  }
  VH_CHECK(log.most <= static_cast<int>(workers), "A07:too-many-at-once", std::to_string(log.most) + " at once; " + what);
  VH_CHECK(log.workers.size() <= workers, "A07:strange-worker", what);
  for (auto& id : submitter_ids) VH_CHECK(!log.workers.count(id), "A07:run-by-submitter", what);
  if (workers == 1 && record_order) {
    std::map<int, int> last;
    for (auto& o : log.order) {
      auto it = last.find(o.first);
      VH_CHECK(it == last.end() || it->second < o.second, "A07:order", "task " + std::to_string(o.second) + " of submitter " + std::to_string(o.first) + " after " + std::to_string(it == last.end() ? -1 : it->second) + "; " + what);
      last[o.first] = o.second;
    }
    vh::stat("ordered runs of one-worker pools");
  }
  vh::stat("tasks accepted", n_ok.load());
  vh::stat("tasks refused: submitter cancelled or expired", n_refused.load());
  vh::stat_max("most tasks at once", static_cast<std::uint64_t>(log.most.load()));
  vh::stat("tasks run", static_cast<std::uint64_t>(log.finished.load()));
  vh::eval(vh::hcomb(vh::hcomb(workers * 16 + static_cast<unsigned>(queue_size + 1), static_cast<std::uint64_t>(submitters * 8 + nested * 4 + cancels * 2 + record_order)), seed), true);
}

// How much a bounded pool takes while its workers are busy.
void bound_round(vh::Rng& r) {
  const unsigned workers = 1 + static_cast<unsigned>(r.below(4));
  const int queue_size = static_cast<int>(r.below(5));
  const int room = queue_size == 0 ? static_cast<int>(workers) : queue_size;
  arpc::flag gate;
  std::atomic<int> running{0}, done{0}, bad{0};
  {
    arpc::thread_pool pool(workers, queue_size);
    auto task = [&, k = Ticket()] {
      running.fetch_add(1, rlx);
      gate.wait();
      done.fetch_add(1, rlx);
    };
    for (unsigned i = 0; i < workers; i++) pool.run(task);
    while (running.load(rlx) < static_cast<int>(workers)) ::usleep(50);
    for (int i = 0; i < room; i++) pool.run(task);  // Must not block.
    for (int i = 0; i < 2; i++) {
      arpc::context c;
      c.set_timeout(std::chrono::milliseconds(r.below(4)));
      bool threw = false;
      try { pool.run([&, k = Ticket()] { bad.fetch_add(1, rlx); }); } catch (const arpc::errors::deadline_exceeded&) { threw = true; }
      VH_CHECK(threw, "A07:over-capacity", "a pool of " + std::to_string(workers) + " with room for " + std::to_string(room) + " took one more");
    }
    // A blocked submitter proceeds when there is room.
    std::atomic<bool> in{false};
    std::thread t([&] { pool.run(task); in = true; });
    faults::jitter(800);
    VH_CHECK(!in, "A07:over-capacity", "a submitter did not block");
    VH_CHECK(running.load(rlx) == static_cast<int>(workers) && done.load(rlx) == 0, "A07:too-many-at-once", "");
    gate.set();
    t.join();
    while (done.load(rlx) < static_cast<int>(workers) + room + 1) ::usleep(50);
  }
  VH_CHECK(done == static_cast<int>(workers) + room + 1, "A07:run-twice", "");
  VH_CHECK(bad == 0, "A07:refused-task-run", "");
  vh::stat("bounds probed");
  vh::eval(vh::hcomb(21, workers * 8 + static_cast<unsigned>(queue_size)), true);
}

// Idle workers take up work at once: with n workers, n tasks can wait for each other.
void rendezvous_round(vh::Rng& r) {
  const unsigned workers = 2 + static_cast<unsigned>(r.below(4));
  arpc::thread_pool pool(workers, r.chance(1, 2) ? -1 : static_cast<int>(r.below(4)));
  for (int round = 0; round < 6; round++) {
    std::atomic<unsigned> in{0};
    arpc::flag all;
    std::vector<arpc::future<int>> fs;
    for (unsigned i = 0; i < workers; i++) {
      arpc::promise<int> p;
      fs.push_back(p.get_future());
      pool.run([&, i, p = std::move(p)]() mutable {
        if (in.fetch_add(1, rlx) + 1 == workers) all.set();
        all.wait();
        p.set_value(static_cast<int>(i));
      });
      faults::jitter(300);
    }
    for (unsigned i = 0; i < workers; i++) VH_CHECK(fs[i].get() == static_cast<int>(i), "A07:wrong-result", "");
    if (r.chance(1, 2)) ::usleep(static_cast<unsigned>(r.below(300)));
  }
  vh::stat("rendezvous of all workers", 6);
  vh::eval(vh::hcomb(23, workers), true);
}

// The end of a pool with work running, queued and being submitted to it elsewhere.
void end_round(vh::Rng& r) {
  const unsigned workers = 1 + static_cast<unsigned>(r.below(4));
  const int n = static_cast<int>(r.below(30));
  Log log(static_cast<std::size_t>(n) + 1);
  std::vector<arpc::future<int>> fs;
  std::atomic<int> cancelled{0};
  std::atomic<bool> gone{false};
  std::uint64_t seed = r.next();
  {
    auto pool = std::make_unique<arpc::thread_pool>(workers, -1);
    for (int i = 0; i < n; i++) {
      arpc::promise<int> p;
      fs.push_back(p.get_future());
      const auto b = (seed >> (i % 50)) % 4;
      pool->run([&, i, b, p = std::move(p), k = Ticket()]() mutable {
        Scope s(log, static_cast<std::size_t>(i));
        VH_CHECK(!gone.load(rlx), "A07:run-after-end", "");
        if (b == 0) {
          try { arpc::wait(arpc::never()); } catch (const arpc::errors::cancelled&) { cancelled.fetch_add(1, rlx); throw; }
        }
        if (b == 1) faults::jitter(900);
        p.set_value(i);
      });
    }
    faults::jitter(700);
    if (r.chance(1, 4)) {
      arpc::context c;
      c.cancel();
      pool.reset();
    } else {
      pool.reset();
    }
    gone = true;
  }
  VH_CHECK(log.running == 0, "A07:run-after-end", "a task runs after the end of its pool");
  int ran = 0;
  for (int i = 0; i < n; i++) {
    int k = log.runs[static_cast<std::size_t>(i)];
    VH_CHECK(k <= 1, "A07:run-twice", "");
    ran += k;
    // Every future has an outcome now.
    int got = -1;
    try {
      got = fs[static_cast<std::size_t>(i)].maybe_get();
    } catch (const arpc::errors::invalid_state&) {
    } catch (const arpc::errors::try_again&) {
      VH_CHECK(false, "A07:leaked-task", "a task that was not run still exists");
    }
    VH_CHECK(got == -1 || (got == i && k == 1), "A07:wrong-result", "");
  }
  vh::stat("tasks run before the end of their pool", static_cast<std::uint64_t>(ran));
  vh::stat("tasks dropped at the end of their pool", static_cast<std::uint64_t>(n - ran));
  vh::stat("tasks cancelled by the end of their pool", static_cast<std::uint64_t>(cancelled.load()));
  vh::eval(vh::hcomb(vh::hcomb(29, workers), seed), n > 0);
}

void inline_round() {
  arpc::synchronous_executor e;
  int n = 0;
  auto id = std::this_thread::get_id();
  e.run([&] { n++; VH_CHECK(std::this_thread::get_id() == id, "A07:synchronous", ""); });
  VH_CHECK(n == 1, "A07:synchronous", "");
  bool threw = false;
  try { e.run([] { throw 3; }); } catch (int x) { threw = x == 3; }
  VH_CHECK(threw, "A07:synchronous", "exception");
}
}  // namespace

void harness() {
  vh::Rng r(vh::seed());
  arpc::wait(arpc::always());
  const auto base_fds = faults::open_fds().size();
  const int rounds = vh::scale(250, 2500);
  for (int i = 0; i < rounds; i++) {
    vh::mark("A07 round " + std::to_string(i));
    set_noise(r);
    auto base = live.load();
    busy_round(r);
    VH_CHECK(live.load() == base, "A07:leaked-task", std::to_string(live.load() - base) + " tasks alive");
    bound_round(r);
    VH_CHECK(live.load() == base, "A07:leaked-task", std::to_string(live.load() - base) + " tasks alive, bound");
    rendezvous_round(r);
    end_round(r);
    VH_CHECK(live.load() == base, "A07:leaked-task", std::to_string(live.load() - base) + " tasks alive after the end");
    inline_round();
    VH_CHECK(faults::open_fds().size() <= base_fds, "A07:descriptor-leak", std::to_string(faults::open_fds().size()) + " open");
    vh::tick();
  }
}
