// A06 contexts.
#include "conc.h"
#include "arpc/binary_codecs.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/string_adapters.h"
#include "arpc/thread.h"
#include "arpc/wait.h"

struct DataA : arpc::dynamic<DataA> {
  int a = -1;
  ARPC_FIELDS(a);
};
ARPC_REGISTER(DataA);
struct DataB : arpc::dynamic<DataB, DataA> {
  std::string b = "default";
  ARPC_FIELDS(b);
};
ARPC_REGISTER(DataB);
struct DataC : arpc::dynamic<DataC> {
  std::vector<int> c;
  ARPC_FIELDS(c);
};
ARPC_REGISTER(DataC);

using namespace std::chrono_literals;
using arpc::context;
namespace {
void set_noise(vh::Rng& r) {
  faults::delay_permille = r.chance(1, 3) ? 0 : static_cast<int>(r.below(300));
  faults::delay_max_us = 150;
  faults::eintr_permille = r.chance(1, 3) ? static_cast<int>(r.below(200)) : 0;
}
void no_noise() { faults::delay_permille = 0; faults::eintr_permille = 0; }

struct Data {
  std::optional<int> a;
  std::optional<std::pair<int, std::string>> b;
  std::optional<std::vector<int>> c;
};
struct Node {
  std::shared_ptr<context> ctx;
  int parent = -1;  // -1: the top context.
  bool shield = false, current = false, cancelled = false;
  std::optional<context::time_point> deadline;
  Data data;
  int children = 0;  // Of both kinds.
};
std::string show(const std::optional<context::time_point>& d) { return d ? std::to_string(d->time_since_epoch().count()) : "none"; }

context::time_point sys_now_floor() { return std::chrono::floor<std::chrono::milliseconds>(std::chrono::system_clock::now()); }

// What a wait in the current context does.
int wait_outcome() {
  try {
    auto [x] = arpc::select(arpc::always());
    return x ? 0 : 3;
  } catch (const arpc::errors::cancelled&) {
    return 1;
  } catch (const arpc::errors::deadline_exceeded&) {
    return 2;
  }
}

void tree_round(vh::Rng& r, int round) {
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<int> stack;  // Of current ones.
  std::uint64_t sig = 3;
  std::string log;
  const auto far = sys_now_floor() + 3600s;
  auto alive = [&](int i) { return nodes[i] && nodes[i]->ctx; };
  auto check = [&](int i, const char* when) {
    auto& n = *nodes[i];
    auto& c = *n.ctx;
    VH_CHECK(c.is_cancelled() == n.cancelled, n.cancelled ? "A06:cancellation-lost" : "A06:cancelled-by-other", std::string(when) + " node " + std::to_string(i) + "\n" + log);
    VH_CHECK(c.deadline() == n.deadline, "A06:deadline", "node " + std::to_string(i) + " has " + show(c.deadline()) + ", expected " + show(n.deadline) + "\n" + log);
    auto left = c.deadline_left();
    VH_CHECK(left.has_value() == n.deadline.has_value(), "A06:deadline-left", log);
    if (left && n.deadline) {
      auto ref = *n.deadline - std::chrono::system_clock::now();
      VH_CHECK(*left + 1ms >= ref, "A06:deadline-left", log);
    }
    auto& d = n.data;
    VH_CHECK(c.get<DataA>().a == d.a.value_or(-1), "A06:data", "A of node " + std::to_string(i) + "\n" + log);
    VH_CHECK(c.get<DataB>().b == (d.b ? d.b->second : "default") && c.get<DataB>().a == (d.b ? d.b->first : -1), "A06:data", "B of node " + std::to_string(i) + "\n" + log);
    VH_CHECK(c.get<DataC>().c == d.c.value_or(std::vector<int>()), "A06:data", "C of node " + std::to_string(i) + "\n" + log);
    vh::stat("context states compared");
  };
  auto check_all = [&](const char* when) {
    for (std::size_t i = 0; i < nodes.size(); i++) if (alive(static_cast<int>(i))) check(static_cast<int>(i), when);
    context* want = stack.empty() ? &context::top() : nodes[stack.back()]->ctx.get();
    VH_CHECK(&context::current() == want, "A06:current", log);
    VH_CHECK(!context::top().is_cancelled() && !context::top().deadline(), "A06:top", log);
  };
  std::function<void(int)> cancel_model = [&](int i) {
    nodes[i]->cancelled = true;
    for (std::size_t j = 0; j < nodes.size(); j++) {
      if (alive(static_cast<int>(j)) && nodes[j]->parent == i && !nodes[j]->shield) cancel_model(static_cast<int>(j));
    }
  };
  auto pick = [&]() -> int {
    std::vector<int> v;
    for (std::size_t i = 0; i < nodes.size(); i++) if (alive(static_cast<int>(i))) v.push_back(static_cast<int>(i));
    return v.empty() ? -1 : v[r.below(v.size())];
  };
  auto add = [&](int parent, bool shield, bool current) {
    auto n = std::make_unique<Node>();
    n->parent = parent;
    n->shield = shield;
    n->current = current;
    if (parent >= 0) {
      auto& p = *nodes[parent];
      n->deadline = p.deadline;
      n->data = p.data;
      n->cancelled = p.cancelled && !shield;
      p.children++;
    }
    if (current) stack.push_back(static_cast<int>(nodes.size()));
    nodes.push_back(std::move(n));
    return static_cast<int>(nodes.size()) - 1;
  };
  auto destroy = [&](int i) {
    nodes[i]->ctx.reset();
    if (nodes[i]->parent >= 0) nodes[nodes[i]->parent]->children--;
    if (nodes[i]->current) stack.pop_back();
  };
  const int ops = 10 + static_cast<int>(r.below(50));
  for (int k = 0; k < ops; k++) {
    int op = static_cast<int>(r.below(14));
    int i = pick();
    if (i < 0 || nodes.size() > 30) { if (i < 0) op = 0; else if (op < 4) op = 5; }
    log += std::to_string(op) + "@" + std::to_string(i) + " ";
    sig = vh::hcomb(sig, static_cast<std::uint64_t>(op * 64 + i + 1));
    switch (op) {
      case 0: case 1: {
        // Under any context.
        int parent = r.chance(1, 6) ? -1 : i;
        bool shield = r.chance(1, 4);
        context& p = parent < 0 ? context::top() : *nodes[parent]->ctx;
        int n = add(parent, shield, false);
        nodes[n]->ctx = std::make_shared<context>(p, false, shield);
        break;
      }
      case 2: case 3: {
        // Under the current one.
        int parent = stack.empty() ? -1 : stack.back();
        bool shield = r.chance(1, 4);
        int n = add(parent, shield, true);
        if (shield) nodes[n]->ctx = std::make_shared<arpc::shield>();
        else nodes[n]->ctx = std::make_shared<context>();
        break;
      }
      case 4: {
        // Current, but elsewhere in the tree.
        bool shield = r.chance(1, 4);
        int n = add(i, shield, true);
        nodes[n]->ctx = std::make_shared<context>(*nodes[i]->ctx, true, shield);
        break;
      }
      case 5: if (r.chance(1, 2)) { nodes[i]->ctx->cancel(); cancel_model(i); } break;
      case 6: {
        auto t = far + std::chrono::milliseconds(r.range(-100000, 100000));
        nodes[i]->ctx->set_deadline(t);
        if (!nodes[i]->deadline || *nodes[i]->deadline > t) nodes[i]->deadline = t;
        break;
      }
      case 7: {
        // Relative, possibly past.
        auto ms = std::chrono::milliseconds(r.chance(1, 4) ? -static_cast<int>(r.below(100)) : static_cast<int>(r.below(10000000)) + 100000);
        auto before = nodes[i]->ctx->deadline();
        auto lo = sys_now_floor();
        nodes[i]->ctx->set_timeout(ms);
        auto hi = sys_now_floor() + 2ms;
        auto d = nodes[i]->ctx->deadline();
        bool ok = d && ((before && d == before && *before <= hi + ms) || (*d >= lo + ms && *d <= hi + ms && (!before || *d <= *before)));
        VH_CHECK(ok, "A06:timeout", "timeout of " + std::to_string(ms.count()) + " at " + show(lo) + " after " + show(before) + " gave " + show(d));
        nodes[i]->deadline = d;
        break;
      }
      case 8: {
        DataA a;
        a.a = static_cast<int>(r.below(1000));
        nodes[i]->data.a = a.a;
        if (r.chance(1, 2)) {
          DataC c;
          c.c.assign(r.below(5), a.a);
          nodes[i]->data.c = c.c;
          nodes[i]->ctx->set(a, std::move(c));
        } else {
          nodes[i]->ctx->set(a);
        }
        break;
      }
      case 9: {
        DataB b;
        b.a = static_cast<int>(r.below(1000));
        b.b = "b" + std::to_string(r.below(1000));
        nodes[i]->data.b = {b.a, b.b};
        nodes[i]->ctx->set(std::move(b));
        break;
      }
      case 10:
        switch (r.below(4)) {
          case 0: nodes[i]->ctx->reset<DataA>(); nodes[i]->data.a.reset(); break;
          case 1: nodes[i]->ctx->reset<DataB, DataC>(); nodes[i]->data.b.reset(); nodes[i]->data.c.reset(); break;
          case 2: nodes[i]->ctx->reset_all(); nodes[i]->data = Data(); break;
          default: break;
        }
        break;
      case 11: case 12:
        if (nodes[i]->current) i = stack.empty() ? -1 : stack.back();
        if (i >= 0 && !nodes[i]->children) destroy(i);
        break;
      case 13: {
        // Waits follow the current context.
        int cur = stack.empty() ? -1 : stack.back();
        int want = 0;
        if (cur >= 0) {
          if (nodes[cur]->cancelled) want = 1;
          else if (nodes[cur]->deadline && *nodes[cur]->deadline <= std::chrono::system_clock::now()) want = 2;
        }
        int got = wait_outcome();
        VH_CHECK(got == want, "A06:wait", "a wait ended with " + std::to_string(got) + ", expected " + std::to_string(want) + "\n" + log);
        vh::stat(want == 0 ? "waits completed" : want == 1 ? "waits cancelled" : "waits past the deadline");
        // What travels: remaining time, data and cancellation.
        if (cur >= 0 && r.chance(1, 2)) {
          std::string bytes;
          arpc::string_output_stream os(bytes);
          arpc::little_endian_binary_encoder enc(os);
          enc(*nodes[cur]->ctx);
          context other(context::top(), false);
          arpc::string_input_stream is(bytes);
          arpc::little_endian_binary_decoder dec(is);
          dec(other);
          VH_CHECK(other.is_cancelled() == nodes[cur]->cancelled, "A06:sent-cancellation", log);
          VH_CHECK(other.deadline().has_value() == nodes[cur]->deadline.has_value(), "A06:sent-deadline", log);
          auto& d = nodes[cur]->data;
          VH_CHECK(other.get<DataA>().a == d.a.value_or(-1) && other.get<DataB>().b == (d.b ? d.b->second : "default") && other.get<DataB>().a == (d.b ? d.b->first : -1) && other.get<DataC>().c == d.c.value_or(std::vector<int>()), "A06:sent-data", log);
          vh::stat("contexts encoded and decoded");
        }
        break;
      }
    }
    check_all("after");
  }
  vh::eval(sig, nodes.size() > 1);
  if (round < 2) vh::sample(log);
  vh::stat("contexts created", nodes.size());
  // Leaves first, the current ones in order.
  while (!stack.empty()) {
    int i = stack.back();
    while (nodes[i]->children) {
      bool done = false;
      for (int j = static_cast<int>(nodes.size()) - 1; j >= 0; j--) {
        if (alive(j) && !nodes[j]->children && !nodes[j]->current) { destroy(j); done = true; break; }
      }
      if (!done) break;
    }
    destroy(i);
    VH_CHECK(&context::current() == (stack.empty() ? &context::top() : nodes[stack.back()]->ctx.get()), "A06:current", "after the end of a scope");
  }
  for (int j = static_cast<int>(nodes.size()) - 1; j >= 0; j--) if (alive(j)) { destroy(j); }
}

// Threads: which context they run in, what they inherit, how they end.
struct MoveOnly {
  std::unique_ptr<int> p;
};
void thread_round(vh::Rng& r) {
  std::uint64_t sig = 11;
  context ctx;
  DataA a;
  a.a = static_cast<int>(r.below(1000));
  ctx.set(a);
  const bool with_deadline = r.chance(1, 3);
  const auto dl = sys_now_floor() + 3600s;
  if (with_deadline) ctx.set_deadline(dl);
  const bool pre_cancelled = r.chance(1, 6);
  if (pre_cancelled) ctx.cancel();
  arpc::flag go, started;
  std::atomic<int> outcome_thread{-1}, outcome_daemon{-1};
  int unsync = 0;
  const int how = static_cast<int>(r.below(4));
  MoveOnly mo{std::make_unique<int>(5)};
  int by_ref = 0;
  auto body = [&](std::atomic<int>& out, bool daemon, MoveOnly m, int& ref) {
    auto& c = context::current();
    VH_CHECK(&c != &ctx && &c != &context::top(), "A06:thread-context", "");
    VH_CHECK(c.get<DataA>().a == (daemon ? -1 : a.a), "A06:thread-data", daemon ? "daemon" : "thread");
    VH_CHECK(c.deadline() == (daemon || !with_deadline ? std::nullopt : std::optional<context::time_point>(dl)), "A06:thread-deadline", daemon ? "daemon" : "thread");
    if (m.p) ref = *m.p;
    try {
      go.wait();
      out = 0;
    } catch (const arpc::errors::cancelled&) {
      out = 1;
      VH_CHECK(c.is_cancelled(), "A06:wait", "cancelled in a context that is not");
      throw;
    }
  };
  arpc::thread t(body, std::ref(outcome_thread), false, std::move(mo), std::ref(by_ref));
  arpc::thread t2;
  if (r.chance(1, 2)) { t2 = std::move(t); } else { t2 = arpc::thread(std::move(t)); }
  VH_CHECK(!t.joinable() && t2.joinable(), "A06:thread-move", "");
  arpc::daemon_thread d(body, std::ref(outcome_daemon), true, MoveOnly(), std::ref(unsync));
  faults::jitter(500);
  int want_thread = 0, want_daemon = 0;
  switch (how) {
    case 0: go.set(); want_thread = pre_cancelled ? 1 : 0; break;
    case 1: ctx.cancel(); want_thread = 1; break;
    case 2: t2.get_context().cancel(); want_thread = 1; break;
    case 3: d.get_context().cancel(); want_daemon = 1; break;
  }
  if (how == 1 || how == 2) t2.join();
  if (how == 3) { d.join(); if (pre_cancelled) t2.join(); VH_CHECK(pre_cancelled || outcome_thread == -1, "A06:cancelled-by-other", "thread ended with a daemon's cancellation"); }
  VH_CHECK(how == 0 || how == 3 || outcome_daemon == -1, "A06:cancelled-by-other", "daemon ended with its creator's cancellation");
  VH_CHECK(how != 2 || ctx.is_cancelled() == pre_cancelled, "A06:cancelled-by-other", "upwards");
  { arpc::shield s; go.set(); }
  if (t2.joinable()) t2.join();
  if (d.joinable()) d.join();
  if (how == 3 && pre_cancelled) want_thread = 1;
  VH_CHECK(outcome_thread == want_thread, "A06:thread-outcome", std::to_string(how) + ": " + std::to_string(outcome_thread) + (pre_cancelled ? " pre" : ""));
  VH_CHECK(outcome_daemon == want_daemon, "A06:thread-outcome", "daemon " + std::to_string(how) + ": " + std::to_string(outcome_daemon));
  VH_CHECK(by_ref == 5, "A06:thread-arguments", "");
  VH_CHECK(&context::current() == &ctx, "A06:current", "after threads");
  vh::stat("threads run", 2);
  vh::eval(vh::hcomb(vh::hcomb(sig, static_cast<std::uint64_t>(how)), pre_cancelled * 2 + with_deadline), true);
}

// Cancellation against creation of contexts below, from several threads.
void race_round(vh::Rng& r) {
  std::uint64_t seed = r.next();
  auto root = std::make_unique<context>(context::top(), false);
  context other(context::top(), false);
  const int workers = 2 + static_cast<int>(r.below(3)), cancel_at = static_cast<int>(r.below(3));
  std::atomic<bool> cancel_done{false};
  std::atomic<int> created{0}, in{0};
  std::atomic<int> seen_cancelled{0};
  DataA d0;
  d0.a = 0;
  root->set(d0);
  std::atomic<int> data_min{0}, data_max{0};
  hist::run_threads(workers + 2, seed, [&](int who) {
    vh::Rng q(seed + static_cast<std::uint64_t>(who));
    if (who == 0) {
      faults::jitter(900);
      if (cancel_at) {
        const int target = static_cast<int>(q.below(static_cast<std::uint64_t>(workers) * 30));
        while (created.load(std::memory_order_relaxed) < target) sched_yield();
      }
      root->cancel();
      cancel_done.store(true, std::memory_order_release);
      return;
    }
    if (who == 1) {
      // Keeps changing data and deadline at the root.
      const auto base = sys_now_floor() + 7200s;
      for (int i = 1; i <= 30; i++) {
        data_max.store(i, std::memory_order_seq_cst);
        DataA d;
        d.a = i;
        root->set(d);
        root->set_deadline(base - std::chrono::milliseconds(i));
        data_min.store(i, std::memory_order_seq_cst);
        faults::jitter(300);
      }
      return;
    }
    for (int i = 0; i < 40; i++) {
      bool before = cancel_done.load(std::memory_order_acquire);
      int lo = data_min.load(std::memory_order_seq_cst);
      context c(*root);
      created.fetch_add(1, std::memory_order_relaxed);
      if (before) VH_CHECK(c.is_cancelled(), "A06:cancellation-lost", "a context created under a cancelled one");
      int v = c.get<DataA>().a;
      int hi = data_max.load(std::memory_order_seq_cst);
      VH_CHECK(v >= lo && v <= hi, "A06:data", "created between " + std::to_string(lo) + " and " + std::to_string(hi) + " and has " + std::to_string(v));
      {
        context g;
        context h(c, false);
        arpc::shield s;
        VH_CHECK(!s.is_cancelled(), "A06:cancelled-by-other", "shield");
        VH_CHECK(g.get<DataA>().a == v && s.get<DataA>().a == v, "A06:data", "not inherited");
        VH_CHECK(g.deadline() == c.deadline() && s.deadline() == c.deadline(), "A06:deadline", "not inherited");
        if (cancel_done.load(std::memory_order_acquire)) {
          VH_CHECK(g.is_cancelled() && h.is_cancelled() && c.is_cancelled(), "A06:cancellation-lost", "a context below a cancelled one");
          seen_cancelled.fetch_add(1, std::memory_order_relaxed);
        }
        VH_CHECK(!other.is_cancelled(), "A06:cancelled-by-other", "");
        faults::jitter(200);
      }
      if (i == 39 - static_cast<int>(q.below(3))) {
        // Everybody gets woken up in the end, wherever they wait.
        context g;
        in.fetch_add(1, std::memory_order_relaxed);
        arpc::flag never_set;
        arpc::mutex mu;
        { arpc::shield s; mu.lock(); }
        arpc::queue<int> empty(1);
        try {
          switch (q.below(5)) {
            case 0: never_set.wait(); break;
            case 1: mu.lock(); break;
            case 2: empty.get(); break;
            case 3: arpc::wait(arpc::never()); break;
            default: { auto [x] = arpc::select(std::vector<arpc::awaitable<void>>()); } break;
          }
          VH_CHECK(false, "A06:wait", "a wait for nothing returned");
        } catch (const arpc::errors::cancelled&) {
        }
        VH_CHECK(cancel_done.load(std::memory_order_acquire) || root->is_cancelled() || g.is_cancelled(), "A06:wait", "");
        break;
      }
    }
  });
  VH_CHECK(!other.is_cancelled(), "A06:cancelled-by-other", "");
  vh::stat("contexts created against a cancellation", static_cast<std::uint64_t>(created.load()));
  vh::stat("of them seen after the cancellation", static_cast<std::uint64_t>(seen_cancelled.load()));
  vh::eval(vh::hcomb(seed, 1), true);
}

// The end of a context cancels and waits for those below it.
void end_round(vh::Rng& r) {
  std::uint64_t seed = r.next();
  const int n = 1 + static_cast<int>(r.below(5));
  auto parent = std::make_unique<context>(context::top(), false);
  std::vector<int> done(static_cast<std::size_t>(n));  // Written before the child's end, read after the parent's.
  std::vector<std::thread> ts;
  std::atomic<int> up{0};
  for (int i = 0; i < n; i++) {
    ts.emplace_back([&, i, p = parent.get()] {
      faults::seed_thread(seed * 7 + static_cast<std::uint64_t>(i));
      struct After { int& d; ~After() { d++; } };
      {
        context c(*p);
        After a{done[static_cast<std::size_t>(i)]};  // Ends before the context.
        context below;
        up.fetch_add(1);
        if (i % 2) {
          try { arpc::wait(arpc::never()); } catch (const arpc::errors::cancelled&) {}
        } else {
          while (!below.is_cancelled()) { sched_yield(); }
        }
        faults::jitter(900);
        done[static_cast<std::size_t>(i)]++;
      }
    });
  }
  while (up.load() < n) sched_yield();
  faults::jitter(500);
  parent.reset();
  for (int i = 0; i < n; i++) VH_CHECK(done[static_cast<std::size_t>(i)] == 2, "A06:end-before-children", "a context ended while " + std::to_string(n) + " contexts below it lived");
  for (auto& t : ts) t.join();
  vh::stat("contexts ended above others");
  vh::eval(vh::hcomb(9, vh::hcomb(seed, static_cast<std::uint64_t>(n))), true);
}

// Deadlines end waits, not before their time; the earliest one of the chain wins.
void deadline_round(vh::Rng& r) {
  const int depth = 1 + static_cast<int>(r.below(4));
  std::vector<std::shared_ptr<context>> chain;
  std::optional<context::time_point> want;
  for (int i = 0; i < depth; i++) {
    if (r.chance(1, 5)) chain.push_back(std::make_shared<arpc::shield>());
    else chain.push_back(std::make_shared<context>());
    if (r.chance(2, 3) || (i + 1 == depth && !want)) {
      auto t = sys_now_floor() + std::chrono::milliseconds(static_cast<int>(r.below(12)));
      chain.back()->set_deadline(t);
      want = want ? std::min(*want, t) : t;
    }
  }
  VH_CHECK(context::current().deadline() == want, "A06:deadline", "");
  arpc::flag f;
  arpc::queue<int> q(1);
  int got = 0;
  const int how = static_cast<int>(r.below(4));
  try {
    switch (how) {
      case 0: f.wait(); break;
      case 1: q.get(); break;
      case 2: { arpc::shield s; arpc::wait(arpc::never()); break; }
      default: { auto [x, y] = arpc::select(f.async_wait(), arpc::timeout(1h)); break; }
    }
  } catch (const arpc::errors::deadline_exceeded&) {
    got = 2;
  } catch (const arpc::errors::cancelled&) {
    got = 1;
  }
  auto now = std::chrono::system_clock::now();
  VH_CHECK(got == 2, "A06:wait", "ended with " + std::to_string(got));
  VH_CHECK(now >= *want, "A06:deadline-early", "");
  VH_CHECK(!context::current().is_cancelled(), "A06:cancelled-by-other", "by its deadline");
  while (!chain.empty()) chain.pop_back();
  vh::stat("waits past the deadline");
  vh::eval(vh::hcomb(13, static_cast<std::uint64_t>(how * 8 + depth)), true);
}
}  // namespace

void harness() {
  vh::Rng r(vh::seed());
  arpc::wait(arpc::always());
  const auto base_fds = faults::open_fds().size();
  const int rounds = vh::scale(500, 5000);
  for (int i = 0; i < rounds; i++) {
    vh::mark("A06 round " + std::to_string(i));
    no_noise();
    tree_round(r, i);
    set_noise(r);
    thread_round(r);
    if (i % 3 == 0) race_round(r);
    end_round(r);
    deadline_round(r);
    VH_CHECK(&context::current() == &context::top(), "A06:current", "after a round");
    VH_CHECK(faults::open_fds().size() <= base_fds, "A06:descriptor-leak", std::to_string(faults::open_fds().size()) + " open");
    vh::tick();
  }
}
