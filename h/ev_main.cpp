// A04 futures, A05 select.
#include "conc.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/future.h"
#include "arpc/pipe.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/semaphore.h"
#include "arpc/wait.h"

using namespace std::chrono_literals;
using steady = std::chrono::steady_clock;
namespace {
std::atomic<int> live{0};  // Values and functors.
void set_noise(vh::Rng& r) {
  faults::delay_permille = r.chance(1, 3) ? 0 : static_cast<int>(r.below(300));
  faults::delay_max_us = 150;
  faults::eintr_permille = r.chance(1, 3) ? static_cast<int>(r.below(200)) : 0;
}
void no_noise() { faults::delay_permille = 0; faults::eintr_permille = 0; }

struct E0 : std::runtime_error { using runtime_error::runtime_error; };
struct E1 : E0 { using E0::E0; };
struct E2 : std::exception {
  std::string w;
  explicit E2(std::string s) : w(std::move(s)) {}
  const char* what() const noexcept override { return w.c_str(); }
};

// What a value, an exception or nothing looks like to the checks.
struct Out {
  int kind = 0;  // 0 value, 1 E0, 2 E1, 3 E2, 4 invalid_state, 5 try_again, 6 other arpc error
  std::string s;
  bool operator==(const Out& o) const { return kind == o.kind && s == o.s; }
  std::string show() const {
    static const char* n[] = {"value ", "E0 ", "E1 ", "E2 ", "invalid state ", "try again ", "other error "};
    return std::string(n[kind]) + s;
  }
};
template <typename F>
Out outcome(F f) {
  try {
    return {0, f()};
  } catch (const E1& e) {
    return {2, e.what()};
  } catch (const E0& e) {
    return {1, e.what()};
  } catch (const E2& e) {
    return {3, e.what()};
  } catch (const arpc::errors::invalid_state&) {
    return {4, ""};
  } catch (const arpc::errors::try_again&) {
    return {5, ""};
  } catch (const arpc::errors::base_error& e) {
    return {6, e.what()};
  }
}
[[noreturn]] void throw_kind(int kind, const std::string& s) {
  switch (kind) {
    case 1: throw E0(s);
    case 2: throw E1(s);
    case 3: throw E2(s);
    case 4: throw arpc::errors::invalid_state(s);
    default: throw arpc::errors::data_mismatch(s);
  }
}

// A value that only moves, counted.
struct Val {
  std::unique_ptr<std::string> s;
  Val() { live.fetch_add(1, std::memory_order_relaxed); }
  explicit Val(std::string x) : s(std::make_unique<std::string>(std::move(x))) { live.fetch_add(1, std::memory_order_relaxed); }
  Val(Val&& o) : s(std::move(o.s)) { live.fetch_add(1, std::memory_order_relaxed); }
  Val& operator=(Val&& o) { s = std::move(o.s); return *this; }
  ~Val() { live.fetch_sub(1, std::memory_order_relaxed); }
  std::string str() const { return s ? *s : std::string("(moved)"); }
};
// A value that can be copied, and throws while being copied when told to.
struct Cop {
  static inline std::atomic<int> bomb{0};
  std::string s;
  Cop() { live.fetch_add(1, std::memory_order_relaxed); }
  explicit Cop(std::string x) : s(std::move(x)) { live.fetch_add(1, std::memory_order_relaxed); }
  Cop(const Cop& o) : s(o.s) {
    if (bomb.load(std::memory_order_relaxed) > 0 && bomb.fetch_sub(1, std::memory_order_relaxed) == 1) throw E2("bomb");
    live.fetch_add(1, std::memory_order_relaxed);
  }
  Cop(Cop&& o) noexcept : s(std::move(o.s)) { o.s = "(moved)"; live.fetch_add(1, std::memory_order_relaxed); }
  Cop& operator=(const Cop& o) {
    if (bomb.load(std::memory_order_relaxed) > 0 && bomb.fetch_sub(1, std::memory_order_relaxed) == 1) throw E2("bomb");
    s = o.s;
    return *this;
  }
  Cop& operator=(Cop&& o) noexcept { s = std::move(o.s); o.s = "(moved)"; return *this; }
  ~Cop() { live.fetch_sub(1, std::memory_order_relaxed); }
  std::string str() const { return s; }
};
// Makes functors counted, too.
struct Ticket {
  Ticket() { live.fetch_add(1, std::memory_order_relaxed); }
  Ticket(Ticket&&) { live.fetch_add(1, std::memory_order_relaxed); }
  Ticket(const Ticket&) { live.fetch_add(1, std::memory_order_relaxed); }
  ~Ticket() { live.fetch_sub(1, std::memory_order_relaxed); }
};

template <typename T> struct Kind {
  static T make(std::string s) { return T(std::move(s)); }
  static std::string str(const T& t) { return t.str(); }
};
template <> struct Kind<std::string> {
  static std::string make(std::string s) { return s; }
  static std::string str(const std::string& s) { return s; }
};
template <> struct Kind<bool> {  // Values that convert to bool on their own.
  static bool make(const std::string& s) { return s.size() % 2 == 1; }
  static std::string str(bool b) { return b ? "true" : "false"; }
};

// ---------------------------------------------------------------- A04
struct Step {
  int op;  // 0 append, 1 append and throw `arg` sometimes, 2 except<E0>, 3 except<E1>, 4 except<E2>, 5 decorate, 6 decorate and swallow, 7 through another type
  int arg;
  std::string tag;
};
std::atomic<int> step_calls{0};

Out apply_model(Out o, const std::vector<Step>& steps, int* calls) {
  for (auto& st : steps) {
    switch (st.op) {
      case 0: case 7:
        if (o.kind == 0) { o.s += st.tag; ++*calls; }
        break;
      case 1:
        if (o.kind == 0) { ++*calls; o = {st.arg, o.s + st.tag}; }
        break;
      case 2: if (o.kind == 1 || o.kind == 2) { ++*calls; o = {0, o.s + st.tag}; } break;
      case 3: if (o.kind == 2) { ++*calls; o = {0, o.s + st.tag}; } break;
      case 4: if (o.kind == 3) { ++*calls; o = {0, o.s + st.tag}; } break;
      case 5: ++*calls; if (o.kind == 0) o.s = "<" + o.s + ">" + st.tag; break;
      case 6: ++*calls; if (o.kind != 0) o = {0, "swallowed " + std::to_string(o.kind) + st.tag}; break;
    }
  }
  return o;
}
template <typename T>
arpc::future<T> apply_step(arpc::future<T> f, const Step& st) {
  using K = Kind<T>;
  Ticket k;
  auto called = [] { step_calls.fetch_add(1, std::memory_order_relaxed); };
  switch (st.op) {
    case 0: {
      auto fn = [k, called, tag = st.tag](T v) { called(); return K::make(K::str(v) + tag); };
      if (st.arg % 2) return f.then(fn);
      return f.then(std::move(fn));
    }
    case 1: return f.then([k, called, st](T v) -> T { called(); throw_kind(st.arg, K::str(v) + st.tag); });
    case 2: return f.template except<E0>([k, called, st](const E0& e) { called(); return K::make(e.what() + st.tag); });
    case 3: {
      auto fn = [k, called, st](const E1& e) { called(); return K::make(e.what() + st.tag); };
      return f.template except<E1>(fn);
    }
    case 4: return f.template except<E2>([k, called, st](const E2& e) { called(); return K::make(e.what() + st.tag); });
    case 5: return f.decorate([k, called, st](auto& in, auto&&... a) { called(); return K::make("<" + K::str(in(std::forward<decltype(a)>(a)...)) + ">" + st.tag); });
    case 6: {
      auto fn = [k, called, st](auto& in, auto&&... a) {
        called();
        Out o;
        T r = K::make("");
        o = outcome([&] { r = in(std::forward<decltype(a)>(a)...); return std::string(); });
        if (o.kind == 0) return r;
        return K::make("swallowed " + std::to_string(o.kind) + st.tag);
      };
      return f.decorate(std::move(fn));
    }
    default: {
      // Through a move-only type, nothing, and back.
      auto box = std::make_shared<std::string>();
      auto f1 = f.then([k](T v) { return std::make_unique<std::string>(K::str(v)); });
      auto f2 = f1.then([k, box](std::unique_ptr<std::string> p) { *box = *p; });
      return f2.then([k, box, called, st] { called(); return K::make(*box + st.tag); });
    }
  }
}

template <typename T>
void future_sequential(vh::Rng& r, const char* type_name) {
  using K = Kind<T>;
  constexpr int n = 3;
  struct P {
    std::optional<arpc::promise<T>> p;
    std::shared_ptr<std::optional<Out>> cell;  // Null when the outcome has been given.
    std::shared_ptr<std::optional<Out>> fut;   // What get_future() refers to; null if taken.
  };
  struct F {
    std::optional<arpc::future<T>> f;
    std::shared_ptr<std::optional<Out>> cell;  // Null when empty.
    bool consumed = false;
    std::vector<Step> steps;
  };
  std::array<P, n> ps;
  std::array<F, n> fs;
  std::string log;
  std::uint64_t sig = vh::hash_str(type_name);
  int counter = 0;
  auto broken = [](P& p) {
    if (p.p && p.cell) *p.cell = Out{4, ""};
    p.cell.reset();
    p.fut.reset();
  };
  auto consume_model = [&](F& f, bool block) -> Out {
    if (!f.cell) return {4, ""};
    if (!*f.cell || f.consumed) return block ? Out{6, "blocked"} : Out{5, ""};
    f.consumed = true;
    return **f.cell;
  };
  const int ops = 20 + static_cast<int>(r.below(60));
  int resolved = 0;
  for (int i = 0; i < ops; i++) {
    int a = static_cast<int>(r.below(n)), b = static_cast<int>(r.below(n));
    static const int weights[] = {0, 0, 2, 2, 2, 4, 4, 5, 6, 7, 8, 9, 10, 10, 10, 10, 10, 10, 10, 10, 11, 12, 12, 12, 12, 12};
    int op = weights[r.below(std::size(weights))];
    // Mostly, what makes progress.
    if (r.chance(2, 3)) {
      if (!ps[a].p) op = 0;
      else if (ps[a].fut) op = fs[b].cell && !fs[b].consumed ? 10 : 2;
      else if (op < 4 && ps[a].cell) op = 10;
    }
    log += std::to_string(op) + ":" + std::to_string(a) + std::to_string(b) + " ";
    sig = vh::hcomb(sig, static_cast<std::uint64_t>(op * 16 + a * 4 + b));
    auto& p = ps[a];
    auto& f = fs[b];
    std::string v = "v" + std::to_string(counter++);
    auto expect_unset = [&](auto fn) {
      // Gives the outcome, or must be refused.
      const bool can = p.p && p.cell;
      if (!p.p) return;
      Out o = outcome([&] { fn(); return std::string(); });
      VH_CHECK(o.kind == (can ? 0 : 4), "A04:second-outcome", std::string(type_name) + " " + log + ": " + o.show());
    };
    switch (op) {
      case 0: case 1:
        broken(p);
        if (r.chance(1, 2) || !p.p) p.p.emplace();
        else *p.p = arpc::promise<T>();
        p.cell = p.fut = std::make_shared<std::optional<Out>>();
        break;
      case 2: case 3:
        if (!p.p) break;
        f.f.reset();
        f.f.emplace(p.p->get_future());
        f.cell = p.fut;
        p.fut.reset();
        f.consumed = false;
        f.steps.clear();
        break;
      case 4: {
        expect_unset([&] { p.p->set_value(K::make(v)); });
        if (p.p && p.cell) { *p.cell = Out{0, K::str(K::make(v))}; p.cell.reset(); resolved++; }
        break;
      }
      case 5: {
        int kind = 1 + static_cast<int>(r.below(4));
        std::exception_ptr x;
        try { throw_kind(kind, v); } catch (...) { x = std::current_exception(); }
        expect_unset([&] { p.p->set_exception(x); });
        if (p.p && p.cell) { *p.cell = Out{kind, kind == 4 ? "" : v}; p.cell.reset(); resolved++; }
        break;
      }
      case 6: {
        arpc::result_holder<T> h;
        Out o{0, K::str(K::make(v))};
        if (r.chance(1, 2)) {
          h.set_value(K::make(v));
        } else {
          o = {1 + static_cast<int>(r.below(3)), v};
          try { throw_kind(o.kind, v); } catch (...) { h.set_exception(std::current_exception()); }
        }
        expect_unset([&] { p.p->set(std::move(h)); });
        if (p.p && p.cell) { *p.cell = o; p.cell.reset(); resolved++; }
        break;
      }
      case 7:  // Move between slots.
        if (a != b && p.p) {
          auto& q = ps[b];
          broken(q);
          if (q.p && r.chance(1, 2)) *q.p = std::move(*p.p);
          else q.p.emplace(std::move(*p.p));
          q.cell = std::move(p.cell);
          q.fut = std::move(p.fut);
          p.cell.reset();
          p.fut.reset();
        } else if (p.p && r.chance(1, 2)) {
          auto& self = *p.p;
          *p.p = std::move(self);
        }
        break;
      case 8:
        broken(p);
        p.p.reset();
        break;
      case 9: f = F(); if (r.chance(1, 3)) f.f.emplace(); break;
      case 10:  // Transform.
        if (f.f && f.cell) {
          Step st{static_cast<int>(r.below(8)), 1 + static_cast<int>(r.below(3)), "." + std::to_string(counter)};
          if constexpr (std::is_same_v<T, bool>) st.op = r.chance(1, 2) ? 6 : 3;  // Nothing that needs text.
          if constexpr (std::is_same_v<T, bool>) break;
          auto g = apply_step(std::move(*f.f), st);
          if (r.chance(1, 2)) f.f.emplace(std::move(g));
          else *f.f = std::move(g);
          f.steps.push_back(st);
        }
        break;
      case 11: {  // Move futures.
        auto& g = fs[a];
        if (a != b && g.f) {
          if (f.f && r.chance(1, 2)) *f.f = std::move(*g.f);
          else { f.f.reset(); f.f.emplace(std::move(*g.f)); }
          f.cell = std::move(g.cell);
          f.consumed = g.consumed;
          f.steps = std::move(g.steps);
          g.cell.reset();
          g.f.reset();
        }
        break;
      }
      default:
        if (f.f) {
          const int how = static_cast<int>(r.below(5));
          int want_calls = 0, before = step_calls.load();
          bool ready = f.cell && *f.cell && !f.consumed;
          if (how == 4) {
            if (!f.cell) break;
            auto [x, y] = arpc::select(f.f->can_get(), arpc::always());
            VH_CHECK(x.has_value() == ready && y, "A04:can-get", std::string(type_name) + " " + log);
            break;
          }
          Out want = consume_model(f, how == 1 || how == 2), got;
          bool attempted = want.kind != 5 && !(want.kind == 6 && want.s == "blocked") && f.cell;
          if (attempted) want = apply_model(want, f.steps, &want_calls);
          else if (want.kind == 5) {
            // The steps see the attempt fail.
            Out w = apply_model({5, ""}, f.steps, &want_calls);
            want = w;
          } else if (!f.cell) {
            want_calls = 0;
          }
          switch (how) {
            case 0: got = outcome([&] { return K::str(f.f->maybe_get()); }); break;
            case 1: case 2: {
              bool swallow = false;
              for (auto& st : f.steps) swallow |= st.op == 6;
              (void)swallow;
              arpc::context c;
              c.set_timeout(ready || !f.cell ? 60s : 1ms);
              got = outcome([&]() -> std::string {
                try {
                  if (how == 1) return K::str(f.f->get());
                  auto [x] = arpc::select(f.f->async_get());
                  VH_CHECK(x.has_value(), "A04:select-without-result", log);
                  return K::str(*x);
                } catch (const arpc::errors::deadline_exceeded&) {
                  throw arpc::errors::unavailable("blocked");
                }
              });
              break;
            }
            case 3: {
              if (!f.cell) { got = want; break; }
              auto [x, y] = arpc::select(f.f->async_get(), arpc::always());
              VH_CHECK(static_cast<bool>(y), "A04:always-not-ready", log);
              if (ready) {
                VH_CHECK(x.has_value(), "A04:not-ready", log);
                got = outcome([&] { return K::str(*x); });
              } else {
                VH_CHECK(!x.has_value(), "A04:ready-too-soon", log);
                got = want;
                want_calls = 0;
              }
              break;
            }
          }
          if (how == 1 || how == 2) { if (!attempted) want_calls = 0; }
          VH_CHECK(got == want, "A04:outcome", std::string(type_name) + " how " + std::to_string(how) + " " + log + "\nexpected " + want.show() + "\ngot " + got.show());
          VH_CHECK(step_calls.load() - before == want_calls, "A04:transformations-run",
                   std::string(type_name) + " " + log + ": " + std::to_string(step_calls.load() - before) + " calls, expected " + std::to_string(want_calls));
          vh::stat(ready ? "future outcomes compared" : "future empty or pending gets");
          if (ready) vh::stat_max("longest transformation chain", f.steps.size());
        }
    }
  }
  vh::eval(sig, resolved > 0);
  // Everything goes, in any order.
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 2)) { fs[i].f.reset(); broken(ps[i]); ps[i].p.reset(); }
    else { broken(ps[i]); ps[i].p.reset(); fs[i].f.reset(); }
  }
}

void future_void_sequential(vh::Rng& r) {
  std::string log;
  for (int how = 0; how < 4; how++) {
    Ticket k;
    std::vector<int> calls;
    auto p = std::make_unique<arpc::promise<void>>();
    auto f0 = p->get_future();
    std::vector<int> want;
    Out want_out{0, "done"};
    auto f1 = f0.then([k, &calls] { calls.push_back(1); });
    auto f2 = f1.except<E0>([k, &calls](const E0&) { calls.push_back(2); });
    auto f3 = f2.then([k, &calls] { calls.push_back(3); return Val("x"); });
    auto f4 = f3.decorate([k, &calls](auto& in, auto&&... a) { calls.push_back(4); auto v = in(std::forward<decltype(a)>(a)...); calls.push_back(5); return v; });
    auto f5 = f4.then([k, &calls](Val v) { calls.push_back(6); (void)v; });
    bool late = r.chance(1, 2);
    auto give = [&] {
      switch (how) {
        case 0: p->set_value(); break;
        case 1: p->set_exception(std::make_exception_ptr(E1("e"))); break;
        case 2: p->set_exception(std::make_exception_ptr(E2("e"))); break;
        case 3: p.reset(); break;
      }
    };
    switch (how) {
      case 0: want = {4, 1, 3, 5, 6}; break;
      case 1: want = {4, 2, 3, 5, 6}; break;
      case 2: want = {4}; want_out = {3, "e"}; break;
      case 3: want = {4}; want_out = {4, ""}; break;
    }
    if (late) {
      VH_CHECK(outcome([&] { f5.maybe_get(); return std::string("done"); }).kind == 5, "A04:ready-too-soon", "void");
      VH_CHECK(calls == std::vector<int>{4}, "A04:transformations-run", "void, not ready");
      calls.clear();
    }
    give();
    bool g = r.chance(1, 2);
    Out got = outcome([&] { if (g) f5.get(); else f5.maybe_get(); return std::string("done"); });
    VH_CHECK(got == want_out, "A04:outcome", "void " + std::to_string(how) + ": " + got.show());
    VH_CHECK(calls == want, "A04:transformations-run", "void " + std::to_string(how));
    VH_CHECK(outcome([&] { f0.maybe_get(); return std::string(); }).kind == 4, "A04:empty-future", "a future whose outcome went elsewhere");
    if (p) {
      VH_CHECK(outcome([&] { p->set_value(); return std::string(); }).kind == 4, "A04:second-outcome", "void");
      VH_CHECK(outcome([&] { p->set_exception(std::make_exception_ptr(E1("e"))); return std::string(); }).kind == 4, "A04:second-outcome", "void");
    }
    vh::eval(vh::hcomb(static_cast<std::uint64_t>(how), late * 2 + g), true);
  }
  // Use of empty futures.
  arpc::future<void> fv;
  arpc::future<Val> fl;
  VH_CHECK(outcome([&] { fv.maybe_get(); return std::string(); }).kind == 4, "A04:empty-future", "void maybe_get");
  VH_CHECK(outcome([&] { fv.get(); return std::string(); }).kind == 4, "A04:empty-future", "void get");
  VH_CHECK(outcome([&] { fl.get(); return std::string(); }).kind == 4, "A04:empty-future", "get");
  VH_CHECK(outcome([&] { auto a = fl.async_get(); return std::string(); }).kind == 4, "A04:empty-future", "async_get");
  VH_CHECK(outcome([&] { auto a = fv.can_get(); return std::string(); }).kind == 4, "A04:empty-future", "can_get");
  // A value that cannot be copied leaves the promise as it was.
  arpc::promise<Cop> pc;
  auto fc = pc.get_future();
  Cop c("kept");
  Cop::bomb = 1;
  VH_CHECK(outcome([&] { pc.set_value(c); return std::string(); }).kind == 3, "A04:failed-set", "");
  Cop::bomb = 0;
  VH_CHECK(outcome([&] { fc.maybe_get(); return std::string(); }).kind == 5, "A04:failed-set", "ready after a set that failed");
  VH_CHECK(outcome([&] { pc.set_value(c); return std::string(); }).kind == 0, "A04:failed-set", "set after one that failed");
  VH_CHECK(c.s == "kept", "A04:source-changed", "set_value(lvalue)");
  VH_CHECK(outcome([&] { return fc.get().s; }) == (Out{0, "kept"}), "A04:failed-set", "");
}

// Two to four threads around one pair.
template <typename T>
void future_concurrent(vh::Rng& r, const char* type_name) {
  using K = Kind<T>;
  std::uint64_t seed = r.next();
  const int how_set = static_cast<int>(r.below(5)), how_get = static_cast<int>(r.below(6)), readers = how_get == 4 ? 3 : 1;
  const bool context_gone = r.chance(1, 4);
  auto p = std::make_unique<arpc::promise<T>>();
  auto f = std::make_unique<arpc::future<T>>(p->get_future());
  std::atomic<int> got_outcome{0}, got_nothing{0};
  std::string data;  // Written before the outcome is given, read after it is had.
  std::array<Out, 4> outs;
  for (auto& o : outs) o.kind = -1;
  if (how_get == 5) {
    auto g = f->then([&data](T v) { return K::make(K::str(v) + data); });
    *f = std::move(g);
  }
  Out want{0, "value"};
  if (how_set == 1) want = {1, "error"};
  if (how_set == 2 || how_set == 4) want = {4, ""};
  if (how_get == 5 && want.kind == 0) want.s = "valuedata";
  hist::run_threads(1 + readers, seed, [&](int who) {
    faults::jitter(600);
    if (who == 0) {
      arpc::context c;
      if (context_gone) c.cancel();
      data = "data";
      switch (how_set) {
        case 0: p->set_value(K::make("value")); break;
        case 1: p->set_exception(std::make_exception_ptr(E0("error"))); break;
        case 2: p.reset(); break;
        case 3: { arpc::result_holder<T> h; h.set_value(K::make("value")); p->set(std::move(h)); break; }
        case 4: *p = arpc::promise<T>(); break;
      }
      faults::jitter(300);
      p.reset();
      return;
    }
    auto& o = outs[who - 1];
    switch (how_get) {
      case 0: case 5: o = outcome([&] { return K::str(f->get()); }); break;
      case 1:
        do {
          o = outcome([&] { return K::str(f->maybe_get()); });
          if (o.kind == 5) sched_yield();
        } while (o.kind == 5);
        break;
      case 2: f.reset(); break;
      case 3: {
        try {
          arpc::context c;
          c.set_timeout(std::chrono::milliseconds(faults::rnd() % 2));
          o = outcome([&]() -> std::string {
            try { return K::str(f->get()); }
            catch (const arpc::errors::deadline_exceeded&) { throw arpc::errors::try_again(""); }
          });
        } catch (...) {}
        if (o.kind == 5) o = outcome([&] { return K::str(f->get()); });
        break;
      }
      case 4:
        for (;;) {
          o = outcome([&] { return K::str(f->maybe_get()); });
          if (o.kind != 5) { got_outcome.fetch_add(1); break; }
          if (got_outcome.load(std::memory_order_relaxed)) { got_nothing.fetch_add(1); break; }
          sched_yield();
        }
        break;
    }
    if (o.kind == 0) {
      // Unsynchronised except through the pair.
      VH_CHECK(data == "data", "A04:stale-data", "");
    }
    if (how_get != 4) { faults::jitter(300); f.reset(); }
  });
  f.reset();
  if (how_get == 4) {
    VH_CHECK(got_outcome.load() == 1, "A04:outcome-given-more-than-once", std::string(type_name) + ": " + std::to_string(got_outcome.load()));
    for (auto& o : outs) if (o.kind >= 0 && o.kind != 5) VH_CHECK(o == want, "A04:outcome", std::string(type_name) + " concurrent: " + o.show());
  } else if (how_get != 2) {
    VH_CHECK(outs[0] == want, "A04:outcome", std::string(type_name) + " concurrent set " + std::to_string(how_set) + " get " + std::to_string(how_get) + ": got " + outs[0].show() + ", expected " + want.show());
  }
  vh::stat("future pairs raced");
  vh::eval(vh::hcomb(vh::hash_str(type_name), static_cast<std::uint64_t>(how_set * 8 + how_get) * 4 + context_gone), true);
}

void futures_many(vh::Rng& r) {
  // Many pairs between two groups of threads, each outcome exactly once, any order.
  constexpr int n = 60;
  std::vector<arpc::promise<int>> ps(n);
  std::vector<arpc::future<int>> fs;
  std::array<std::atomic<int>, n> payload{};
  for (auto& p : ps) fs.push_back(p.get_future());
  std::uint64_t seed = r.next();
  std::array<int, n> got{};
  std::atomic<int> next_set{0}, next_get{0};
  std::vector<int> order(n);
  for (int i = 0; i < n; i++) order[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(order[i], order[static_cast<int>(r.below(static_cast<std::uint64_t>(i) + 1))]);
  hist::run_threads(4, seed, [&](int who) {
    if (who < 2) {
      int i;
      while ((i = next_set.fetch_add(1, std::memory_order_relaxed)) < n) {
        faults::jitter(100);
        if (i % 7 == 3) ps[i].set_exception(std::make_exception_ptr(E0(std::to_string(i))));
        else if (i % 7 == 5) { auto p = std::move(ps[i]); }
        else ps[i].set_value(i * 3);
      }
    } else {
      int i;
      while ((i = next_get.fetch_add(1, std::memory_order_relaxed)) < n) {
        int j = order[i];
        Out o = outcome([&] { got[j] = fs[j].get(); return std::string("v"); });
        if (j % 7 == 3) VH_CHECK(o == (Out{1, std::to_string(j)}), "A04:outcome", "pair " + std::to_string(j) + ": " + o.show());
        else if (j % 7 == 5) VH_CHECK(o.kind == 4, "A04:outcome", "pair " + std::to_string(j) + ": " + o.show());
        else VH_CHECK(o.kind == 0 && got[j] == j * 3, "A04:outcome", "pair " + std::to_string(j) + ": " + o.show());
      }
    }
  });
  vh::stat("future pairs raced", n);
  vh::eval(vh::hcomb(n, seed), true);
}

void a04() {
  vh::Rng r(vh::seed());
  const int rounds = vh::scale(600, 6000);
  arpc::wait(arpc::always());
  const auto base_fds = faults::open_fds().size();  // The top context's.
  for (int i = 0; i < rounds; i++) {
    vh::mark("A04 round " + std::to_string(i));
    no_noise();
    auto base = live.load();
    future_sequential<Val>(r, "move-only");
    future_sequential<std::string>(r, "string");
    future_sequential<Cop>(r, "copyable");
    if (i % 4 == 0) future_sequential<bool>(r, "bool");
    if (i % 8 == 0) future_void_sequential(r);
    VH_CHECK(live.load() == base, "A04:leak", std::to_string(live.load() - base) + " values and functors alive after a sequential round");
    set_noise(r);
    for (int k = 0; k < 3; k++) {
      future_concurrent<Val>(r, "move-only");
      future_concurrent<std::string>(r, "string");
    }
    if (i % 10 == 0) futures_many(r);
    VH_CHECK(live.load() == base, "A04:leak", std::to_string(live.load() - base) + " values and functors alive after a concurrent round");
    VH_CHECK(faults::open_fds().size() <= base_fds, "A04:descriptor-leak", std::to_string(faults::open_fds().size()) + " open");
    vh::tick();
  }
  vh::stat("transformations run", static_cast<std::uint64_t>(step_calls.load()));
}

// ---------------------------------------------------------------- A05
enum Src { s_never, s_always, s_timer, s_past, s_flag_on, s_flag_off, s_pipe_data, s_pipe_empty, s_pipe_eof, s_pipe_room, s_pipe_full, s_queue_item, s_queue_empty, s_polling, s_sem, s_count };
const char* const src_names[] = {"never", "always", "timer", "past deadline", "set flag", "clear flag", "pipe with data", "empty pipe", "pipe at its end", "pipe with room", "full pipe", "queue with item", "empty queue", "polling", "semaphore"};
enum React { r_value, r_throw, r_again, r_again_always, r_caught, r_wrapped, r_count };
const char* const react_names[] = {"value", "throws", "try again, then value", "always try again", "throws, caught", "decorated"};
struct Input {
  int src = 0, react = 0, tag = 0, again = 0;
  int ms = 0;
  // Log.
  int calls = 0, value_calls = 0, handler_calls = 0;
  std::vector<steady::time_point> at;
  // Things waited on.
  arpc::flag flag;
  arpc::channel pipe[2];
  std::unique_ptr<arpc::queue<int>> q;
  std::unique_ptr<arpc::queue<void>> sem;
  bool ready() const {  // Ready at once and all the time.
    switch (src) {
      case s_always: case s_past: case s_flag_on: case s_pipe_data: case s_pipe_eof: case s_pipe_room: case s_queue_item: case s_sem: return true;
      case s_timer: case s_polling: return ms == 0;
      default: return false;
    }
  }
  bool timed() const { return (src == s_timer || src == s_polling) && ms > 0; }
  bool yields() const { return react != r_again_always; }
  std::string show() const { return std::string(src_names[src]) + (timed() ? " " + std::to_string(ms) + "ms" : "") + " / " + react_names[react] + (react == r_again ? " " + std::to_string(again) : ""); }
};
void prepare(Input& in, vh::Rng& r) {
  in.src = static_cast<int>(r.below(s_count));
  in.react = r.chance(1, 2) ? r_value : static_cast<int>(r.below(r_count));
  in.tag = static_cast<int>(r.below(1000000));
  in.again = 1 + static_cast<int>(r.below(4));
  in.ms = r.chance(1, 5) ? 0 : static_cast<int>(r.below(r.chance(1, 6) ? 100000 : 25));
  switch (in.src) {
    case s_flag_on: in.flag.set(); break;
    case s_pipe_data: arpc::pipe(in.pipe); in.pipe[1].write("x", 1); break;
    case s_pipe_empty: arpc::pipe(in.pipe); break;
    case s_pipe_eof: arpc::pipe(in.pipe); in.pipe[1].close(); break;
    case s_pipe_room: arpc::pipe(in.pipe); break;
    case s_pipe_full: {
      arpc::pipe(in.pipe);
      in.pipe[1].make_non_blocking();
      std::vector<char> buf(65536);
      try { for (;;) in.pipe[1].maybe_write(buf.data(), buf.size()); } catch (const arpc::errors::try_again&) {}
      break;
    }
    case s_queue_item: in.q = std::make_unique<arpc::queue<int>>(4); in.q->put(7); break;
    case s_queue_empty: in.q = std::make_unique<arpc::queue<int>>(4); break;
    case s_sem: in.sem = std::make_unique<arpc::queue<void>>(2); break;
  }
}
arpc::awaitable<void> source(Input& in) {
  switch (in.src) {
    case s_never: return arpc::never();
    case s_always: return arpc::always();
    case s_timer: return arpc::timeout(std::chrono::milliseconds(in.ms));
    case s_polling: return arpc::polling(std::chrono::milliseconds(in.ms));
    case s_past: return arpc::deadline(std::chrono::system_clock::now() - 5ms);
    case s_flag_on: case s_flag_off: return in.flag.async_wait();
    case s_pipe_data: case s_pipe_empty: case s_pipe_eof: return in.pipe[0].can_read();
    case s_pipe_room: case s_pipe_full: return in.pipe[1].can_write();
    case s_queue_item: case s_queue_empty: return in.q->can_get();
    default: return in.sem->can_put();
  }
}
template <typename T> T tagged(int tag);
template <> int tagged<int>(int t) { return t; }
template <> std::string tagged<std::string>(int t) { return "tag " + std::to_string(t); }
template <> Val tagged<Val>(int t) { return Val("tag " + std::to_string(t)); }
template <> void tagged<void>(int) {}
std::string text(int t) { return std::to_string(t); }
std::string text(const std::string& t) { return t; }
std::string text(const Val& v) { return v.str(); }
template <typename T> std::string tag_text(int tag) {
  if constexpr (std::is_void_v<T>) return "";
  else return text(tagged<T>(tag));
}

template <typename T>
arpc::awaitable<T> input(Input& in) {
  Ticket k;
  auto body = [&in, k]() -> T {
    in.calls++;
    in.at.push_back(steady::now());
    switch (in.react) {
      case r_throw: case r_caught: in.value_calls++; throw E1("thrown " + std::to_string(in.tag));
      case r_again: if (in.calls <= in.again) throw arpc::errors::try_again("later"); break;
      case r_again_always: throw arpc::errors::try_again("later");
    }
    in.value_calls++;
    return tagged<T>(in.tag);
  };
  if (in.src == s_queue_item && (in.react == r_value || in.react == r_wrapped)) {
    // Takes the item.
    auto a = in.q->async_get().then([body](int x) mutable -> T { VH_CHECK(x == 7, "A05:wrong-value", "item"); return body(); });
    return a.then([k](auto&&... v) -> T { if constexpr (!std::is_void_v<T>) return (std::move(v), ...); });
  }
  auto a = source(in).then(body);
  if (in.react == r_caught) {
    return a.template except<E0>([&in, k](const E0&) -> T { in.handler_calls++; return tagged<T>(in.tag); });
  }
  if (in.react == r_wrapped) {
    return a.decorate([&in, k](auto& f) -> T { in.handler_calls++; return f(); });
  }
  return a;
}

struct Verdict {
  bool any = false;
  std::uint64_t sig = 5;
};
// Checks one slot of the result.
template <typename T>
void check_slot(Input& in, arpc::result_holder<T>& slot, steady::time_point begin, steady::time_point end, Verdict& v, int polling_ms, const std::string& all) {
  const bool set = slot.has_value();
  v.any |= set;
  v.sig = vh::hcomb(v.sig, static_cast<std::uint64_t>(((in.src * 8 + in.react) * 2 + set) * 8 + std::min(in.calls, 7)));
  const std::string what = in.show() + " in " + all;
  const int wasted = in.calls - in.value_calls;
  VH_CHECK(in.value_calls <= 1, "A05:reaction-ran-twice", what + ": " + std::to_string(in.value_calls));
  VH_CHECK(in.value_calls == (set ? 1 : 0), set ? "A05:result-without-reaction" : "A05:result-lost", what);
  if (!in.ready() && !in.timed()) {
    VH_CHECK(in.calls == 0 && !set, "A05:not-ready-reported", what);
    return;
  }
  if (in.react != r_again && in.react != r_again_always) VH_CHECK(wasted == 0, "A05:reaction-ran-twice", what);
  if (in.react == r_again && set) VH_CHECK(in.calls == in.again + 1, "A05:reaction-count", what + ": " + std::to_string(in.calls));
  if (in.timed()) {
    // The n-th call of a timer's reaction comes no earlier than n times its time.
    int period = in.src == s_polling ? polling_ms : in.ms;
    for (std::size_t i = 0; i < in.at.size(); i++) {
      VH_CHECK(in.at[i] - begin >= std::chrono::milliseconds(period) * static_cast<int>(i + 1), "A05:timer-early",
               what + ": call " + std::to_string(i + 1) + " after " + std::to_string(std::chrono::duration_cast<std::chrono::microseconds>(in.at[i] - begin).count()) + "us");
    }
    if (set) VH_CHECK(end - begin >= std::chrono::milliseconds(period), "A05:timer-early", what);
  } else if (in.yields() && in.react != r_again) {
    VH_CHECK(set, "A05:ready-not-reported", what);
  } else {
    VH_CHECK(in.calls >= 1, "A05:ready-not-tried", what);
  }
  if (!set) return;
  if (in.react == r_throw) {
    Out o = outcome([&]() -> std::string { if constexpr (std::is_void_v<T>) { *slot; return ""; } else return text(*slot); });
    VH_CHECK(o == (Out{2, "thrown " + std::to_string(in.tag)}), "A05:wrong-exception", what + ": " + o.show());
    vh::stat("select slots with an exception");
  } else {
    Out o = outcome([&]() -> std::string { if constexpr (std::is_void_v<T>) { *slot; return ""; } else return text(*slot); });
    VH_CHECK(o == (Out{0, tag_text<T>(in.tag)}), "A05:wrong-value", what + ": " + o.show());
    VH_CHECK(in.handler_calls == (in.react == r_caught || (in.react == r_wrapped && in.src != s_queue_item) ? 1 : 0), "A05:handler-count", what);
    vh::stat("select slots with a value");
  }
}

enum Ctx { c_plain, c_cancelled, c_expired, c_deadline, c_cancel_later, c_timeout_later, c_ctx_count };

// One select over random inputs, in a random context. SHAPE picks the argument types.
template <typename F>
void with_context(int ctx, int ms, F f) {
  if (ctx == c_plain) { f(); return; }
  arpc::context c;
  if (ctx == c_cancelled) c.cancel();
  if (ctx == c_expired) c.set_timeout(-1ms);
  if (ctx == c_deadline || ctx == c_timeout_later) c.set_timeout(std::chrono::milliseconds(ms));
  f();
}

void select_round(vh::Rng& r, int round) {
  constexpr int max_n = 10;
  const int shape = static_cast<int>(r.below(5));
  std::vector<std::unique_ptr<Input>> ins;
  const int vec_n = static_cast<int>(r.below(5)), n = 5 + (shape == 2 || shape == 3 || shape == 4 ? vec_n : 0);
  (void)max_n;
  for (int i = 0; i < n; i++) {
    ins.push_back(std::make_unique<Input>());
    prepare(*ins.back(), r);
  }
  const int used = shape == 0 ? 5 : shape == 1 ? 2 : shape == 2 ? 5 + vec_n : shape == 3 ? vec_n : 1 + vec_n;
  // Inputs the shape does not use must stay silent.
  for (int i = 0; i < n; i++) {
    bool u = shape == 0 ? i < 5 : shape == 1 ? i < 2 : shape == 2 ? true : shape == 3 ? i >= 5 : (i == 0 || i >= 5);
    if (!u) ins[i]->src = s_never;
  }
  bool some_end = false;  // Can the select return on its own?
  int polling_ms = 1 << 30;
  long worst = 0;
  bool polls = false;
  for (auto& i : ins) if (i->src == s_polling) { polls = true; polling_ms = std::min(polling_ms, i->ms); }
  for (auto& i : ins) {
    if ((i->ready() || i->timed()) && i->yields()) {
      int period = i->src == s_polling ? polling_ms : i->ms;
      long t = i->timed() ? static_cast<long>(period) * (i->react == r_again ? i->again + 1 : 1) : 0;
      if (t < 200 || i->ready()) { some_end = true; worst = std::max(worst, t); }
    }
  }
  (void)polls;
  int ctx = r.chance(1, 2) ? c_plain : static_cast<int>(r.below(c_ctx_count));
  const int ms = static_cast<int>(r.below(20));
  if (!some_end && (ctx == c_plain || ctx == c_ctx_count)) ctx = r.chance(1, 2) ? c_deadline : c_cancel_later;
  std::string all = "[";
  for (auto& i : ins) all += i->show() + "; ";
  all += "] shape " + std::to_string(shape) + " context " + std::to_string(ctx);
  // A reaction that always says try again on a ready input spins the loop; fine.
  arpc::context outer;
  std::thread canceller;
  std::atomic<bool> cancel_sent{false};
  if (ctx == c_cancel_later) {
    canceller = std::thread([&, us = r.below(15000)] {
      ::usleep(static_cast<unsigned>(us));
      cancel_sent.store(true, std::memory_order_relaxed);
      outer.cancel();
    });
  }
  Verdict v;
  int ended = 0;  // 1 cancelled, 2 deadline
  steady::time_point begin, end;
  auto sys_begin = std::chrono::system_clock::now();
  auto run = [&] {
    begin = steady::now();
    auto finish = [&](auto&... slots) {
      end = steady::now();
      (slots(), ...);
    };
    try {
      switch (shape) {
        case 0: {
          auto [a, b, c, d, e] = arpc::select(input<int>(*ins[0]), input<void>(*ins[1]), input<std::string>(*ins[2]), input<Val>(*ins[3]), input<int>(*ins[4]));
          end = steady::now();
          auto f = [&](int i, auto& s) { check_slot(*ins[i], s, begin, end, v, polling_ms, all); };
          f(0, a); f(1, b); f(2, c); f(3, d); f(4, e);
          break;
        }
        case 1: {
          auto x = input<Val>(*ins[0]);
          auto y = input<void>(*ins[1]);
          auto [a, b] = arpc::select(x, std::move(y));  // One of them stays ours.
          end = steady::now();
          check_slot(*ins[0], a, begin, end, v, polling_ms, all);
          check_slot(*ins[1], b, begin, end, v, polling_ms, all);
          break;
        }
        case 2: {
          std::vector<arpc::awaitable<Val>> vec;
          for (int i = 0; i < vec_n; i++) vec.push_back(input<Val>(*ins[5 + i]));
          auto [a, b, w, c, d, e] = arpc::select(input<int>(*ins[0]), input<void>(*ins[1]), std::move(vec), input<std::string>(*ins[2]), input<Val>(*ins[3]), input<void>(*ins[4]));
          end = steady::now();
          VH_CHECK(static_cast<int>(w.size()) == vec_n, "A05:vector-size", all);
          auto f = [&](int i, auto& s) { check_slot(*ins[i], s, begin, end, v, polling_ms, all); };
          f(0, a); f(1, b); f(2, c); f(3, d); f(4, e);
          for (int i = 0; i < vec_n && i < static_cast<int>(w.size()); i++) f(5 + i, w[i]);
          break;
        }
        case 3: {
          std::vector<arpc::awaitable<void>> vec;
          for (int i = 0; i < vec_n; i++) vec.push_back(input<void>(*ins[5 + i]));
          auto [w] = arpc::select(vec);
          end = steady::now();
          VH_CHECK(static_cast<int>(w.size()) == vec_n, "A05:vector-size", all);
          for (int i = 0; i < vec_n && i < static_cast<int>(w.size()); i++) check_slot(*ins[5 + i], w[i], begin, end, v, polling_ms, all);
          break;
        }
        default: {
          std::vector<arpc::awaitable<int>> v1;
          std::vector<arpc::awaitable<std::string>> v2;
          const int half = vec_n / 2;
          for (int i = 0; i < half; i++) v1.push_back(input<int>(*ins[5 + i]));
          for (int i = half; i < vec_n; i++) v2.push_back(input<std::string>(*ins[5 + i]));
          auto [w1, a, w2] = arpc::select(std::move(v1), input<int>(*ins[0]), std::move(v2));
          end = steady::now();
          VH_CHECK(static_cast<int>(w1.size()) == half && static_cast<int>(w2.size()) == vec_n - half, "A05:vector-size", all);
          check_slot(*ins[0], a, begin, end, v, polling_ms, all);
          for (int i = 0; i < half && i < static_cast<int>(w1.size()); i++) check_slot(*ins[5 + i], w1[i], begin, end, v, polling_ms, all);
          for (int i = half; i < vec_n && i - half < static_cast<int>(w2.size()); i++) check_slot(*ins[5 + i], w2[i - half], begin, end, v, polling_ms, all);
        }
      }
      (void)finish;
    } catch (const arpc::errors::cancelled&) {
      ended = 1;
    } catch (const arpc::errors::deadline_exceeded&) {
      ended = 2;
    }
  };
  with_context(ctx, ms, run);
  auto sys_end = std::chrono::system_clock::now();
  if (canceller.joinable()) canceller.join();
  if (ended) {
    VH_CHECK(ended == 1 ? ctx == c_cancelled || ctx == c_cancel_later : ctx == c_expired || ctx == c_deadline || ctx == c_timeout_later, "A05:wrong-end", all);
    if (ended == 1 && ctx == c_cancel_later) VH_CHECK(cancel_sent.load(std::memory_order_relaxed), "A05:wrong-end", "cancelled before it was");
    if (ended == 2 && ctx != c_expired) VH_CHECK(sys_end - sys_begin >= std::chrono::milliseconds(ms) - 1ms, "A05:deadline-early", all);
    // Nothing that had a result may have been run.
    for (auto& i : ins) {
      VH_CHECK(i->value_calls == 0, "A05:result-lost", i->show() + " ran in a select that ended otherwise; " + all);
      if (i->src == s_queue_item) VH_CHECK(i->q->size() == 1, "A05:item-lost", all);
      if (ctx == c_cancelled || ctx == c_expired) VH_CHECK(i->calls == 0, "A05:reaction-in-ended-context", i->show() + " in " + all);
    }
    vh::stat(ended == 1 ? "selects cancelled" : "selects past their deadline");
  } else {
    VH_CHECK(ctx != c_cancelled && ctx != c_expired, "A05:ended-context-ignored", all);
    VH_CHECK(v.any, "A05:nothing-reported", all);
    VH_CHECK(some_end || worst, "A05:returned-without-reason", all);
    for (auto& i : ins) {
      if (i->src == s_queue_item) {
        bool took = i->value_calls == 1 && (i->react == r_value || i->react == r_wrapped);
        VH_CHECK(i->q->size() == (took ? 0u : 1u), "A05:item-lost", all);
      }
    }
    vh::stat("selects returned");
  }
  for (auto& i : ins) {
    vh::stat("select reactions run", static_cast<std::uint64_t>(i->calls));
    vh::stat("select reactions that said try again", static_cast<std::uint64_t>(i->calls - i->value_calls));
  }
  v.sig = vh::hcomb(v.sig, static_cast<std::uint64_t>(ctx * 8 + ended) * 8 + static_cast<std::uint64_t>(shape));
  vh::eval(v.sig, used > 1);
  if (round < 3) vh::sample(all + (ended ? " -> ended" : " -> returned"));
}

// Timeouts, deadlines and cancellation apply however often reactions say try again.
void select_starved(vh::Rng& r) {
  Input in;
  in.src = r.chance(1, 2) ? s_flag_on : s_pipe_data;
  in.react = r_again_always;
  if (in.src == s_flag_on) in.flag.set();
  else { arpc::pipe(in.pipe); in.pipe[1].write("x", 1); }
  const int ms = 1 + static_cast<int>(r.below(10));
  auto begin = steady::now();
  switch (r.below(4)) {
    case 0: {
      auto [a, b] = arpc::select(input<int>(in), arpc::timeout(std::chrono::milliseconds(ms)));
      VH_CHECK(!a && b, "A05:starved", "");
      VH_CHECK(steady::now() - begin >= std::chrono::milliseconds(ms), "A05:timer-early", "");
      break;
    }
    case 1: {
      arpc::context c;
      c.set_timeout(std::chrono::milliseconds(ms));
      try { auto [a] = arpc::select(input<int>(in)); VH_CHECK(false, "A05:starved", ""); } catch (const arpc::errors::deadline_exceeded&) {}
      break;
    }
    case 2: {
      arpc::context c;
      std::thread t([&] { ::usleep(static_cast<unsigned>(ms) * 1000); c.cancel(); });
      try { auto [a] = arpc::select(input<int>(in)); VH_CHECK(false, "A05:starved", ""); } catch (const arpc::errors::cancelled&) {}
      t.join();
      break;
    }
    default: {
      // Descriptors that become ready over and over do not put the timer off.
      arpc::flag fl;
      std::atomic<bool> stop{false};
      std::thread t([&] { while (!stop) { fl.set(); ::usleep(300); fl.reset(); } });
      auto [a, b] = arpc::select(fl.async_wait().then([]() -> int { throw arpc::errors::try_again(""); }), arpc::timeout(std::chrono::milliseconds(ms)));
      stop = true;
      VH_CHECK(!a && b, "A05:starved", "blinking flag");
      VH_CHECK(steady::now() - begin >= std::chrono::milliseconds(ms), "A05:timer-early", "");
      t.join();
    }
  }
  vh::stat("starved selects");
  vh::eval(vh::hcomb(77, static_cast<std::uint64_t>(ms)), true);
}

// Events that arrive while waiting: exactly one reaction per event, nothing lost at cancellation.
void select_live(vh::Rng& r) {
  constexpr int n = 3;
  const int items = 20 + static_cast<int>(r.below(40));
  std::array<arpc::queue<int>, n> qs{arpc::queue<int>(2), arpc::queue<int>(1), arpc::queue<int>(100)};
  std::uint64_t seed = r.next();
  std::vector<int> got[2];
  std::atomic<int> left{items * n};
  arpc::context* ctxs[2] = {nullptr, nullptr};
  std::mutex ctx_mu;
  std::atomic<int> throwing{0};
  hist::run_threads(n + 3, seed, [&](int who) {
    if (who < n) {
      for (int i = 0; i < items; i++) { qs[who].put(who * 1000 + i); faults::jitter(200); }
    } else if (who < n + 2) {
      auto& g = got[who - n];
      while (left.load(std::memory_order_relaxed) > 0) {
        arpc::context c;
        { std::scoped_lock l(ctx_mu); ctxs[who - n] = &c; }
        struct Clear { std::mutex& m; arpc::context*& p; ~Clear() { std::scoped_lock l(m); p = nullptr; } } clear{ctx_mu, ctxs[who - n]};
        if (faults::rnd() % 2) c.set_timeout(std::chrono::milliseconds(faults::rnd() % 3));
        try {
          std::vector<arpc::awaitable<int>> v;
          v.push_back(qs[1].async_get());
          v.push_back(qs[2].async_get().then([&](int x) { if (x % 5 == 0) { throwing.fetch_add(1, std::memory_order_relaxed); throw E0(std::to_string(x)); } return x; }));
          auto [a, w, t] = arpc::select(qs[0].async_get(), std::move(v), arpc::timeout(2ms));
          int k = 0;
          auto take = [&](auto& s) {
            if (!s) return;
            k++;
            Out o = outcome([&] { return std::to_string(*s); });
            g.push_back(std::stoi(o.s));
          };
          take(a);
          for (auto& x : w) take(x);
          VH_CHECK(k > 0 || t, "A05:nothing-reported", "live");
          left.fetch_sub(k, std::memory_order_relaxed);
        } catch (const arpc::errors::cancelled&) {
          vh::stat("live selects cancelled");
        } catch (const arpc::errors::deadline_exceeded&) {
          vh::stat("live selects past their deadline");
        }
      }
    } else {
      while (left.load(std::memory_order_relaxed) > 0) {
        { std::scoped_lock l(ctx_mu); if (auto c = ctxs[faults::rnd() % 2]) c->cancel(); }
        ::usleep(static_cast<unsigned>(faults::rnd() % 1000));
      }
    }
  });
  std::map<int, int> count;
  for (auto& g : got) for (int x : g) count[x]++;
  for (int q = 0; q < n; q++) for (int i = 0; i < items; i++) VH_CHECK(count[q * 1000 + i] == 1, "A05:live-events", "event " + std::to_string(q * 1000 + i) + " handled " + std::to_string(count[q * 1000 + i]) + " times");
  vh::stat("live events", static_cast<std::uint64_t>(items * n));
  vh::eval(vh::hcomb(seed, 3), true);
}

void a05() {
  vh::Rng r(vh::seed());
  const int rounds = vh::scale(2500, 25000);
  arpc::wait(arpc::always());
  const auto base_fds = faults::open_fds().size();  // The top context's.
  for (int i = 0; i < rounds; i++) {
    vh::mark("A05 round " + std::to_string(i));
    auto base = live.load();
    set_noise(r);
    select_round(r, i);
    if (i % 10 == 0) select_starved(r);
    if (i % 25 == 0) select_live(r);
    VH_CHECK(live.load() == base, "A05:leak", std::to_string(live.load() - base) + " values and reactions alive after the select");
    VH_CHECK(faults::open_fds().size() <= base_fds, "A05:descriptor-leak", std::to_string(faults::open_fds().size()) + " open");
    vh::tick();
  }
}
}  // namespace

void harness() {
  if (vh::mode() == "A04") a04();
  else a05();
}
