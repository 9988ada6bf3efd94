// Remote calls: interfaces, implementations that log what runs, callers that
// know what each call has to give.
#ifndef VERIF_RPC_H_
#define VERIF_RPC_H_
#include "conc.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "arpc/address_resolver.h"
#include "arpc/awaitable.h"
#include "arpc/binary_codecs.h"
#include "arpc/client.h"
#include "arpc/context.h"
#include "arpc/dynamic_base_class.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/interface.h"
#include "arpc/packet_protocols.h"
#include "arpc/select.h"
#include "arpc/server.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "arpc/thread.h"
#include "arpc/wait.h"

ERROR_CLASS(out_of_stamps);

struct Item : arpc::dynamic<Item> {
  int n = 0;
  std::string s;
  std::shared_ptr<Item> next;
  ARPC_FIELDS(n, s, next);
};
ARPC_REGISTER(Item);
struct BigItem : arpc::dynamic<BigItem, Item> {
  std::vector<double> more;
  ARPC_FIELDS(more);
};
ARPC_REGISTER(BigItem);

struct DataA : arpc::dynamic<DataA> {
  int a = -1;
  ARPC_FIELDS(a);
};
ARPC_REGISTER(DataA);
struct DataB : arpc::dynamic<DataB, DataA> {
  std::string b = "default";
  ARPC_FIELDS(b);
};
ARPC_REGISTER(DataB);

struct Seen : arpc::serializable<Seen> {  // What a method sees of its context.
  std::optional<std::int64_t> left_ms;
  bool cancelled = false;
  int a = 0, ba = 0;
  std::string b;
  ARPC_FIELDS(left_ms, cancelled, a, ba, b);
};

using u64 = std::uint64_t;
using Either = std::pair<int, std::string>;
using Items = std::shared_ptr<Item>;

ARPC_INTERFACE(Root, (), (((std::string), who, ()), ((u64), add, (((u64), token), ((u64), a), ((u64), b)))));
ARPC_INTERFACE(Left, ((Root)), (((void), note, (((u64), token))), ((std::string), echo, (((u64), token), ((const std::string&), s)))));
ARPC_INTERFACE(Right, ((Root)),
               (((std::tuple<u64, std::vector<std::string>, std::map<std::string, int>>), split,
                 (((u64), token), ((std::vector<std::string>), v), ((const std::map<std::string, int>&), m))),
                ((int), fail, (((u64), token), ((int), kind), ((const std::string&), message))),
                ((std::unique_ptr<std::string>), own, (((u64), token), ((std::unique_ptr<std::string>), p)))));
ARPC_INTERFACE(Both, ((Left), (Right)),
               (((std::pair<Items, Items>), graph, (((u64), token), ((Items), p), ((Items), q))),
                ((std::tuple<std::optional<double>, Either, bool>), maybe,
                 (((std::optional<double>), o), ((u64), token), ((const Either&), w), ((bool), flag))),
                ((u64), slow, (((u64), token), ((int), us))), ((u64), hold, (((u64), token))), ((Seen), observe, (((u64), token)))));

// What the server does not offer under those names.
namespace alt {
ARPC_INTERFACE(Missing, (),
               (((void), vanish, (((u64), token))), ((void), add, (((u64), token), ((u64), a), ((u64), b))), ((u64), note, (((u64), token))),
                ((std::string), echo, (((u64), token), ((const std::vector<std::string>&), s))),
                ((int), fail, (((u64), token), ((const std::string&), message), ((int), kind))), ((u64), slow, (((u64), token), ((int), us), ((int), more))),
                ((u64), hold, ()), ((Seen), observe, (((std::int64_t), token))), ((std::string), Who, ()),
                ((std::unique_ptr<std::string>), own, (((u64), token), ((std::string), p)))));
}

namespace rpc {
using namespace std::chrono_literals;
constexpr auto rlx = std::memory_order_relaxed;

inline void set_noise(vh::Rng& r) {
  faults::delay_permille = r.chance(1, 4) ? 0 : static_cast<int>(r.below(150));
  faults::delay_max_us = 150;
  faults::eintr_permille = r.chance(1, 3) ? static_cast<int>(r.below(150)) : 0;
  faults::short_permille = r.chance(1, 3) ? static_cast<int>(r.below(500)) : 0;
  faults::again_permille = r.chance(1, 2) ? static_cast<int>(r.below(200)) : 0;
}
inline void no_noise() {
  faults::delay_permille = faults::eintr_permille = faults::short_permille = faults::again_permille = 0;
  faults::fail_hook = nullptr;
}

inline std::atomic<int> connects{0};
inline void on_connect(const struct sockaddr*, socklen_t) { connects.fetch_add(1, rlx); }

// What one call consists of.
enum method { add, note, echo, split, fail, own, graph, maybe, slow, who, methods, hold, observe };
struct Payload {
  u64 a, b;
  std::string s, message;
  std::vector<std::string> v;
  std::map<std::string, int> m;
  int kind, us;
  std::optional<double> o;
  Either w;
  bool flag, has, same;
  Items p, q;
};
constexpr int error_kinds = 20;

inline std::string text(vh::Rng& r) {
  static const std::size_t most[] = {0, 1, 5, 40, 300, 5000, 70000};
  std::size_t n = r.below(most[r.chance(1, 12) ? r.below(7) : r.below(5)] + 1);
  return r.chance(1, 2) ? r.bytes(n) : std::string(n, static_cast<char>(r.next()));
}
inline Payload payload(u64 seed, u64 token) {
  vh::Rng r(vh::hcomb(seed, token));
  Payload p;
  p.a = r.next();
  p.b = r.next();
  p.s = text(r);
  p.message = r.chance(1, 6) ? "" : "error " + std::to_string(token) + " " + text(r);
  // Messages are C strings to the error classes.
  p.message.erase(std::remove(p.message.begin(), p.message.end(), '\0'), p.message.end());
  for (int i = static_cast<int>(r.below(6)); i > 0; i--) p.v.push_back(text(r));
  for (int i = static_cast<int>(r.below(6)); i > 0; i--) p.m[text(r)] = static_cast<int>(r.next());
  p.kind = static_cast<int>(r.below(error_kinds));
  p.us = static_cast<int>(r.below(2000));
  if (r.chance(2, 3)) p.o = static_cast<double>(r.next()) / 3;
  p.w = {static_cast<int>(r.next()), text(r)};
  p.flag = r.chance(1, 2);
  p.has = r.chance(4, 5);
  p.same = r.chance(1, 2);
  auto item = [&]() -> Items {
    if (r.chance(1, 6)) return nullptr;
    Items it = r.chance(1, 2) ? std::make_shared<Item>() : std::make_shared<BigItem>();
    it->n = static_cast<int>(r.next());
    it->s = text(r);
    if (it->portable_class_name() == std::string_view("BigItem")) std::static_pointer_cast<BigItem>(it)->more = {1.5, static_cast<double>(token)};
    if (r.chance(1, 2)) it->next = std::make_shared<Item>();
    if (r.chance(1, 4)) it->next = it;
    return it;
  };
  p.p = item();
  p.q = p.same ? p.p : item();
  return p;
}
// Cycles are dropped by hand.
inline void drop(const Items& p) {
  if (p) p->next.reset();
}
inline void drop(Payload& p) {
  drop(p.p);
  drop(p.q);
}
inline std::string show(const Items& p, bool top = true) {
  if (!p) return "null";
  std::string s(p->portable_class_name());
  s += " " + std::to_string(p->n) + " " + std::to_string(vh::hash_str(p->s));
  if (p->portable_class_name() == std::string_view("BigItem")) {
    for (double d : std::static_pointer_cast<BigItem>(p)->more) s += " " + std::to_string(d);
  }
  if (!top) return s;
  return s + (p->next == p ? " self" : " then " + show(p->next, false));
}

// What runs on the servers, logged; the methods check what they are given.
struct World {
  u64 seed;
  struct Plan {
    int method = who, object = 0;
    std::atomic<int> ran{0}, started{0}, outcome{0};
  };
  enum { none, released, was_cancelled, was_late, otherwise };
  std::deque<Plan> plan;
  arpc::flag release;
  std::atomic<int> stray{0};
  std::mutex mu;
  std::map<std::string, std::string> problems;

  World(u64 s, std::size_t tokens) : seed(s), plan(tokens) {}
  void problem(const std::string& what, const std::string& detail) {
    std::scoped_lock lock(mu);
    problems.emplace(what, detail);
  }
  void report(const std::string& id, const std::string& ctx) {
    std::scoped_lock lock(mu);
    for (auto& [k, d] : problems) vh::violation(id + ":" + k, ctx + " " + d);
  }
};

template <typename F>
void throw_kind(int kind, const std::string& m, F) {
  namespace e = arpc::errors;
  switch (kind) {
    case 0: throw e::unknown_error(m);
    case 1: throw e::cancelled(m);
    case 2: throw e::data_mismatch(m);
    case 3: throw e::deadline_exceeded(m);
    case 4: throw e::eof(m);
    case 5: throw e::internal_error(m);
    case 6: throw e::invalid_argument(m);
    case 7: throw e::invalid_state(m);
    case 8: throw e::io_error(m);
    case 9: throw e::not_implemented(m);
    case 10: throw e::not_found(m);
    case 11: throw e::out_of_range(m);
    case 12: throw e::shutting_down(m);
    case 13: throw e::unavailable(m);
    case 14: throw e::try_again(m);
    case 15: throw out_of_stamps(m);
    case 16: throw std::runtime_error(m);
    case 17: throw std::out_of_range(m);
    case 18: throw 42;
    default: throw e::cancelled(m);
  }
}
inline const char* kind_name(int kind) {
  static const char* n[] = {"unknown_error", "cancelled", "data_mismatch", "deadline_exceeded", "eof", "internal_error", "invalid_argument",
                            "invalid_state", "io_error", "not_implemented", "not_found", "out_of_range", "shutting_down", "unavailable", "try_again",
                            "out_of_stamps", "unknown_error", "unknown_error", "unknown_error", "cancelled"};
  return n[kind];
}

struct Impl : Both {
  World& w;
  int id;
  u64 alive = 0x5ca1ab1e;
  Impl(World& world, int i) : w(world), id(i) {}
  ~Impl() override { alive = 0; }
  std::string name() const { return "object " + std::to_string(id); }
  // Where the calls of a token end up.
  Payload begin(u64 token, int method) {
    if (alive != 0x5ca1ab1e) w.problem("dead-object", name());
    if (token >= w.plan.size()) {
      w.stray.fetch_add(1, rlx);
      return payload(w.seed, token);
    }
    auto& p = w.plan[token];
    if (p.ran.fetch_add(1, rlx) > 0) w.problem("executed-twice", name() + " token " + std::to_string(token));
    if (p.method != method) w.problem("wrong-method", name() + " token " + std::to_string(token) + " ran " + std::to_string(method) + " not " + std::to_string(p.method));
    if (p.object >= 0 && p.object != id) w.problem("wrong-object", name() + " token " + std::to_string(token) + " not " + std::to_string(p.object));
    return payload(w.seed, token);
  }
  void check(bool ok, u64 token, const char* what) {
    if (!ok && token < w.plan.size()) w.problem(std::string("wrong-argument-") + what, name() + " token " + std::to_string(token));
  }
  std::string who() override { return "id " + std::to_string(id); }
  u64 add(u64 token, u64 a, u64 b) override {
    auto p = begin(token, rpc::add);
    check(a == p.a && b == p.b, token, "add");
    drop(p);
    return a * 31 + b + id;
  }
  void note(u64 token) override {
    auto p = begin(token, rpc::note);
    drop(p);
  }
  std::string echo(u64 token, const std::string& s) override {
    auto p = begin(token, rpc::echo);
    check(s == p.s, token, "echo");
    drop(p);
    return std::string(s.rbegin(), s.rend()) + std::to_string(id);
  }
  std::tuple<u64, std::vector<std::string>, std::map<std::string, int>> split(u64 token, std::vector<std::string> v, const std::map<std::string, int>& m) override {
    auto p = begin(token, rpc::split);
    check(v == p.v && m == p.m, token, "split");
    drop(p);
    std::reverse(v.begin(), v.end());
    auto m2 = m;
    m2["id"] = id;
    return {token + id, std::move(v), std::move(m2)};
  }
  int fail(u64 token, int kind, const std::string& message) override {
    auto p = begin(token, rpc::fail);
    check(kind == p.kind && message == p.message, token, "fail");
    drop(p);
    throw_kind(kind, message, 0);
    return 0;
  }
  std::unique_ptr<std::string> own(u64 token, std::unique_ptr<std::string> s) override {
    auto p = begin(token, rpc::own);
    check(!!s == p.has && (!s || *s == p.s), token, "own");
    drop(p);
    if (s) *s += std::to_string(id);
    return s;
  }
  std::pair<Items, Items> graph(u64 token, Items a, Items b) override {
    auto p = begin(token, rpc::graph);
    check(show(a) == show(p.p) && show(b) == show(p.q) && (a == b) == (p.p == p.q), token, "graph");
    drop(p);
    // They would never be released.
    if (a && a->next == a) a->next.reset();
    if (b && b->next == b) b->next.reset();
    return {b, a};
  }
  std::tuple<std::optional<double>, Either, bool> maybe(std::optional<double> o, u64 token, const Either& v,
                                                                               bool flag) override {
    auto p = begin(token, rpc::maybe);
    check(o == p.o && v == p.w && flag == p.flag, token, "maybe");
    drop(p);
    return {o, v, !flag};
  }
  u64 slow(u64 token, int us) override {
    auto p = begin(token, rpc::slow);
    check(us == p.us, token, "slow");
    drop(p);
    // It may be anything a peer has sent.
    ::usleep(us < 0 || us > 20000 ? 0 : us);
    return token * 7 + id;
  }
  // Until released, cancelled or late.
  u64 hold(u64 token) override {
    auto p = begin(token, rpc::hold);
    drop(p);
    auto set = [&](int o) {
      if (token < w.plan.size()) w.plan[token].outcome.store(o, rlx);
    };
    if (token < w.plan.size()) w.plan[token].started.store(1, rlx);
    try {
      arpc::select(w.release.async_wait());
      set(World::released);
    } catch (const arpc::errors::cancelled&) {
      set(World::was_cancelled);
      throw;
    } catch (const arpc::errors::deadline_exceeded&) {
      set(World::was_late);
      throw;
    } catch (...) {
      set(World::otherwise);
      throw;
    }
    return token * 5 + id;
  }
  Seen observe(u64 token) override {
    auto p = begin(token, rpc::observe);
    drop(p);
    return look();
  }
  static Seen look() {
    auto& c = arpc::context::current();
    Seen s;
    if (auto left = c.deadline_left()) s.left_ms = std::chrono::duration_cast<std::chrono::milliseconds>(*left).count();
    s.cancelled = c.is_cancelled();
    s.a = c.get<DataA>().a;
    s.ba = c.get<DataB>().a;
    s.b = c.get<DataB>().b;
    return s;
  }
};

// What became of a call.
struct Outcome {
  std::string cls, message;  // Of the error, if any.
  std::string problem;       // With the value, if any.
  std::string show() const { return cls.empty() ? (problem.empty() ? "a value" : "wrong value " + problem) : cls + " '" + message.substr(0, 80) + "'"; }
};
template <typename F>
Outcome attempt(F f) {
  namespace e = arpc::errors;
  Outcome o;
#define VH_ERR(N) \
  catch (const e::N& x) { o.cls = #N; o.message = x.what(); }
  try {
    o.problem = f();
  } catch (const out_of_stamps& x) {
    o.cls = "out_of_stamps";
    o.message = x.what();
  }
  VH_ERR(unknown_error)
  VH_ERR(cancelled)
  VH_ERR(data_mismatch)
  VH_ERR(deadline_exceeded)
  VH_ERR(eof)
  VH_ERR(internal_error)
  VH_ERR(invalid_argument)
  VH_ERR(invalid_state)
  VH_ERR(io_error)
  VH_ERR(not_implemented)
  VH_ERR(not_found)
  VH_ERR(out_of_range)
  VH_ERR(shutting_down)
  VH_ERR(unavailable)
  VH_ERR(try_again)
  catch (const std::exception& x) {
    o.cls = "std::exception";
    o.message = x.what();
  } catch (...) {
    o.cls = "something else";
  }
#undef VH_ERR
  return o;
}
using Finish = std::function<Outcome()>;

// Calls in any of the ways there are.
enum style { sync, later, chained, selected, styles };
template <typename SyncF, typename AsyncF, typename Check>
Finish go(int st, SyncF sf, AsyncF af, Check check) {
  using R = decltype(sf());
  if (st == sync) {
    Outcome o = attempt([&]() -> std::string {
      if constexpr (std::is_void_v<R>) {
        sf();
        return "";
      } else {
        return check(sf());
      }
    });
    return [o] { return o; };
  }
  auto f = std::make_shared<arpc::future<R>>();
  Outcome o = attempt([&] {
    *f = af().first;
    return "";
  });
  if (!o.cls.empty()) return [o] { return o; };
  return [st, f, check] {
    return attempt([&]() -> std::string {
      if constexpr (std::is_void_v<R>) {
        if (st == selected) {
          auto [x] = arpc::select(f->async_get());
          if (!x) return "nothing";
          *x;
        } else if (st == chained) {
          return f->then([] { return std::string(); }).get();
        } else {
          f->get();
        }
        return "";
      } else {
        if (st == selected) {
          auto [x] = arpc::select(f->async_get());
          return x ? check(std::move(*x)) : "nothing";
        }
        if (st == chained) return f->then([check](R r) { return check(std::move(r)); }).get();
        return check(f->get());
      }
    });
  };
}
template <typename Sync, typename Async>
Finish call(World& w, u64 token, int id, int st, Sync& s, Async& a) {
  Payload p = payload(w.seed, token);
  auto want = [](bool ok, const std::string& what) { return ok ? std::string() : what; };
  Finish f;
  switch (w.plan[token].method) {
    case add: {
      u64 x = p.a * 31 + p.b + id;
      f = go(st, [&] { return s.add(token, p.a, p.b); }, [&] { return a.add(token, p.a, p.b); }, [=](u64 v) { return want(v == x, "add"); });
      break;
    }
    case note: f = go(st, [&] { s.note(token); }, [&] { return a.note(token); }, 0); break;
    case echo: {
      std::string x = std::string(p.s.rbegin(), p.s.rend()) + std::to_string(id);
      f = go(st, [&] { return s.echo(token, p.s); }, [&] { return a.echo(token, p.s); }, [=](std::string v) { return want(v == x, "echo"); });
      break;
    }
    case split: {
      auto v = p.v;
      std::reverse(v.begin(), v.end());
      auto m = p.m;
      m["id"] = id;
      auto x = std::make_tuple(token + id, v, m);
      f = go(st, [&] { return s.split(token, p.v, p.m); }, [&] { return a.split(token, p.v, p.m); }, [=](auto v) { return want(v == x, "split"); });
      break;
    }
    case fail:
      f = go(st, [&] { return s.fail(token, p.kind, p.message); }, [&] { return a.fail(token, p.kind, p.message); }, [](int) { return std::string("no error"); });
      break;
    case own: {
      bool has = p.has;
      std::string x = p.s + std::to_string(id);
      auto arg = [&] { return has ? std::make_unique<std::string>(p.s) : nullptr; };
      f = go(st, [&] { return s.own(token, arg()); }, [&] { return a.own(token, arg()); },
             [=](std::unique_ptr<std::string> v) { return want(!!v == has && (!v || *v == x), "own"); });
      break;
    }
    case graph: {
      auto plain = [](const Items& i) {
        if (!i) return std::string("null");
        bool self = i->next == i;
        return show(i, false) + (self || !i->next ? " then null" : " then " + show(i->next, false));
      };
      std::string x = plain(p.q) + " " + plain(p.p);
      bool same = p.p == p.q;
      f = go(st, [&] { return s.graph(token, p.p, p.q); }, [&] { return a.graph(token, p.p, p.q); }, [=](std::pair<Items, Items> v) {
        std::string got = plain(v.first) + " " + plain(v.second);
        bool ok = got == x && (v.first == v.second) == same;
        drop(v.first);
        drop(v.second);
        return want(ok, "graph " + got + " not " + x);
      });
      break;
    }
    case maybe: {
      auto x = std::make_tuple(p.o, p.w, !p.flag);
      f = go(st, [&] { return s.maybe(p.o, token, p.w, p.flag); }, [&] { return a.maybe(p.o, token, p.w, p.flag); },
             [=](auto v) { return want(v == x, "maybe"); });
      break;
    }
    case slow: {
      u64 x = token * 7 + id;
      f = go(st, [&] { return s.slow(token, p.us); }, [&] { return a.slow(token, p.us); }, [=](u64 v) { return want(v == x, "slow"); });
      break;
    }
    case hold: {
      u64 x = token * 5 + id;
      f = go(st, [&] { return s.hold(token); }, [&] { return a.hold(token); }, [=](u64 v) { return want(v == x, "hold"); });
      break;
    }
    default: {
      std::string x = "id " + std::to_string(id);
      f = go(st, [&] { return s.who(); }, [&] { return a.who(); }, [=](std::string v) { return want(v == x, "who " + v); });
    }
  }
  drop(p);
  return f;
}
// The right outcome for a call that reaches its object.
inline bool right(World& w, u64 token, const Outcome& o) {
  if (w.plan[token].method != fail) return o.cls.empty() && o.problem.empty();
  Payload p = payload(w.seed, token);
  drop(p);
  if (o.cls != kind_name(p.kind)) return false;
  // Neither what is thrown nor its message cross over for other exceptions.
  return p.kind == 18 || o.message == p.message || (p.kind >= 16 && p.kind <= 17 && o.message.find(p.message) != std::string::npos);
}

template <typename Encoder, typename Decoder, typename Protocol>
struct kit {
  using server = arpc::server<Encoder, Decoder, Protocol>;
  using client = arpc::client_connection<arpc::client_socket_connection, Encoder, Decoder, Protocol>;
};
using le_kit = kit<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder,
                   arpc::protected_stream_packet_protocol<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>>;
using be_kit = kit<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder,
                   arpc::protected_stream_packet_protocol<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>>;
using serial_kit = kit<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder, arpc::serial_line_packet_protocol<>>;

inline bool have_v6() {
  static const bool have = [] {
    int s = ::socket(AF_INET6, SOCK_STREAM, 0);
    sockaddr_in6 a{};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    bool ok = s >= 0 && ::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
    if (s >= 0) ::close(s);
    return ok;
  }();
  return have;
}
inline arpc::endpoint at(const std::string& host, int port) { return arpc::endpoint().name(host).port(port); }

// A server on some port, started.
template <typename Server>
std::unique_ptr<Server> make_server(vh::Rng& r, const arpc::server_options& o, std::string& host, int& port) {
  const char* hosts[] = {"127.0.0.1", "localhost", "::1"};
  host = hosts[r.below(have_v6() ? 3 : 2)];
  for (int tries = 0; tries < 200; tries++) {
    port = 20000 + static_cast<int>((r.next() ^ static_cast<u64>(::getpid()) * 977) % 12000);
    auto s = std::make_unique<Server>(o, at(host, port));
    try {
      s->start();
      return s;
    } catch (const arpc::errors::io_error&) {
    }
  }
  vh::violation("harness:port", "no port to listen on");
  return nullptr;
}

// What is kept for the rest of the process.
template <typename Kit>
void warm_up(vh::Rng& r) {
  std::string host;
  int port = 0;
  World w(1, 1);
  w.plan[0].method = note;
  arpc::server_object<Impl> impl(w, 0);
  auto s = make_server<typename Kit::server>(r, {}, host, port);
  if (!s) return;
  s->register_object("warm", impl);
  typename Kit::client c(at(host, port));
  c.template get_proxy<Both>("warm").note(0);
  for (auto name : {"127.0.0.1", "localhost", "::1"}) {
    attempt([&] {
      arpc::address_resolver::get().resolve(arpc::endpoint().name(name).port(port));
      return "";
    });
  }
}

struct Ledger {
  std::vector<int> base = faults::open_fds();
  u64 bad = faults::bad_closes();
  void check(const std::string& id, const std::string& what) {
    auto have = faults::open_fds();
    for (int tries = 0; tries < 5000 && have.size() > base.size(); tries++) {
      ::usleep(1000);
      have = faults::open_fds();
    }
    if (have.size() > base.size() && ::getenv("VH_FDTRACE")) {
      for (int fd : have) {
        if (!std::count(base.begin(), base.end(), fd)) std::fprintf(stderr, "%s\n", faults::opener(fd).c_str());
      }
    }
    VH_CHECK(have.size() <= base.size(), id + ":leaked-descriptor", what + ": " + std::to_string(have.size()) + " open, were " + std::to_string(base.size()));
    VH_CHECK(faults::bad_closes() == bad, id + ":closed-twice", what);
  }
};

}  // namespace rpc
#endif
