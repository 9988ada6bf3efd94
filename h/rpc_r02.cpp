// R02: calls that cannot be served.
#include "rpc.h"
#include "arpc/channel.h"
#include "arpc/socket.h"

namespace rpc {
namespace {
using Kit = le_kit;
using Encoder = arpc::little_endian_binary_encoder;
using Protocol = arpc::protected_stream_packet_protocol<Encoder, arpc::little_endian_binary_decoder>;

// Peers on plain sockets, not seen by the injected faults.
struct Peer {
  int fd = -1;
  bool dial(const std::string& host, int port) {
    bool v6 = host == "::1";
    fd = static_cast<int>(::syscall(SYS_socket, v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
    sockaddr_storage ss{};
    socklen_t n;
    if (v6) {
      auto* a = reinterpret_cast<sockaddr_in6*>(&ss);
      a->sin6_family = AF_INET6;
      a->sin6_addr = in6addr_loopback;
      a->sin6_port = htons(static_cast<std::uint16_t>(port));
      n = sizeof *a;
    } else {
      auto* a = reinterpret_cast<sockaddr_in*>(&ss);
      a->sin_family = AF_INET;
      a->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a->sin_port = htons(static_cast<std::uint16_t>(port));
      n = sizeof *a;
    }
    if (::syscall(SYS_connect, fd, &ss, n)) {
      close();
      return false;
    }
    return true;
  }
  bool put(const std::string& s) {
    for (std::size_t at = 0; at < s.size();) {
      long n = ::syscall(SYS_sendto, fd, s.data() + at, s.size() - at, MSG_NOSIGNAL, nullptr, 0);
      if (n <= 0) return false;
      at += static_cast<std::size_t>(n);
    }
    return true;
  }
  // Up to a time without anything.
  std::string get(std::size_t n, int ms = 20000) {
    std::string s;
    struct timeval tv = {ms / 1000, ms % 1000 * 1000};
    ::syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    while (s.size() < n) {
      char b[4096];
      long k = ::syscall(SYS_recvfrom, fd, b, std::min(sizeof b, n - s.size()), 0, nullptr, nullptr);
      if (k <= 0) {
        if (k == 0) ended = true;
        else if (errno != EAGAIN && errno != EWOULDBLOCK) ended = true;
        break;
      }
      s.append(b, static_cast<std::size_t>(k));
    }
    return s;
  }
  void reset() {
    struct linger l = {1, 0};
    ::syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    close();
  }
  void close() {
    if (fd >= 0) ::syscall(SYS_close, fd);
    fd = -1;
  }
  bool ended = false;
  ~Peer() { close(); }
};

std::string frame(const std::string& content) {
  std::string s;
  arpc::string_output_stream out(s);
  Protocol().send(out, content);
  return s;
}
template <typename... T>
std::string encoded(const T&... t) {
  std::string s;
  arpc::string_output_stream out(s);
  Encoder e(out);
  (e(t), ...);
  return s;
}
std::string head(arpc::rpc_defs::message_type t, std::uint32_t id) { return encoded(t, id); }
template <auto mptr, typename... A>
std::string request(std::uint32_t id, const std::string& name, const A&... args) {
  using info = arpc::method_descriptor<mptr>;
  std::string s = head(arpc::rpc_defs::message_type::REQUEST, id);
  s += encoded(encoded(name), std::string(info::name()), arpc::traits::type_hash_v<typename info::method_type>, arpc::context::current());
  s += encoded(std::tuple<A...>(args...));
  return s;
}
// A response, if there is one.
struct Response {
  bool any = false;
  std::uint32_t id = 0;
  std::string error;
};
template <typename R>
Response response(Peer& p) {
  Response r;
  try {
    std::string size = p.get(8);
    if (size.size() < 4) return r;
    // The size may take less; ask the decoder.
    std::string all = size;
    for (;;) {
      try {
        arpc::string_input_stream in(all);
        std::string packet = Protocol().receive(in);
        arpc::string_input_stream is(packet);
        arpc::little_endian_binary_decoder d(is);
        arpc::rpc_defs::message_type t;
        d(t);
        d(r.id);
        packet.erase(0, is.pos());
        arpc::string_input_stream ris(packet);
        arpc::little_endian_binary_decoder rd(ris);
        arpc::result_holder<R> h;
        rd(h);
        r.any = t == arpc::rpc_defs::message_type::RESPONSE;
        Outcome o = attempt([&] {
          *h;
          return "";
        });
        r.error = o.cls;
        return r;
      } catch (const arpc::errors::base_error&) {
        std::string more = p.get(1);
        if (more.empty()) return r;
        all += more;
      }
    }
  } catch (...) {
  }
  return r;
}

// What a peer does to the server; all its calls are for the object "target".
const char* hostile(vh::Rng& r, const std::string& host, int port, u64 token, std::vector<std::string>& bad, std::atomic<bool>& stop) {
  Peer p;
  if (!p.dial(host, port)) return "none";
  auto fail = [&](const std::string& what) { bad.push_back(what); };
  using mt = arpc::rpc_defs::message_type;
  std::uint32_t id = static_cast<std::uint32_t>(r.below(6));
  switch (r.below(14)) {
    case 0:
      p.put(r.bytes(r.below(200)));
      if (r.chance(1, 2)) p.reset();
      return "noise";
    case 1: {
      p.put(frame(r.bytes(r.below(60))));
      return "framed noise";
    }
    case 2: {
      auto s = request<&Both::slow>(id, "target", token, 3);
      s.resize(r.below(s.size()));
      p.put(frame(s));
      // Either an error, or the connection is closed.
      auto a = response<u64>(p);
      if (a.any ? a.error.empty() || a.id != id : !p.ended) fail("cut request " + std::to_string(s.size()) + ": " + (a.any ? "error '" + a.error + "' id " + std::to_string(a.id) : "no answer"));
      return "cut request";
    }
    case 3: {
      auto s = request<&Both::slow>(id, "target", token, 3);
      for (int i = 1 + static_cast<int>(r.below(3)); i > 0; i--) s[5 + r.below(s.size() - 5)] = static_cast<char>(r.next());
      p.put(frame(s));
      auto a = response<u64>(p);
      if (!a.any && !p.ended) fail("changed request: no answer");
      return "changed request";
    }
    case 4: {
      auto s = head(mt::REQUEST, id) + r.bytes(r.below(300));
      p.put(frame(s));
      auto a = response<u64>(p);
      if (a.any ? a.error.empty() || a.id != id : !p.ended) fail("random request: " + a.error);
      return "random request";
    }
    case 5: {
      p.put(frame(request<&Both::slow>(id, "nothing there", token, 3)));
      auto a = response<u64>(p);
      if (!a.any || a.error != "not_found" || a.id != id) fail("no such object: '" + a.error + "'");
      // And the connection goes on.
      p.put(frame(request<&Both::who>(id, "target")));
      a = response<std::string>(p);
      if (!a.any || !a.error.empty() || a.id != id) fail("after no such object: '" + a.error + "'");
      return "wrong object";
    }
    case 6: {
      p.put(frame(request<&alt::Missing::vanish>(id, "target", token)));
      auto a = response<u64>(p);
      if (!a.any || a.error != "not_found" || a.id != id) fail("no such method: '" + a.error + "'");
      return "wrong method";
    }
    case 7: {
      // Arguments missing or wrong.
      auto s = request<&Both::echo>(id, "target", token, std::string("some text"));
      s.resize(s.size() - 1 - r.below(12));
      p.put(frame(s));
      auto a = response<std::string>(p);
      if (!a.any || a.error.empty() || a.id != id) fail("cut arguments: '" + a.error + "'");
      return "cut arguments";
    }
    case 8: {
      std::string s = encoded(static_cast<std::uint8_t>(3 + r.below(253)), id) + r.bytes(r.below(20));
      if (r.chance(1, 3)) s = head(mt::RESPONSE, id) + r.bytes(r.below(20));
      p.put(frame(s));
      p.get(1);
      if (!p.ended) fail("unknown message kept the connection");
      return "unknown message";
    }
    case 9: {
      // The same request again and again; then cancels of it and of others.
      for (int i = 0; i < 5; i++) p.put(frame(request<&Both::slow>(id, "target", token + static_cast<u64>(i), 300)));
      for (std::uint32_t i = 0; i < 64; i++) p.put(frame(head(mt::CANCEL_REQUEST, i)));
      auto a = response<u64>(p);
      if (!a.any || a.id != id) fail("repeated request: no answer");
      return "repeated request";
    }
    case 10: {
      for (int i = 0; i < 100; i++) p.put(frame(head(mt::CANCEL_REQUEST, static_cast<std::uint32_t>(r.below(200)))));
      p.put(frame(request<&Both::who>(id, "target")));
      auto a = response<std::string>(p);
      if (!a.any || !a.error.empty() || a.id != id) fail("after cancels: '" + a.error + "'");
      return "cancels";
    }
    case 11: {
      // Left in the middle of a frame until the end.
      auto s = frame(request<&Both::slow>(id, "target", token, 3));
      s.resize(r.below(s.size()));
      p.put(s);
      while (!stop.load(rlx)) ::usleep(500);
      if (r.chance(1, 2)) p.reset();
      return "stalled";
    }
    case 12: {
      // Large sizes claimed.
      std::string s = frame(std::string(70000, 'x'));
      s.resize(1 + r.below(40));
      for (std::size_t i = 0; i < 4 && i < s.size(); i++) s[i] = static_cast<char>(r.chance(1, 2) ? 0xff : r.next());
      p.put(s);
      if (r.chance(1, 2)) p.reset();
      return "large size";
    }
    default: {
      // Gone without waiting for the answers.
      for (std::uint32_t i = 0; i < 8; i++) p.put(frame(request<&Both::slow>(i, "target", token + i, 500)));
      if (r.chance(1, 2)) p.reset();
      return "gone";
    }
  }
}

// Clients whose calls cannot be served.
void misdirected(vh::Rng& r, Kit::client& c, std::vector<std::string>& bad, u64 token, const std::string& name) {
  auto s = c.get_proxy<alt::Missing>(name);
  auto a = c.get_proxy<alt::Missing::async>(name);
  int st = static_cast<int>(r.below(styles));
  std::string what;
  Finish f;
  auto none = [](auto&&) { return std::string("a value"); };
  switch (r.below(13)) {
    case 0: what = "vanish"; f = go(st, [&] { s.vanish(token); }, [&] { return a.vanish(token); }, 0); break;
    case 1: what = "add"; f = go(st, [&] { s.add(token, 1, 2); }, [&] { return a.add(token, 1, 2); }, 0); break;
    case 2: what = "note"; f = go(st, [&] { return s.note(token); }, [&] { return a.note(token); }, none); break;
    case 3: what = "echo"; f = go(st, [&] { return s.echo(token, {"x"}); }, [&] { return a.echo(token, {"x"}); }, none); break;
    case 4: what = "fail"; f = go(st, [&] { return s.fail(token, "x", 1); }, [&] { return a.fail(token, "x", 1); }, none); break;
    case 5: what = "slow"; f = go(st, [&] { return s.slow(token, 1, 2); }, [&] { return a.slow(token, 1, 2); }, none); break;
    case 6: what = "hold"; f = go(st, [&] { return s.hold(); }, [&] { return a.hold(); }, none); break;
    case 7: what = "observe"; f = go(st, [&] { return s.observe(1); }, [&] { return a.observe(1); }, none); break;
    case 8: what = "Who"; f = go(st, [&] { return s.Who(); }, [&] { return a.Who(); }, none); break;
    case 9: what = "own"; f = go(st, [&] { return s.own(token, "x"); }, [&] { return a.own(token, "x"); }, none); break;
    case 10: {
      what = "other name";
      auto p = c.get_proxy<Both>(name + " ");
      auto q = c.get_proxy<Both::async>(name + " ");
      f = go(st, [&] { return p.slow(token, 1); }, [&] { return q.slow(token, 1); }, none);
      break;
    }
    case 11: {
      what = "empty name";
      auto p = c.get_proxy<Both>("");
      auto q = c.get_proxy<Both::async>("");
      f = go(st, [&] { return p.who(); }, [&] { return q.who(); }, none);
      break;
    }
    default: {
      what = "another kind of name";
      auto pair = std::make_pair(name, 1);
      auto p = c.get_proxy<Both>(7);
      auto q = c.get_proxy<Both::async>(pair);
      f = go(st, [&] { return p.slow(token, 1); }, [&] { return q.slow(token, 1); }, none);
    }
  }
  Outcome o = f();
  if (o.cls != "not_found") bad.push_back(what + " of '" + name + "': " + o.show());
}

// Objects coming and going under one name. The periods in which each of them was
// offered are bounded by the stamps around what offered and removed it.
struct Period {
  int id;
  u64 from_s, from_e, to_s = ~0ULL, to_e = ~0ULL;
};
struct Probe {
  u64 s, e;
  int id;  // -1: not found, -2: otherwise.
  std::string what;
};

void round(u64 seed) {
  vh::Rng r(seed);
  vh::mark("misuse seed=" + std::to_string(seed));
  no_noise();
  std::string ctx = "seed=" + std::to_string(seed);
  const int good = 1 + static_cast<int>(r.below(2)), astray = static_cast<int>(r.below(3)), enemies = static_cast<int>(r.below(4)), probes = static_cast<int>(r.below(3));
  const int per = 6 + static_cast<int>(r.below(vh::scale(15, 30)));
  const int objects = 1 + static_cast<int>(r.below(2)), changes = probes ? 3 + static_cast<int>(r.below(12)) : 0;
  auto world = std::make_unique<World>(seed, static_cast<std::size_t>(good) * per);
  World& w = *world;
  World aside(seed + 1, 0);
  for (auto& p : w.plan) {
    p.method = static_cast<int>(r.below(methods));
    p.object = static_cast<int>(r.below(objects));
  }
  arpc::server_options so;
  // A peer stalled in the middle of a frame takes one worker.
  so.num_worker_threads = static_cast<unsigned>(enemies) + 1 + static_cast<unsigned>(r.below(4));
  u64 history = 0;
  int not_found = 0, found = 0;
  {
    std::vector<std::unique_ptr<arpc::server_object<Impl>>> impls;
    for (int i = 0; i < objects; i++) impls.push_back(std::make_unique<arpc::server_object<Impl>>(w, i));
    arpc::server_object<Impl> target(aside, 99);
    std::string host;
    int port = 0;
    auto server = make_server<Kit::server>(r, so, host, port);
    if (!server) return;
    for (int i = 0; i < objects; i++) server->register_object("object " + std::to_string(i), *impls[static_cast<std::size_t>(i)]);
    server->register_object(std::string("target"), target);
    const int threads = good + astray + enemies + probes + (changes ? 1 : 0);
    std::vector<std::vector<Outcome>> out(static_cast<std::size_t>(good));
    std::vector<std::vector<std::string>> bad(static_cast<std::size_t>(threads));
    std::vector<std::vector<Probe>> seen(static_cast<std::size_t>(threads));
    std::vector<Period> periods;
    std::vector<std::string> kinds(static_cast<std::size_t>(threads));
    std::vector<u64> seeds;
    for (int i = 0; i < threads; i++) seeds.push_back(r.next());
    std::atomic<int> busy{threads - enemies};
    std::atomic<bool> stop{false};
    auto shared = std::make_unique<Kit::client>(at(host, port));
    set_noise(r);
    hist::run_threads(threads, seed, [&](int t) {
      vh::Rng tr(seeds[static_cast<std::size_t>(t)]);
      auto& b = bad[static_cast<std::size_t>(t)];
      int k = t;
      if (k < good) {
        Kit::client own(at(host, port));
        auto& c = tr.chance(1, 2) ? own : *shared;
        for (int i = 0; i < per; i++) {
          u64 token = static_cast<u64>(k * per + i);
          int id = w.plan[token].object;
          auto s = c.get_proxy<Both>("object " + std::to_string(id));
          auto a = c.get_proxy<Both::async>("object " + std::to_string(id));
          out[static_cast<std::size_t>(k)].push_back(call(w, token, id, static_cast<int>(tr.below(styles)), s, a)());
        }
        if (busy.fetch_sub(1) == 1) stop = true;
        return;
      }
      k -= good;
      if (k < astray) {
        Kit::client own(at(host, port));
        for (int i = 0; i < per; i++) misdirected(tr, tr.chance(1, 2) ? own : *shared, b, 1u << 30, tr.chance(1, 2) ? "object 0" : "target");
        if (busy.fetch_sub(1) == 1) stop = true;
        return;
      }
      k -= astray;
      if (k < enemies) {
        while (!stop.load()) kinds[static_cast<std::size_t>(t)] += std::string(hostile(tr, host, port, 1u << 30, b, stop)) + ",";
        return;
      }
      k -= enemies;
      if (k < probes) {
        Kit::client own(at(host, port));
        for (int i = 0; i < per * 2; i++) {
          auto& c = tr.chance(1, 2) ? own : *shared;
          Probe p;
          p.s = hist::now();
          bool slow = tr.chance(1, 4);
          Outcome o = attempt([&] {
            auto x = c.get_proxy<Both>(std::string("changing"));
            if (slow) {
              p.id = static_cast<int>(x.slow((1u << 30) + 7, 200) - ((1u << 30) + 7) * 7ULL);
            } else {
              p.id = std::atoi(x.who().c_str() + 3);
            }
            return "";
          });
          p.e = hist::now();
          if (!o.cls.empty()) p.id = o.cls == "not_found" ? -1 : -2;
          p.what = o.show();
          seen[static_cast<std::size_t>(t)].push_back(p);
        }
      } else {
        // Registers, replaces and removes.
        World& a = aside;
        std::map<int, std::unique_ptr<arpc::server_object<Impl>>> have;
        int next = 1000, current = -1;
        auto replaced = [&](u64 s, u64 e) {
          if (current >= 0) {
            periods.back().to_s = s;
            periods.back().to_e = e;
          }
        };
        for (int i = 0; i < changes; i++) {
          if (tr.chance(1, 2)) ::usleep(static_cast<useconds_t>(tr.below(3000)));
          if (current < 0 || tr.chance(1, 3)) {
            int id = next++;
            have[id] = std::make_unique<arpc::server_object<Impl>>(a, id);
            u64 s = hist::now();
            server->register_object(std::string("changing"), *have[id]);
            u64 e = hist::now();
            replaced(s, e);
            periods.push_back({id, s, e});
            int old = current;
            current = id;
            // Not reached any more, once its calls end.
            if (old >= 0 && tr.chance(1, 2)) have.erase(old);
          } else {
            u64 s = hist::now();
            switch (tr.below(3)) {
              case 0: server->unregister_object(std::string("changing")); break;
              case 1: server->unregister_object(*have[current]); break;
              default:
                server->register_object("as well", *have[current]);
                server->unregister_object(*have[current]);
            }
            u64 e = hist::now();
            replaced(s, e);
            if (tr.chance(2, 3)) have.erase(current);
            current = -1;
          }
        }
        if (current >= 0) {
          u64 s = hist::now();
          server->unregister_object(std::string("changing"));
          replaced(s, hist::now());
        }
        have.clear();
      }
      if (busy.fetch_sub(1) == 1) stop = true;
    });
    no_noise();
    for (int k = 0; k < good; k++) {
      for (int i = 0; i < per; i++) {
        u64 token = static_cast<u64>(k * per + i);
        auto& p = w.plan[token];
        auto& o = out[static_cast<std::size_t>(k)][static_cast<std::size_t>(i)];
        VH_CHECK(right(w, token, o), "R02:others-harmed", ctx + " token " + std::to_string(token) + " method " + std::to_string(p.method) + ": " + o.show());
        VH_CHECK(p.ran.load(rlx) == (p.method == who ? 0 : 1), "R02:not-executed-once", ctx + " token " + std::to_string(token));
        vh::tick();
      }
    }
    for (int t = 0; t < threads; t++) {
      for (auto& b : bad[static_cast<std::size_t>(t)]) vh::violation("R02:wrong-error", ctx + " " + b);
      std::istringstream is(kinds[static_cast<std::size_t>(t)]);
      for (std::string kind; std::getline(is, kind, ',');) vh::stat("peer: " + kind);
      history = vh::hcomb(history, vh::hash_str(kinds[static_cast<std::size_t>(t)]));
      for (auto& p : seen[static_cast<std::size_t>(t)]) {
        bool ok = false;
        if (p.id == -1) {
          // Some moment of the call at which nothing was certainly offered.
          for (std::size_t i = 0; i <= periods.size() && !ok; i++) {
            u64 gap_s = i == 0 ? 0 : periods[i - 1].to_s, gap_e = i == periods.size() ? ~0ULL : periods[i].from_e;
            // One replacing another leaves no gap.
            if (i > 0 && i < periods.size() && periods[i - 1].to_s == periods[i].from_s) continue;
            ok = p.s < gap_e && gap_s < p.e;
          }
          not_found++;
        } else if (p.id >= 0) {
          for (auto& x : periods) ok = ok || (x.id == p.id && p.s < x.to_e && x.from_s < p.e);
          found++;
        }
        VH_CHECK(ok, "R02:registration", ctx + " call at " + std::to_string(p.s) + "-" + std::to_string(p.e) + " reached " + std::to_string(p.id) + ", " + p.what);
        history = vh::hcomb(history, p.s * 31 + static_cast<u64>(p.id));
      }
    }
    // Objects go away while the server runs, too.
    if (r.chance(1, 2)) {
      for (auto& i : impls) server->unregister_object(*i);
      impls.clear();
    }
    shared.reset();
    server.reset();
  }
  VH_CHECK(w.stray.load(rlx) == 0, "R02:ran-something", ctx + ": " + std::to_string(w.stray.load()));
  w.report("R02", ctx);
  aside.report("R02", ctx);
  world.reset();
  vh::stat("good calls", static_cast<u64>(good * per));
  vh::stat("misdirected calls", static_cast<u64>(astray * per));
  vh::stat("calls while registrations changed: found", static_cast<u64>(found));
  vh::stat("calls while registrations changed: not found", static_cast<u64>(not_found));
  vh::eval(vh::hcomb(history, seed), astray + enemies + probes > 0);
  if (r.chance(1, 20)) vh::sample(ctx + " good " + std::to_string(good) + " astray " + std::to_string(astray) + " hostile " + std::to_string(enemies) + " registration changes " + std::to_string(changes));
}
}  // namespace
}  // namespace rpc

void harness() {
  vh::set_hang_seconds(60);
  arpc::wait(arpc::always());
  vh::Rng r(vh::seed());
  rpc::warm_up<rpc::le_kit>(r);
  for (int i = 0, n = vh::scale(160, 1500); i < n && vh::st().violations.empty(); i++) {
    rpc::Ledger ledger;
    u64 seed = r.next();
    rpc::round(seed);
    ledger.check("R02", "seed=" + std::to_string(seed));
  }
}
