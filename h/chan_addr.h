// A10, part of chan_main.cpp.
namespace {
struct AddrInfo {
  int family, type, protocol;
  std::string bytes;
  bool operator==(const AddrInfo& o) const { return family == o.family && type == o.type && protocol == o.protocol && bytes == o.bytes; }
};
AddrInfo info_of(const arpc::address& a) {
  return {a.family(), a.socket_type(), a.protocol(), std::string(reinterpret_cast<const char*>(a.address_data()), a.address_size())};
}
std::string show(const AddrInfo& a) {
  return std::to_string(a.family) + "/" + std::to_string(a.type) + "/" + std::to_string(a.protocol) + "/" + vh::hex(a.bytes);
}
std::string show(const std::vector<AddrInfo>& v) {
  std::string r;
  for (auto& a : v) r += " " + show(a);
  return r;
}

// The endpoint as the harness sees it.
struct Want {
  std::string name, service;
  bool passive = false, dgram = false;
  int family = AF_UNSPEC;
  std::string show() const { return "'" + name + "' '" + service + "'" + (passive ? " passive" : "") + (dgram ? " datagram" : "") + " family " + std::to_string(family); }
};
// What the system says about it, or nothing if it does not resolve.
std::optional<std::vector<AddrInfo>> reference(const Want& w) {
  addrinfo hints{};
  hints.ai_flags = AI_ADDRCONFIG | AI_V4MAPPED | (w.passive ? AI_PASSIVE : 0);
  hints.ai_family = w.family;
  hints.ai_socktype = w.dgram ? SOCK_DGRAM : SOCK_STREAM;
  addrinfo* res = nullptr;
  if (::getaddrinfo(w.name.empty() ? nullptr : w.name.c_str(), w.service.empty() ? nullptr : w.service.c_str(), &hints, &res)) return std::nullopt;
  std::vector<AddrInfo> v;
  for (auto* p = res; p; p = p->ai_next) {
    v.push_back({p->ai_family, p->ai_socktype, p->ai_protocol, std::string(reinterpret_cast<char*>(p->ai_addr), p->ai_addrlen)});
  }
  ::freeaddrinfo(res);
  return v;
}
std::string numeric_v4(vh::Rng& r) {
  std::uint32_t v = static_cast<std::uint32_t>(r.next());
  if (r.chance(1, 6)) v = 0;
  if (r.chance(1, 6)) v = 0xffffffff;
  if (r.chance(1, 6)) v = 0x7f000001;
  char b[64];
  in_addr a{htonl(v)};
  return ::inet_ntop(AF_INET, &a, b, sizeof b);
}
std::string numeric_v6(vh::Rng& r) {
  in6_addr a;
  for (auto& x : a.s6_addr) x = static_cast<unsigned char>(r.next());
  // Runs of zeros, loopback, any, mapped.
  for (int k = static_cast<int>(r.below(4)); k > 0; k--) {
    std::size_t f = r.below(16), n = r.below(16);
    for (std::size_t i = f; i < std::min<std::size_t>(16, f + n); i++) a.s6_addr[i] = 0;
  }
  if (r.chance(1, 8)) a = in6addr_loopback;
  if (r.chance(1, 8)) a = in6addr_any;
  if (r.chance(1, 8)) {
    std::memset(&a, 0, 10);
    a.s6_addr[10] = a.s6_addr[11] = 255;
  }
  // Link-local addresses need an interface.
  if (a.s6_addr[0] == 0xfe && (a.s6_addr[1] & 0xc0) == 0x80) a.s6_addr[0] = 0x20;
  if (a.s6_addr[0] == 0xff) a.s6_addr[0] = 0x20;
  char b[64];
  return ::inet_ntop(AF_INET6, &a, b, sizeof b);
}
int some_port(vh::Rng& r) {
  const int special[] = {0, 1, 80, 255, 256, 1023, 1024, 32767, 32768, 65534, 65535};
  return r.chance(1, 3) ? special[r.below(std::size(special))] : static_cast<int>(r.below(65536));
}
// Random settings applied in random order, with repetitions: the last one counts.
arpc::endpoint make_endpoint(vh::Rng& r, Want& w, bool allow_bad) {
  arpc::endpoint e;
  auto apply = [&](int what) {
    switch (what) {
      case 0:
        switch (r.below(allow_bad ? 6 : 4)) {
          case 0: w.name = ""; break;
          case 1: w.name = numeric_v4(r); break;
          case 2: w.name = numeric_v6(r); break;
          case 3: w.name = "localhost"; break;
          case 4: w.name = "1.2.3.4.5.6 "; break;
          case 5: w.name = "::1::"; break;
        }
        e.name(w.name);
        break;
      case 1:
        switch (r.below(allow_bad ? 5 : 3)) {
          case 0: w.service = ""; e.service(""); break;
          case 1:
          case 2: {
            int p = some_port(r);
            w.service = std::to_string(p);
            if (r.chance(1, 2)) {
              e.port(p);
            } else {
              e.service(w.service);
            }
            break;
          }
          case 3: w.service = "no-such-service"; e.service(w.service); break;
          case 4: w.service = r.chance(1, 2) ? "http" : "ssh"; e.service(w.service); break;
        }
        break;
      case 2:
        w.passive = r.chance(1, 2);
        if (w.passive) {
          e.passive();
        } else {
          e.active();
        }
        break;
      case 3:
        w.dgram = r.chance(1, 3);
        if (w.dgram) {
          e.datagram();
        } else {
          e.stream();
        }
        break;
      case 4:
        switch (r.below(3)) {
          case 0: w.family = AF_UNSPEC; e.ip(); break;
          case 1: w.family = AF_INET; e.ipv4(); break;
          case 2: w.family = AF_INET6; e.ipv6(); break;
        }
        break;
    }
  };
  for (int i = static_cast<int>(r.below(10)); i > 0; i--) apply(static_cast<int>(r.below(5)));
  if (r.chance(4, 5)) {
    apply(0);
    apply(1);
  }
  // Ports out of range denote nothing, and leave the endpoint alone.
  if (r.chance(1, 4)) {
    const int bad[] = {-1, 65536, 65537, 70000, -65536, 1 << 30, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()};
    int p = bad[r.below(std::size(bad))];
    bool thrown = false;
    try {
      e.port(p);
    } catch (const arpc::errors::invalid_argument&) {
      thrown = true;
    }
    VH_CHECK(thrown, "A10:port-out-of-range", std::to_string(p));
  }
  return e;
}

// The printed form names the same address.
void check_printed(const arpc::address& a, const std::string& ctx) {
  std::string s = a.as_string();
  auto colon = s.rfind(':');
  bool good = colon != std::string::npos;
  if (good) {
    std::string host = s.substr(0, colon), port = s.substr(colon + 1);
    good = !port.empty() && port.find_first_not_of("0123456789") == std::string::npos && (port == "0" || port[0] != '0');
    if (good && a.address_data()->sa_family == AF_INET6) {
      good = host.size() > 2 && host.front() == '[' && host.back() == ']';
      in6_addr in;
      auto* sin = reinterpret_cast<const sockaddr_in6*>(a.address_data());
      good = good && ::inet_pton(AF_INET6, host.substr(1, host.size() - 2).c_str(), &in) == 1 && !std::memcmp(&in, &sin->sin6_addr, sizeof in) &&
             std::stol(port) == ntohs(sin->sin6_port);
    } else if (good) {
      in_addr in;
      auto* sin = reinterpret_cast<const sockaddr_in*>(a.address_data());
      good = ::inet_pton(AF_INET, host.c_str(), &in) == 1 && in.s_addr == sin->sin_addr.s_addr && std::stol(port) == ntohs(sin->sin_port);
    }
  }
  VH_CHECK(good, "A10:printed", ctx + ": '" + s + "' for " + show(info_of(a)));
}

std::vector<AddrInfo> infos(const arpc::address_list& l) {
  std::vector<AddrInfo> v;
  for (const auto& a : l) v.push_back(info_of(a));
  return v;
}
void check_list(arpc::address_list& l, const std::vector<AddrInfo>& want, const std::string& ctx) {
  auto have = infos(l);
  VH_CHECK(have == want, "A10:resolved", ctx + " gave" + show(have) + ", expected" + show(want));
  VH_CHECK(l.size() == want.size() && l.empty() == want.empty(), "A10:list-size", ctx);
  std::size_t i = 0;
  arpc::address_list::iterator it = l.begin(), post;
  for (; it != l.end(); post = it++, i++) {
    VH_CHECK(&*it == it.operator->() && info_of(*it) == want[i], "A10:list-iterator", ctx);
  }
  VH_CHECK(i == want.size() && it == l.end(), "A10:list-iterator", ctx);
  const arpc::address_list& cl = l;
  i = 0;
  arpc::address_list::const_iterator from(l.begin()), other = cl.cbegin();
  VH_CHECK(from == cl.begin() && from == other, "A10:list-const-iterator", ctx);
  for (auto c = cl.cbegin(); c != cl.cend(); ++c, i++) {
    VH_CHECK(info_of(*c) == want[i] && c->family() == want[i].family, "A10:list-const-iterator", ctx);
  }
  VH_CHECK(i == want.size() && static_cast<std::size_t>(std::distance(cl.begin(), cl.end())) == want.size(), "A10:list-const-iterator", ctx);
  auto e = cl.end();
  swap(from, e);
  VH_CHECK(from == cl.end() && e == cl.begin(), "A10:list-iterator-swap", ctx);
}

void resolving(std::uint64_t seed) {
  vh::Rng r(seed);
  no_noise();
  Want w;
  auto e = make_endpoint(r, w, true);
  std::string ctx = w.show();
  vh::mark("resolving " + ctx);
  if (w.name.empty() && w.service.empty()) {
    // Nothing to resolve.
  }
  auto want = reference(w);
  std::optional<arpc::address_list> l;
  bool moved = r.chance(1, 2), async = r.chance(1, 2);
  auto copy = e;
  outcome o = attempt([&] {
    if (moved) {
      l.emplace(async ? arpc::address_resolver::get().async_resolve(std::move(copy)).get() : arpc::address_resolver::get().resolve(std::move(copy)));
    } else {
      const auto& ce = e;
      l.emplace(async ? arpc::address_resolver::get().async_resolve(ce).get() : arpc::address_resolver::get().resolve(ce));
    }
  });
  VH_CHECK(o == (want ? ok : io), "A10:resolve-outcome", ctx + ": " + outcome_name(o));
  if (o == ok && want) {
    VH_CHECK(!l->empty(), "A10:empty-success", ctx);
    check_list(*l, *want, ctx);
    // Numeric ones denote themselves.
    in_addr a4;
    in6_addr a6;
    int port = w.service.empty() ? 0 : std::atoi(w.service.c_str());
    bool digits = w.service.find_first_not_of("0123456789") == std::string::npos;
    for (auto& a : *l) {
      VH_CHECK(!w.family || a.family() == w.family, "A10:family", ctx);
      VH_CHECK(a.socket_type() == (w.dgram ? SOCK_DGRAM : SOCK_STREAM), "A10:type", ctx);
      VH_CHECK(a.address_data()->sa_family == a.family(), "A10:family", ctx);
      if (digits) VH_CHECK(port_of(a) == port, "A10:port", ctx + " gave " + std::to_string(port_of(a)));
      if (a.family() == AF_INET && ::inet_pton(AF_INET, w.name.c_str(), &a4) == 1) {
        VH_CHECK(reinterpret_cast<const sockaddr_in*>(a.address_data())->sin_addr.s_addr == a4.s_addr, "A10:host", ctx);
      }
      // Mapped ones may be given as IPv4.
      if (::inet_pton(AF_INET6, w.name.c_str(), &a6) == 1 && !IN6_IS_ADDR_V4MAPPED(&a6)) {
        VH_CHECK(a.family() == AF_INET6 && !std::memcmp(&reinterpret_cast<const sockaddr_in6*>(a.address_data())->sin6_addr, &a6, sizeof a6), "A10:host", ctx);
      }
      check_printed(a, ctx);
    }
    // Lists move as wholes; addresses copied out of them are independent.
    std::vector<arpc::address> out(l->begin(), l->end());
    arpc::address_list m(std::move(*l));
    check_list(m, *want, ctx + " moved");
    VH_CHECK(l->empty() && l->begin() == l->end(), "A10:moved-from-list", ctx);
    *l = std::move(m);
    check_list(*l, *want, ctx + " moved back");
    for (auto& a : *l) a.address_data()->sa_family = 77;
    l.reset();
    for (std::size_t i = 0; i < out.size(); i++) VH_CHECK(info_of(out[i]) == (*want)[i], "A10:copied-out", ctx);
    vh::stat("endpoints resolved");
    vh::stat_max("longest list", want->size());
  } else {
    vh::stat("endpoints refused");
  }
  vh::eval(vh::hash_str(ctx), !w.name.empty() || !w.service.empty());
}

// Values of addresses under copies, moves and changes.
void address_values(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("address values seed=" + std::to_string(seed));
  no_noise();
  std::vector<std::unique_ptr<arpc::address>> a;
  std::vector<std::optional<AddrInfo>> want;  // Nothing once moved from.
  std::uint64_t h = seed;
  auto fresh = [&] {
    auto x = std::make_unique<arpc::address>();
    std::string zero(sizeof(sockaddr_storage), '\0');
    VH_CHECK((info_of(*x) == AddrInfo{0, 0, 0, zero}), "A10:fresh-address", show(info_of(*x)));
    a.push_back(std::move(x));
    want.push_back(AddrInfo{0, 0, 0, zero});
  };
  auto fill = [&](std::size_t i) {
    auto& w = *want[i];
    auto& x = *a[i];
    std::size_t size = r.chance(1, 3) ? sizeof(sockaddr_in) : r.chance(1, 2) ? sizeof(sockaddr_in6) : r.below(sizeof(sockaddr_storage)) + 1;
    w = {static_cast<int>(r.below(20)), static_cast<int>(r.below(4)), static_cast<int>(r.below(20)), r.bytes(size)};
    x.family() = w.family;
    x.socket_type() = w.type;
    x.protocol() = w.protocol;
    x.address_size() = static_cast<socklen_t>(size);
    std::memcpy(x.address_data(), w.bytes.data(), size);
  };
  fresh();
  fill(0);
  int steps = 5 + static_cast<int>(r.below(30));
  for (int s = 0; s < steps; s++) {
    std::size_t i = r.below(a.size());
    int op = static_cast<int>(r.below(6));
    h = vh::hcomb(h, op * 64 + i);
    switch (op) {
      case 0: if (want[i]) fill(i); break;
      case 1: if (a.size() < 12) fresh(); break;
      case 2:
        if (a.size() < 12) {
          const auto& c = *a[i];
          auto x = std::make_unique<arpc::address>(c);
          if (want[i]) {
            a.push_back(std::move(x));
            want.push_back(want[i]);
          }
        }
        break;
      case 3:
        if (a.size() < 12 && want[i]) {
          a.push_back(std::make_unique<arpc::address>(std::move(*a[i])));
          want.push_back(std::move(want[i]));
          want[i].reset();
        }
        break;
      case 4:
        if (a.size() > 1) {
          a.erase(a.begin() + i);
          want.erase(want.begin() + i);
        }
        break;
      case 5: {
        // Through a growing vector.
        std::vector<arpc::address> v;
        std::vector<AddrInfo> vw;
        for (std::size_t k = 0; k < a.size(); k++) {
          if (!want[k]) continue;
          v.push_back(*a[k]);
          vw.push_back(*want[k]);
        }
        for (std::size_t k = 0; k < v.size(); k++) VH_CHECK(info_of(v[k]) == vw[k], "A10:address-in-vector", std::to_string(k));
        break;
      }
    }
    for (std::size_t k = 0; k < a.size(); k++) {
      if (!want[k]) continue;
      const auto& c = *a[k];
      VH_CHECK(info_of(c) == *want[k], "A10:address-value", "seed=" + std::to_string(seed) + " step " + std::to_string(s) + " address " + std::to_string(k) + " is " + show(info_of(c)) + ", expected " + show(*want[k]));
    }
  }
  vh::eval(h, true);
  vh::stat("address value operations", steps);
}

void concurrent_resolving(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("concurrent resolving seed=" + std::to_string(seed));
  no_noise();
  int n = 2 + static_cast<int>(r.below(4)), per = 3 + static_cast<int>(r.below(30));
  struct Req {
    Want w;
    arpc::endpoint e;
    std::optional<std::vector<AddrInfo>> want;
  };
  std::vector<std::vector<Req>> reqs(n);
  for (auto& v : reqs) {
    v.resize(per);
    for (auto& q : v) {
      q.e = make_endpoint(r, q.w, true);
      q.want = reference(q.w);
    }
  }
  set_noise(r, false);
  std::vector<std::string> bad(n);
  std::vector<std::uint64_t> seeds(n);
  for (auto& s : seeds) s = r.next();
  hist::run_threads(n, seed, [&](int t) {
    vh::Rng tr(seeds[t]);
    std::vector<std::pair<Req*, arpc::future<arpc::address_list>>> pending;
    auto finish = [&](std::size_t k) {
      auto [q, f] = std::move(pending[k]);
      pending.erase(pending.begin() + k);
      try {
        auto l = f.get();
        if (!q->want) {
          bad[t] = q->w.show() + " resolved";
        } else if (infos(l) != *q->want) {
          bad[t] = q->w.show() + " gave" + show(infos(l)) + ", expected" + show(*q->want);
        }
      } catch (const arpc::errors::io_error&) {
        if (q->want) bad[t] = q->w.show() + " failed";
      } catch (const std::exception& e) {
        bad[t] = q->w.show() + " failed with " + e.what();
      }
      vh::st().progress.fetch_add(1, rlx);
    };
    for (auto& q : reqs[t]) {
      pending.emplace_back(&q, arpc::address_resolver::get().async_resolve(q.e));
      while (pending.size() > 1 && tr.chance(1, 2)) finish(tr.below(pending.size()));
      // Some are abandoned.
      if (pending.size() > 3 && tr.chance(1, 4)) pending.pop_back();
    }
    while (!pending.empty()) finish(tr.below(pending.size()));
  });
  no_noise();
  for (auto& b : bad) VH_CHECK(b.empty(), "A10:concurrent-resolve", b);
  vh::eval(vh::hcomb(seed, n * per), true);
  vh::stat("concurrent requests", n * per);
}

// Requests in a context that ended are abandoned with its error.
void ended_contexts(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("ended contexts seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  for (int i = 0; i < 3; i++) {
    bool dl = r.chance(1, 2);
    outcome o;
    {
      arpc::context c;
      if (dl) {
        c.set_timeout(-2ms);
      } else {
        c.cancel();
      }
      o = attempt([&] {
        auto s = arpc::dial(arpc::endpoint().name("127.0.0.1").port(1));
      });
    }
    VH_CHECK(o == (dl ? deadline : cancelled), "A10:dial-in-ended-context", outcome_name(o));
  }
  ledger.check("ended contexts");
}

// --- Bound, accepted and connected sockets ---------------------------------

void views(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("views seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  set_noise(r, false);
  // The same object receives the addresses of all peers.
  arpc::address reused;
  if (r.chance(1, 3)) reused.address_size() = 0;
  int rounds = 1 + static_cast<int>(r.below(5));
  for (int i = 0; i < rounds; i++) {
    bool v6 = have_v6() && r.chance(1, 2), dgram = r.chance(1, 5);
    auto resolve = [&](bool passive, int port) {
      arpc::endpoint e;
      e.name(v6 ? "::1" : "127.0.0.1").port(port);
      if (passive) e.passive();
      if (dgram) e.datagram();
      auto l = arpc::address_resolver::get().resolve(e);
      return arpc::address(*l.begin());
    };
    auto at = resolve(true, 0);
    auto l = arpc::socket(at);
    l.bind(at);
    auto own = l.own_addr();
    int port = port_of(own);
    VH_CHECK(port != 0, "A10:bound-port", ctx);
    auto full = resolve(false, port);
    VH_CHECK(info_of(own) == info_of(full), "A10:own-address", ctx + " own " + show(info_of(own)) + ", expected " + show(info_of(full)));
    check_printed(own, ctx);
    auto c = arpc::socket(full);
    if (dgram) {
      c.connect(full);
      auto mine = c.own_addr();
      VH_CHECK(info_of(c.peer_addr()) == info_of(own), "A10:peer-address", ctx);
      l.connect(mine);
      VH_CHECK(info_of(l.peer_addr()) == info_of(mine), "A10:peer-address", ctx);
      // Datagrams keep their boundaries.
      c.write("abc", 3);
      c.write("de", 2);
      char b[10];
      std::size_t n1 = l.read(b, 10), n2 = l.read(b + 5, 5);
      VH_CHECK(n1 == 3 && n2 == 2 && !std::memcmp(b, "abc", 3) && !std::memcmp(b + 5, "de", 2), "A10:datagram", ctx);
      continue;
    }
    l.listen(4);
    if (r.chance(1, 2)) l.make_non_blocking();
    bool nb = r.chance(1, 2);
    c.make_non_blocking(nb);
    c.connect(full);
    int how = static_cast<int>(r.below(4));
    channel s;
    arpc::address plain;
    switch (how) {
      case 0: s = l.accept(); break;
      case 1: s = l.accept(reused); break;
      case 2: {
        auto [x] = arpc::select(l.async_accept(reused));
        s = std::move(*x);
        break;
      }
      case 3: s = l.accept(plain); break;
    }
    auto client = c.own_addr();
    VH_CHECK(info_of(s.peer_addr()) == info_of(client), "A10:peer-address", ctx + " " + show(info_of(s.peer_addr())) + " vs " + show(info_of(client)));
    VH_CHECK(info_of(c.peer_addr()) == info_of(own) && info_of(s.own_addr()) == info_of(own), "A10:own-address", ctx);
    VH_CHECK(client.family() == (v6 ? AF_INET6 : AF_INET) && client.socket_type() == SOCK_STREAM && client.protocol() == IPPROTO_TCP, "A10:address-kind", ctx);
    if (how) {
      auto& got = how == 3 ? plain : reused;
      VH_CHECK(info_of(got) == info_of(client), "A10:accepted-address", ctx + " " + show(info_of(got)) + " vs " + show(info_of(client)));
      check_printed(got, ctx);
    }
    // A reported address can be dialled again.
    auto again_addr = c.peer_addr();
    auto c2 = arpc::socket(again_addr);
    c2.connect(again_addr);
    auto s2 = l.accept();
    c2.write("q", 1);
    char b;
    VH_CHECK(s2.read(&b, 1) == 1 && b == 'q', "A10:reported-address-unusable", ctx);
    vh::stat("accepted connections");
  }
  no_noise();
  // Failures while asking leak nothing.
  {
    auto at = loopback(false);
    auto l = arpc::socket(at);
    l.bind(at).listen(4);
    auto to = l.own_addr();
    const char* calls[] = {"accept", "getsockopt", "getsockname", "getpeername", "connect"};
    int k = static_cast<int>(r.below(5));
    plan_errno = io_errnos[r.below(std::size(io_errnos))];
    plan_permille = 1000;
    plan_call = calls[k];
    channel c = arpc::socket(to);
    if (k < 4) c.connect(to);
    faults::fail_hook = &plan_hook;
    outcome o = attempt([&] {
      switch (k) {
        case 0: l.accept(); break;
        case 1: { arpc::address a; l.accept(a); break; }
        case 2: c.own_addr(); break;
        case 3: c.peer_addr(); break;
        case 4: c.connect(to); break;
      }
    });
    faults::fail_hook = nullptr;
    VH_CHECK(o == io, "A10:failure-class", ctx + " " + calls[k] + " " + std::to_string(plan_errno.load()) + ": " + outcome_name(o));
  }
  ledger.check("views " + ctx);
  vh::eval(vh::hcomb(seed, rounds), true);
}

// --- Dialling --------------------------------------------------------------

std::mutex dial_mu;
std::vector<std::string> dialled;
void on_connect(const sockaddr* a, socklen_t l) {
  std::lock_guard<std::mutex> g(dial_mu);
  dialled.emplace_back(reinterpret_cast<const char*>(a), l);
}
std::atomic<int> connect_fail_mask{0}, connect_seen{0}, socket_fail_mask{0}, socket_seen{0};
int connect_errno(int k) { return k % 3 == 0 ? ECONNREFUSED : k % 3 == 1 ? EHOSTUNREACH : ETIMEDOUT; }
int dial_hook(const char* call, int) {
  if (!std::strcmp(call, "connect")) {
    int k = connect_seen.fetch_add(1, rlx);
    return connect_fail_mask.load(rlx) >> k & 1 ? connect_errno(k) : 0;
  }
  if (!std::strcmp(call, "socket")) {
    int k = socket_seen.fetch_add(1, rlx);
    return socket_fail_mask.load(rlx) >> k & 1 ? EAFNOSUPPORT : 0;
  }
  return 0;
}

void dialling(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("dialling seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  // Sockets on one port of both families, listening or just holding the port.
  bool up[2] = {r.chance(2, 3), r.chance(2, 3)};
  channel hold[2];
  int port = 0;
  for (int tries = 0; tries < 50 && !port; tries++) {
    auto a4 = loopback(false);
    hold[0] = arpc::socket(a4);
    hold[0].bind(a4);
    port = port_of(hold[0].own_addr());
    if (have_v6()) {
      auto a6 = loopback(true, port);
      hold[1] = arpc::socket(a6);
      if (attempt([&] { hold[1].bind(a6); }) != ok) port = 0;
    }
  }
  if (!port) return;
  for (int i = 0; i < 2; i++) {
    if (hold[i] && up[i]) hold[i].listen(8);
  }
  Want w;
  w.service = std::to_string(port);
  const char* names[] = {"", "localhost", "127.0.0.1", "::1"};
  w.name = names[r.below(have_v6() ? 4 : 3)];
  w.family = r.chance(1, 4) ? AF_INET : AF_UNSPEC;
  arpc::endpoint e;
  e.name(w.name).service(w.service);
  if (w.family) e.ipv4();
  if (r.chance(1, 4)) e.passive();  // Dialling is active anyway.
  auto addrs = reference(w);
  ctx += " " + w.show() + " up " + std::to_string(up[0]) + std::to_string(up[1]);
  connect_fail_mask = r.chance(1, 2) ? static_cast<int>(r.below(8)) : 0;
  socket_fail_mask = r.chance(1, 4) ? static_cast<int>(r.below(8)) : 0;
  connect_seen = socket_seen = 0;
  ctx += " connect mask " + std::to_string(connect_fail_mask) + " socket mask " + std::to_string(socket_fail_mask);
  vh::mark("dialling " + ctx);
  // What has to happen.
  std::vector<std::string> want_dialled;
  int reached = -1, last_connect = -1;
  bool last_was_socket = false;
  if (addrs) {
    int k = 0;
    for (std::size_t i = 0; i < addrs->size(); i++) {
      if (socket_fail_mask >> i & 1) {
        last_was_socket = true;
        continue;
      }
      want_dialled.push_back((*addrs)[i].bytes);
      last_was_socket = false;
      last_connect = connect_fail_mask >> k & 1 ? connect_errno(k) : ECONNREFUSED;
      bool refused = connect_fail_mask >> k & 1;
      k++;
      if (!refused && up[(*addrs)[i].family == AF_INET6]) {
        reached = static_cast<int>(i);
        break;
      }
    }
  }
  dialled.clear();
  bool nb = r.chance(1, 2), dflt = nb && r.chance(1, 2);
  set_noise(r, false);
  faults::connect_hook = &on_connect;
  faults::fail_hook = &dial_hook;
  std::optional<channel> c;
  std::string what;
  outcome o = attempt(
      [&] {
        std::optional<arpc::context> timed;
        if (r.chance(1, 4)) {
          timed.emplace();
          timed->set_timeout(1h);
        }
        c.emplace(dflt ? arpc::dial(e) : arpc::dial(e, nb));
      },
      &what);
  no_noise();
  VH_CHECK(o == (reached >= 0 ? ok : io), "A10:dial-outcome", ctx + ": " + outcome_name(o) + " " + what);
  VH_CHECK(dialled == want_dialled, "A10:dial-order", ctx + ": tried " + std::to_string(dialled.size()) + " of " + std::to_string(want_dialled.size()));
  if (o == ok && reached >= 0) {
    VH_CHECK(info_of(c->peer_addr()).bytes == (*addrs)[reached].bytes, "A10:dial-peer", ctx);
    VH_CHECK(((::fcntl(c->get(), F_GETFL) & O_NONBLOCK) != 0) == nb, "A10:dial-blocking", ctx);
    auto s = hold[(*addrs)[reached].family == AF_INET6].accept();
    VH_CHECK(info_of(s.peer_addr()) == info_of(c->own_addr()), "A10:dial-peer", ctx);
    s.write("hello", 5);
    char b[8];
    std::size_t n = 0;
    while (n < 5) n += c->read(b + n, 5 - n);
    VH_CHECK(!std::memcmp(b, "hello", 5), "A10:dial-data", ctx);
    vh::stat("dials connected");
  } else if (addrs && !last_was_socket && o == io) {
    // The last failure is the one reported: compare with failing alone in the same way.
    static std::map<int, std::string> texts;
    if (!texts.count(last_connect)) {
      plan_call = "connect";
      plan_errno = last_connect;
      plan_permille = 1000;
      faults::fail_hook = &plan_hook;
      auto a = loopback(false, port);
      attempt([&] { arpc::socket(a).connect(a); }, &texts[last_connect]);
      no_noise();
    }
    // Refusals may be noticed when connecting or later, so compare the end of the text.
    auto tail = [](const std::string& s) { return s.substr(s.find_last_of(' ') + 1); };
    VH_CHECK(tail(what) == tail(texts[last_connect]), "A10:last-failure", ctx + ": '" + what + "', expected as in '" + texts[last_connect] + "'");
    vh::stat("dials refused");
  }
  c.reset();
  hold[0].close();
  hold[1].close();
  ledger.check("dialling " + ctx);
  vh::eval(vh::hash_str(ctx), true);
}

// --- Listeners -------------------------------------------------------------

std::atomic<int> accept_permille{0};
int accept_hook(const char* call, int) {
  if (std::strcmp(call, "accept") && std::strcmp(call, "fcntl")) return 0;
  if (static_cast<int>(faults::rnd() % 1000) >= accept_permille.load(rlx)) return 0;
  // Failing to prepare an accepted one costs that connection.
  if (!std::strcmp(call, "fcntl")) return 0;
  const int e[] = {EMFILE, ECONNABORTED, ENOBUFS, EAGAIN};
  return e[faults::rnd() % 4];
}

void listening(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("listening seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  bool nb = r.chance(1, 2);
  std::optional<arpc::listener> l;
  int port = 0;
  const char* names[] = {"", "127.0.0.1", "localhost", "::1"};
  std::string name = names[r.below(have_v6() ? 4 : 3)];
  for (int tries = 0; tries < 50 && !l; tries++) {
    port = 20000 + static_cast<int>((r.next() ^ static_cast<std::uint64_t>(::getpid()) * 977) % 12000);
    // A failed one closes everything.
    attempt([&] { l.emplace(arpc::endpoint().name(name).port(port), true, nb); });
    if (!l) ledger.check("failed listener " + ctx);
  }
  if (!l) return;
  // Taken now.
  outcome o = attempt([&] { arpc::listener again(arpc::endpoint().name(name).port(port)); });
  VH_CHECK(o == io, "A10:listener-twice", ctx + ": " + outcome_name(o));
  int n = 1 + static_cast<int>(r.below(4)), per = 1 + static_cast<int>(r.below(6));
  int total = n * per;
  set_noise(r, false);
  accept_permille = r.chance(1, 2) ? 0 : static_cast<int>(r.below(600));
  faults::fail_hook = &accept_hook;
  std::vector<std::string> bad(n + 1);
  std::vector<int> ids;
  std::vector<std::uint64_t> seeds(n);
  for (auto& s : seeds) s = r.next();
  int errors = 0, wrong_mode = 0;
  hist::run_threads(n + 1, seed, [&](int t) {
    if (t == n) {
      std::vector<channel> open;
      while (static_cast<int>(ids.size()) < total) {
        try {
          auto c = l->accept();
          if (((::fcntl(c.get(), F_GETFL) & O_NONBLOCK) != 0) != nb) wrong_mode++;
          unsigned char b[4];
          std::size_t k = 0;
          while (k < 4) k += c.read(b + k, 4 - k);
          ids.push_back(b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24);
          c.write(b, 4);
          open.push_back(std::move(c));
        } catch (const arpc::errors::io_error&) {
          errors++;
        } catch (const std::exception& e) {
          bad[n] = e.what();
          if (++errors > 100000) return;
        }
        vh::st().progress.fetch_add(1, rlx);
      }
      return;
    }
    vh::Rng tr(seeds[t]);
    for (int i = 0; i < per; i++) {
      try {
        arpc::endpoint e;
        e.port(port);
        if (!name.empty()) e.name(name);
        if (name.empty() && tr.chance(1, 2)) e.name("127.0.0.1");
        auto c = arpc::dial(e);
        int id = t * 1000 + i;
        unsigned char b[4] = {static_cast<unsigned char>(id), static_cast<unsigned char>(id >> 8), 0, 0}, back[4];
        std::size_t k = 0;
        while (k < 4) k += c.write(b + k, 4 - k);
        k = 0;
        while (k < 4) k += c.read(back + k, 4 - k);
        if (std::memcmp(b, back, 4)) bad[t] = "another's answer";
      } catch (const std::exception& e) {
        bad[t] = std::string("client: ") + e.what();
      }
      vh::st().progress.fetch_add(1, rlx);
    }
  });
  no_noise();
  for (auto& b : bad) VH_CHECK(b.empty(), "A10:listener", ctx + ": " + b);
  std::set<int> distinct(ids.begin(), ids.end());
  VH_CHECK(static_cast<int>(ids.size()) == total && static_cast<int>(distinct.size()) == total, "A10:accepted-once", ctx + ": " + std::to_string(distinct.size()) + " of " + std::to_string(total));
  VH_CHECK(!wrong_mode, "A10:accepted-blocking", ctx);
  l.reset();
  ledger.check("listening " + ctx);
  // Failures while listening close what was opened.
  const char* calls[] = {"socket", "bind", "listen", "setsockopt", "fcntl"};
  for (const char* call : calls) {
    plan_call = call;
    plan_errno = EMFILE;
    plan_permille = r.chance(1, 2) ? 1000 : 400;
    plan_count = 0;
    faults::fail_hook = &plan_hook;
    outcome lo = attempt([&] { arpc::listener x(arpc::endpoint().name(name).port(port)); });
    faults::fail_hook = nullptr;
    if (plan_count) VH_CHECK(lo == io, "A10:listener-failure", ctx + " " + call + ": " + outcome_name(lo));
    ledger.check(std::string("failed listener ") + call + " " + ctx);
  }
  vh::eval(vh::hcomb(seed, total), true);
  vh::stat("connections accepted", ids.size());
  vh::stat("failed accepts", errors);
}

void run_a10() {
  // The resolver and its thread's context.
  attempt([] { arpc::address_resolver::get().resolve(arpc::endpoint().name("127.0.0.1").port(1)); });
  int n = vh::scale(300, 3000);
  for (int i = 0; i < n && vh::st().violations.empty(); i++) {
    std::uint64_t s = vh::mix64(vh::seed() * 104729 + i);
    for (int k = 0; k < 8; k++) resolving(s + k);
    for (int k = 0; k < 2; k++) address_values(s + 16 + k);
    if (i % 4 == 0) concurrent_resolving(s + 32);
    if (i % 8 == 0) ended_contexts(s + 33);
    views(s + 34);
    for (int k = 0; k < 3; k++) dialling(s + 35 + k);
    if (i % 2 == 0) listening(s + 40);
  }
}
}  // namespace
