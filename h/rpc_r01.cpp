// R01: every call returns its own result.
#include "rpc.h"

namespace rpc {
namespace {
template <typename Kit>
void round(u64 seed, const char* kit_name) {
  vh::Rng r(seed);
  vh::mark(std::string("calls ") + kit_name + " seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = std::string(kit_name) + " seed=" + std::to_string(seed);
  const int threads = 1 + static_cast<int>(r.below(4)), per = 1 + static_cast<int>(r.below(vh::scale(24, 40)));
  const int conns = 1 + static_cast<int>(r.below(3)), objects = 1 + static_cast<int>(r.below(4));
  auto world = std::make_unique<World>(seed, static_cast<std::size_t>(threads) * per);
  World& w = *world;
  for (auto& p : w.plan) {
    p.method = static_cast<int>(r.below(methods));
    p.object = static_cast<int>(r.below(objects));
  }
  arpc::server_options so;
  so.num_worker_threads = 1 + static_cast<unsigned>(r.below(6));
  so.queue_size = r.chance(1, 2) ? -1 : static_cast<int>(r.below(4));
  if (r.chance(1, 3)) so.request_timeout = std::nullopt;
  arpc::client_options co;
  if (r.chance(1, 3)) co.request_timeout = std::nullopt;
  const u64 order = r.next();
  u64 history = 0;
  std::atomic<u64> trace{0};
  {
    std::vector<std::unique_ptr<arpc::server_object<Impl>>> impls;
    for (int i = 0; i < objects; i++) impls.push_back(std::make_unique<arpc::server_object<Impl>>(w, i));
    std::string host;
    int port = 0;
    auto server = make_server<typename Kit::server>(r, so, host, port);
    if (!server) return;
    ctx += " " + host + " workers " + std::to_string(so.num_worker_threads) + " queue " + std::to_string(so.queue_size);
    // The same characters in different kinds of names are different names.
    auto with_name = [](int i, auto f) {
      switch (i) {
        case 0: f(std::string("1")); break;
        case 1: f(1); break;
        case 2: f(std::make_tuple(std::string("1"), 2)); break;
        default: f("a longer name\x01 with\xff more in it"); break;
      }
    };
    for (int i = 0; i < objects; i++) with_name(i, [&](auto name) { server->register_object(name, *impls[i]); });
    std::vector<std::unique_ptr<typename Kit::client>> clients;
    for (int i = 0; i < conns; i++) clients.push_back(std::make_unique<typename Kit::client>(at(host, port)));
    std::vector<std::vector<Outcome>> out(threads);
    std::vector<u64> seeds(threads);
    for (auto& s : seeds) s = r.next();
    for (auto& o : out) o.resize(per);
    set_noise(r);
    std::atomic<int> whos{0};
    hist::run_threads(threads, seed, [&](int t) {
      vh::Rng tr(seeds[t]);
      std::vector<std::pair<int, Finish>> open;
      auto take = [&](std::size_t i) {
        out[t][open[i].first] = open[i].second();
        trace.fetch_add(hist::now() * static_cast<u64>(t * per + open[i].first + 1), rlx);
        open.erase(open.begin() + static_cast<long>(i));
      };
      for (int k = 0; k < per; k++) {
        u64 token = static_cast<u64>(t * per + k);
        int id = w.plan[token].object;
        auto& c = *clients[tr.below(conns)];
        // Through the interface, or through one it extends.
        with_name(id, [&](auto name) {
          int st = static_cast<int>(tr.below(styles));
          auto s = c.template get_proxy<Both>(name, co);
          auto a = c.template get_proxy<Both::async>(name, co);
          if (w.plan[token].method == add && tr.chance(1, 2)) {
            auto s2 = c.template get_proxy<Root>(name, co);
            auto a2 = c.template get_proxy<Root::async>(name, co);
            Payload p = payload(w.seed, token);
            drop(p);
            u64 x = p.a * 31 + p.b + static_cast<u64>(id);
            open.emplace_back(k, go(st, [&] { return s2.add(token, p.a, p.b); }, [&] { return a2.add(token, p.a, p.b); },
                                    [x](u64 v) { return v == x ? std::string() : "add"; }));
          } else if (w.plan[token].method == split && tr.chance(1, 2)) {
            auto s2 = c.template get_proxy<Right>(name, co);
            auto a2 = c.template get_proxy<Right::async>(name, co);
            Payload p = payload(w.seed, token);
            drop(p);
            auto v = p.v;
            std::reverse(v.begin(), v.end());
            auto m = p.m;
            m["id"] = id;
            auto x = std::make_tuple(token + static_cast<u64>(id), v, m);
            open.emplace_back(k, go(st, [&] { return s2.split(token, p.v, p.m); }, [&] { return a2.split(token, p.v, p.m); },
                                    [x](auto v) { return v == x ? std::string() : "split"; }));
          } else {
            if (w.plan[token].method == who) whos.fetch_add(1, rlx);
            open.emplace_back(k, call(w, token, id, st, s, a));
          }
        });
        while (!open.empty() && (open.size() > 8 || tr.chance(1, 2))) take(tr.below(open.size()));
      }
      while (!open.empty()) take(tr.below(open.size()));
    });
    no_noise();
    for (int t = 0; t < threads; t++) {
      for (int k = 0; k < per; k++) {
        u64 token = static_cast<u64>(t * per + k);
        auto& p = w.plan[token];
        std::string at = ctx + " token " + std::to_string(token) + " method " + std::to_string(p.method);
        VH_CHECK(right(w, token, out[t][k]), "R01:wrong-outcome", at + ": " + out[t][k].show());
        VH_CHECK(p.ran.load(rlx) == (p.method == who ? 0 : 1), "R01:not-executed-once", at + ": " + std::to_string(p.ran.load(rlx)) + " times");
        history = vh::hcomb(history, static_cast<u64>(p.method * 64 + p.object));
        vh::tick();
      }
    }
    VH_CHECK(w.stray.load(rlx) == 0, "R01:stray-call", ctx);
    // Any order of going away.
    if (order & 1) clients.clear();
    if (order & 2) server->stop();
    if (order & 4) {
      for (auto& i : impls) server->unregister_object(*i);
      impls.clear();
    }
    if (order & 8) clients.clear();
    server.reset();
  }
  w.report("R01", ctx);
  world.reset();
  ledger.check("R01", ctx);
  vh::stat("calls", static_cast<u64>(threads) * per);
  vh::stat(std::string("rounds ") + kit_name);
  vh::eval(vh::hcomb(history, trace.load()), threads * per > 1);
  if (r.chance(1, 20)) vh::sample(ctx + " threads " + std::to_string(threads) + " calls " + std::to_string(threads * per) + " connections " + std::to_string(conns));
}
}  // namespace
}  // namespace rpc

void harness() {
  vh::set_hang_seconds(60);
  arpc::wait(arpc::always());
  vh::Rng r(vh::seed());
  rpc::warm_up<rpc::le_kit>(r);
  for (int i = 0, n = vh::scale(60, 600); i < n && vh::st().violations.empty(); i++) {
    u64 seed = r.next();
    switch (i % 4) {
      case 1: rpc::round<rpc::be_kit>(seed, "big-endian"); break;
      case 2: rpc::round<rpc::serial_kit>(seed, "serial"); break;
      default: rpc::round<rpc::le_kit>(seed, "little-endian"); break;
    }
  }
}
