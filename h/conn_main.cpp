// A09 connections and usage locks.
#include "conc.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include "arpc/awaitable.h"
#include "arpc/channel.h"
#include "arpc/connection.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/packet_protocols.h"
#include "arpc/select.h"
#include "arpc/socket.h"
#include "arpc/usage_lock.h"
#include "arpc/wait.h"

using namespace std::chrono_literals;
using arpc::channel;
namespace {
constexpr auto rlx = std::memory_order_relaxed;

void set_noise(vh::Rng& r, bool transfers) {
  faults::delay_permille = r.chance(1, 4) ? 0 : static_cast<int>(r.below(200));
  faults::delay_max_us = 150;
  faults::eintr_permille = r.chance(1, 3) ? static_cast<int>(r.below(150)) : 0;
  faults::short_permille = transfers && r.chance(2, 3) ? static_cast<int>(r.below(700)) : 0;
  faults::again_permille = transfers && r.chance(1, 2) ? static_cast<int>(r.below(300)) : 0;
}
void no_noise() {
  faults::delay_permille = faults::eintr_permille = faults::short_permille = faults::again_permille = 0;
  faults::fail_hook = nullptr;
}
enum outcome { ok, io, eof, cancelled, deadline, other };
const char* outcome_name(outcome o) {
  const char* n[] = {"ok", "io_error", "eof", "cancelled", "deadline_exceeded", "another exception"};
  return n[o];
}
template <typename F>
outcome attempt(F f) {
  try {
    f();
    return ok;
  } catch (const arpc::errors::eof&) {
    return eof;
  } catch (const arpc::errors::cancelled&) {
    return cancelled;
  } catch (const arpc::errors::deadline_exceeded&) {
    return deadline;
  } catch (const arpc::errors::io_error&) {
    return io;
  } catch (...) {
    return other;
  }
}
struct Guard {
  bool was = faults::guarded;
  Guard() { faults::guarded = true; }
  ~Guard() { faults::guarded = was; }
};
struct Ledger {
  std::vector<int> base = faults::open_fds();
  std::uint64_t bad = faults::bad_closes(), used = faults::bad_uses(), busy = faults::closed_in_use();
  void check(const std::string& what) {
    // The resolver's thread may be releasing the last request.
    auto have = faults::open_fds();
    for (int tries = 0; tries < 5000 && have.size() > base.size(); tries++) {
      ::usleep(1000);
      have = faults::open_fds();
    }
    VH_CHECK(have.size() <= base.size(), "A09:leaked-descriptor", what + ": " + std::to_string(have.size()) + " open, were " + std::to_string(base.size()));
    VH_CHECK(faults::bad_closes() == bad, "A09:closed-twice", what);
    VH_CHECK(faults::bad_uses() == used, "A09:used-after-close", what);
    VH_CHECK(faults::closed_in_use() == busy, "A09:closed-while-used", what);
  }
};
arpc::address loopback(int port = 0) {
  arpc::address a;
  auto* in = reinterpret_cast<sockaddr_in*>(a.address_data());
  in->sin_family = AF_INET;
  in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  in->sin_port = htons(static_cast<std::uint16_t>(port));
  a.address_size() = sizeof *in;
  a.family() = AF_INET;
  a.socket_type() = SOCK_STREAM;
  return a;
}
int port_of(const channel& c) { return ntohs(reinterpret_cast<const sockaddr_in*>(c.own_addr().address_data())->sin_port); }
void stream_pair(channel p[2], bool local) {
  if (local) {
    // Not through the wrapped calls: tell the ledger with dup().
    int f[2];
    if (::socketpair(AF_UNIX, SOCK_STREAM, 0, f)) std::abort();
    for (int i = 0; i < 2; i++) {
      p[i].reset(::dup(f[i]));
    }
    // These are unknown to the ledger; close them behind its back.
    for (int i = 0; i < 2; i++) std::fclose(::fdopen(f[i], "r"));
    return;
  }
  auto l = arpc::socket(AF_INET, SOCK_STREAM, 0);
  l.bind(loopback()).listen(2);
  auto to = l.own_addr();
  p[0] = arpc::socket(to);
  p[0].connect(to);
  p[1] = l.accept();
}

// --- Usage locks -----------------------------------------------------------

struct Thing {
  std::atomic<int> users{0};
  std::atomic<bool> dead{false};
  int payload = 0;  // Written by the owner only while nobody uses it.
};
void usage_locks(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("usage locks seed=" + std::to_string(seed));
  no_noise();
  int n = 2 + static_cast<int>(r.below(3)), rounds = 3 + static_cast<int>(r.below(15));
  std::deque<Thing> things(rounds * 2 + 1);
  bool first = r.chance(1, 2);
  std::optional<arpc::usage_lock<Thing, arpc::errors::io_error>> lock;
  if (first) {
    lock.emplace(&things[0], "gone");
  } else {
    lock.emplace("gone");
    lock->arm(&things[0]);
  }
  // What get() may return: at least the one armed last before it was called.
  std::atomic<std::uint64_t> good{0}, refused{0};
  std::atomic<bool> stop{false};
  std::atomic<int> early{0}, dead_used{0}, wrong_error{0};
  faults::delay_permille = static_cast<int>(r.below(300));
  std::vector<std::uint64_t> seeds(n + 1);
  for (auto& s : seeds) s = r.next();
  bool rearm = r.chance(1, 3);
  hist::run_threads(n + 1, seed, [&](int t) {
    vh::Rng tr(seeds[t]);
    if (t == n) {
      int cur = 0, prev = -1;
      for (int i = 0; i < rounds; i++) {
        faults::jitter(500);
        if (rearm && tr.chance(1, 3)) {
          // Over an armed one: both are waited for when dropping.
          prev = cur;
          lock->arm(&things[++cur]);
          faults::jitter(300);
        }
        lock->drop();
        for (int k : {cur, prev}) {
          if (k < 0) continue;
          if (things[k].users.load(rlx)) early++;
          things[k].payload++;
          things[k].dead.store(true, rlx);
        }
        prev = -1;
        if (tr.chance(1, 3)) lock->drop();
        if (lock->get_or_null()) early++;
        faults::jitter(300);
        lock->arm(&things[++cur]);
      }
      lock->drop();
      stop = true;
      return;
    }
    auto use = [&](Thing& x) {
      x.users.fetch_add(1, rlx);
      if (x.dead.load(rlx)) dead_used++;
      volatile int p = x.payload;
      (void)p;
      faults::jitter();
      if (x.dead.load(rlx)) dead_used++;
      x.users.fetch_sub(1, rlx);
      good.fetch_add(1, rlx);
    };
    while (!stop.load(rlx)) {
      if (tr.chance(1, 2)) {
        try {
          auto p = lock->get();
          auto q = tr.chance(1, 3) ? p : nullptr;
          use(*p);
          if (q) {
            p.reset();
            use(*q);
          }
        } catch (const arpc::errors::io_error& e) {
          if (!std::strstr(e.what(), "gone")) wrong_error++;
          refused.fetch_add(1, rlx);
        } catch (...) {
          wrong_error++;
        }
      } else if (auto p = lock->get_or_null()) {
        use(*p);
      } else {
        refused.fetch_add(1, rlx);
      }
      faults::jitter();
      vh::st().progress.fetch_add(1, rlx);
    }
  });
  no_noise();
  std::string ctx = "seed=" + std::to_string(seed);
  VH_CHECK(!early, "A09:dropped-while-used", ctx);
  VH_CHECK(!dead_used, "A09:used-after-drop", ctx);
  VH_CHECK(!wrong_error, "A09:usage-error", ctx);
  VH_CHECK(attempt([&] { lock->get(); }) == io, "A09:usage-after-drop", ctx);
  // Destroying a lock drops.
  auto p = std::make_unique<Thing>();
  lock->arm(p.get());
  std::atomic<bool> released{false};
  std::atomic<bool> holding{false};
  std::thread t([&] {
    auto h = lock->get();
    holding = true;
    ::usleep(static_cast<unsigned>(seed % 300));
    released.store(true, rlx);
  });
  while (!holding) sched_yield();
  lock.reset();
  VH_CHECK(released.load(rlx), "A09:destroyed-while-used", ctx);
  t.join();
  vh::eval(vh::hcomb(seed, good), good > 0);
  vh::stat("usages granted", good);
  vh::stat("usages refused", refused);
}

// --- Streams of tagged words ------------------------------------------------

// A peer that sends words (connection << 40 | counter) on every connection it
// accepts and records the words it gets.
struct Peer {
  struct Conn {
    channel c;
    std::thread sender, receiver;
    std::vector<std::uint64_t> got;
    std::size_t torn = 0;
    std::atomic<std::uint64_t> sent{0};
  };
  channel listening;
  int port;
  std::thread acceptor;
  std::deque<Conn> conns;
  std::atomic<bool> stopping{false};
  std::uint64_t seed;
  bool may_close;
  Peer(std::uint64_t s, bool closes) : seed(s), may_close(closes) {
    listening = arpc::socket(AF_INET, SOCK_STREAM, 0);
    listening.bind(loopback()).listen(64);
    port = port_of(listening);
    acceptor = std::thread([this] { accept_loop(); });
  }
  void accept_loop() {
    faults::seed_thread(seed);
    vh::Rng r(seed);
    for (;;) {
      int fd = ::accept(listening.get(), nullptr, nullptr);
      if (fd < 0) continue;
      if (stopping) {
        ::close(fd);
        return;
      }
      conns.emplace_back();
      auto& c = conns.back();
      c.c.reset(fd);
      std::uint64_t id = conns.size(), s = r.next();
      c.sender = std::thread([this, &c, id, s] { send_loop(c, id, s); });
      c.receiver = std::thread([this, &c, s] { receive_loop(c, s + 1); });
    }
  }
  void send_loop(Conn& c, std::uint64_t id, std::uint64_t s) {
    faults::seed_thread(s);
    vh::Rng r(s);
    std::uint64_t n = 0, limit = may_close && r.chance(1, 3) ? r.below(5000) : ~0ULL;
    std::vector<std::uint64_t> w;
    while (n < limit) {
      std::size_t k = 1 + r.below(r.chance(1, 10) ? 3000 : 40);
      w.resize(k);
      for (auto& x : w) x = id << 40 | n++;
      const char* p = reinterpret_cast<const char*>(w.data());
      std::size_t left = k * 8;
      while (left) {
        auto x = ::write(c.c.get(), p, left);
        if (x <= 0) return;
        p += x;
        left -= static_cast<std::size_t>(x);
      }
      c.sent.store(n, rlx);
      faults::jitter(300);
    }
    ::shutdown(c.c.get(), r.chance(1, 2) ? SHUT_RDWR : SHUT_WR);
  }
  void receive_loop(Conn& c, std::uint64_t s) {
    faults::seed_thread(s);
    vh::Rng r(s);
    std::string buf;
    std::vector<char> b(65536);
    bool slow = r.chance(1, 2);
    for (;;) {
      auto x = ::read(c.c.get(), b.data(), 1 + r.below(slow ? 2000 : b.size()));
      if (x <= 0) break;
      buf.append(b.data(), static_cast<std::size_t>(x));
      if (slow) faults::jitter(300);
    }
    c.got.resize(buf.size() / 8);
    if (!c.got.empty()) std::memcpy(c.got.data(), buf.data(), c.got.size() * 8);
    c.torn = buf.size() % 8;
    // So that the sender ends as well.
    ::shutdown(c.c.get(), SHUT_RDWR);
  }
  // To be called when no new connections come.
  void stop() {
    stopping = true;
    {
      int fd = ::socket(AF_INET, SOCK_STREAM, 0);
      auto a = loopback(port);
      ::connect(fd, a.address_data(), a.address_size());
      acceptor.join();
      ::close(fd);
    }
    listening.close();
    for (auto& c : conns) {
      c.receiver.join();
      c.sender.join();
      c.c.close();
    }
  }
};

using Reconnectable = arpc::reconnectable_connection<arpc::client_socket_connection>;

struct ReadCall {
  std::vector<std::uint64_t> words;
  std::size_t bytes;
};
struct WriteCall {
  std::uint64_t first, count;
  bool good;
};

void teardown(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("teardown seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  std::optional<Peer> peer(std::in_place, seed, r.chance(1, 2));
  std::optional<Reconnectable> conn(std::in_place, arpc::endpoint().name("127.0.0.1").port(peer->port));
  VH_CHECK(!conn->connected(), "A09:connected-at-first", ctx);
  char b[8];
  VH_CHECK(attempt([&] { conn->read(b, 8); }) == io && attempt([&] { conn->write(b, 8); }) == io && attempt([&] { conn->flush(); }) == io &&
               attempt([&] { conn->data_available(); }) == io && attempt([&] { conn->getc(); }) == io && attempt([&] { conn->putc('x'); }) == io,
           "A09:use-before-connecting", ctx);
  conn->disconnect();
  set_noise(r, true);
  int controllers = 1 + static_cast<int>(r.below(2)), waiters = static_cast<int>(r.below(3)), checkers = static_cast<int>(r.below(2));
  int n = 2 + controllers + waiters + checkers;
  int rounds = 3 + static_cast<int>(r.below(12));
  std::vector<std::uint64_t> seeds(n);
  for (auto& s : seeds) s = r.next();
  std::vector<ReadCall> reads;
  std::vector<WriteCall> writes;
  std::atomic<int> left{controllers}, wrong{0}, connects{0}, connect_failures{0}, waits{0}, flushes{0}, read_errors{0};
  std::atomic<bool> stop{false};
  bool big = r.chance(1, 3);
  hist::run_threads(n, seed, [&](int t) {
    vh::Rng tr(seeds[t]);
    Guard* g = nullptr;
    (void)g;
    auto fine = [&](outcome o) {
      if (o != ok && o != io) wrong++;
      return o == ok;
    };
    if (t == 0) {
      std::vector<std::uint64_t> w(big ? 4000 : 64);
      while (!stop.load(rlx)) {
        std::size_t k = 1 + tr.below(w.size()), got = 0;
        outcome o;
        {
          Guard gd;
          o = attempt([&] { got = conn->read(reinterpret_cast<char*>(w.data()), k * 8); });
        }
        if (fine(o)) {
          if (got > k * 8) wrong++;
          reads.push_back({std::vector<std::uint64_t>(w.begin(), w.begin() + got / 8), got});
          if (!got) faults::jitter(500);
        } else {
          read_errors.fetch_add(1, rlx);
          faults::jitter(800);
        }
        vh::st().progress.fetch_add(1, rlx);
      }
    } else if (t == 1) {
      std::uint64_t next = 0;
      std::vector<std::uint64_t> w;
      while (!stop.load(rlx)) {
        std::size_t k = 1 + tr.below(big ? 20000 : 64);
        w.resize(k);
        std::uint64_t first = next;
        for (auto& x : w) x = next++;
        outcome o;
        {
          Guard gd;
          o = attempt([&] { conn->write(reinterpret_cast<const char*>(w.data()), k * 8); });
        }
        bool good = fine(o);
        writes.push_back({first, k, good});
        if (!good) faults::jitter(800);
        vh::st().progress.fetch_add(1, rlx);
      }
    } else if (t < 2 + controllers) {
      for (int i = 0; i < rounds; i++) {
        if (tr.chance(2, 3)) {
          Guard gd;
          if (attempt([&] { conn->connect(); }) == ok) connects.fetch_add(1, rlx);
          else connect_failures.fetch_add(1, rlx);
        }
        if (tr.chance(3, 4)) ::usleep(static_cast<unsigned>(tr.below(1500)));
        if (tr.chance(2, 3)) conn->disconnect();
        faults::jitter(500);
      }
      if (left.fetch_sub(1) == 1) {
        stop = true;
        conn->disconnect();
      }
    } else if (t < 2 + controllers + waiters) {
      while (!stop.load(rlx)) {
        outcome o = attempt([&] {
          auto a = conn->data_available();
          faults::jitter(200);
          auto [x] = arpc::select(std::move(a));
          *x;
        });
        if (fine(o)) waits.fetch_add(1, rlx);
        faults::jitter(900);
        vh::st().progress.fetch_add(1, rlx);
      }
    } else {
      while (!stop.load(rlx)) {
        conn->connected();
        if (tr.chance(1, 3) && fine(attempt([&] { conn->flush(); }))) flushes.fetch_add(1, rlx);
        faults::jitter(900);
        vh::st().progress.fetch_add(1, rlx);
      }
    }
  });
  VH_CHECK(!wrong, "A09:wrong-outcome", ctx);
  VH_CHECK(!connect_failures, "A09:connect-failed", ctx);
  VH_CHECK(!conn->connected(), "A09:connected-after-disconnect", ctx);
  VH_CHECK(attempt([&] { conn->read(b, 8); }) == io && attempt([&] { conn->write(b, 8); }) == io, "A09:use-after-disconnect", ctx);
  // A new connection works on its own stream from the start.
  no_noise();
  std::size_t before = reads.size();
  outcome o = attempt([&] { conn->connect(); });
  VH_CHECK(o == ok && conn->connected(), "A09:reconnect", ctx + ": " + outcome_name(o));
  std::uint64_t first[2] = {0, 0};
  std::size_t got = 0;
  o = attempt([&] { got = conn->read(reinterpret_cast<char*>(first), 16); });
  if (o == ok && got == 16) {
    VH_CHECK((first[0] & ((1ULL << 40) - 1)) == 0 && first[1] == first[0] + 1, "A09:new-connection-stream", ctx);
    reads.push_back({{first[0], first[1]}, 16});
  } else {
    VH_CHECK(peer->may_close, "A09:new-connection-read", ctx + ": " + outcome_name(o) + " " + std::to_string(got));
  }
  (void)before;
  // Destroyed while it is being read: the reader is certainly inside.
  std::atomic<int> blocked_outcome{-1};
  std::atomic<int> state{0};
  std::thread blocked([&] {
    Guard gd;
    std::vector<char> sink(1 << 20);
    outcome last = ok;
    auto* c = &*conn;
    state = 1;
    // One long read, of more than the peer ever sends at once.
    last = attempt([&] { c->read(sink.data(), sink.size()); });
    blocked_outcome = last;
  });
  while (state == 0) sched_yield();
  // The reader has taken its reference once it waits for the descriptor.
  auto reading = [&] {
    int total = 0;
    for (int f : faults::open_fds()) total += faults::polled(f);
    return total > 0;
  };
  while (blocked_outcome == -1 && !reading()) sched_yield();
  conn.reset();
  blocked.join();
  VH_CHECK(blocked_outcome == ok || blocked_outcome == io, "A09:destroyed-outcome", ctx + ": " + outcome_name(static_cast<outcome>(blocked_outcome.load())));
  peer->stop();
  // What the reader saw: connections in order, each from its start, without gaps.
  std::uint64_t conn_id = 0, next = 0, words = 0;
  bool broken = false, short_seen = false;
  for (auto& c : reads) {
    for (std::size_t i = 0; i < c.words.size(); i++) {
      std::uint64_t id = c.words[i] >> 40, n2 = c.words[i] & ((1ULL << 40) - 1);
      if (i && id != conn_id) broken = true;
      if (id != conn_id) {
        if (id < conn_id || n2 != 0) broken = true;
        conn_id = id;
        next = 0;
        short_seen = false;
      }
      if (n2 != next || short_seen) broken = true;
      next = n2 + 1;
      words++;
    }
    if (c.bytes % 8) short_seen = true;
  }
  VH_CHECK(!broken, "A09:read-history", ctx);
  for (auto& c : reads) {
    for (auto w : c.words) {
      if ((w >> 40) > peer->conns.size() || (w >> 40) == 0) broken = true;
    }
  }
  VH_CHECK(!broken, "A09:read-connection", ctx);
  // What the peer saw: on each connection, consecutive words of consecutive calls.
  std::set<std::uint64_t> starts, fails;
  for (auto& w : writes) {
    starts.insert(w.first);
    if (!w.good) fails.insert(w.first + w.count);
  }
  std::uint64_t last = 0, received = 0;
  std::string gap;
  bool any = false, order = true, start = true, contiguous = true, crossing = true;
  for (auto& c : peer->conns) {
    if (c.got.empty()) continue;
    if (!starts.count(c.got[0])) start = false;
    if (any && c.got[0] <= last) order = false;
    for (std::size_t i = 1; i < c.got.size(); i++) {
      if (c.got[i] != c.got[i - 1] + 1) {
        contiguous = false;
        gap = "word " + std::to_string(i) + " of " + std::to_string(c.got.size()) + " on a connection is " + std::to_string(c.got[i]) + " after " + std::to_string(c.got[i - 1]);
      }
      // After a write failed, nothing else is written to that connection.
      if (fails.count(c.got[i])) crossing = false;
    }
    any = true;
    last = c.got.back();
    received += c.got.size();
  }
  VH_CHECK(start, "A09:written-start", ctx + ": a connection began in the middle of a write");
  VH_CHECK(order, "A09:written-order", ctx);
  VH_CHECK(contiguous, "A09:written-gap", ctx + " " + gap);
  VH_CHECK(crossing, "A09:written-after-failure", ctx);
  std::size_t accepted = peer->conns.size();
  peer.reset();
  ledger.check("teardown " + ctx);
  vh::eval(vh::hcomb(seed, vh::hcomb(words, received)), words > 0);
  vh::stat("words read", words);
  vh::stat("words written", received);
  vh::stat("connections made", accepted);
  vh::stat("failed reads", read_errors);
  vh::stat("waits that saw data", waits);
}

// --- A single connection ----------------------------------------------------

unsigned char pattern(std::uint64_t seed, std::uint64_t pos) { return static_cast<unsigned char>(vh::mix64(seed + pos / 7) >> (pos % 7 * 8)); }

void live_streams(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("live streams seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  channel p[2];
  bool local = r.chance(1, 2);
  stream_pair(p, local);
  std::optional<arpc::channel_connection> c(std::in_place, std::move(p[0]));
  VH_CHECK(c->connected() && (::fcntl(p[1].get(), F_GETFL) & O_NONBLOCK) == 0, "A09:connected", ctx);
  VH_CHECK(attempt([&] { c->connect(); }) == other && c->connected(), "A09:constructor-only", ctx);
  std::uint64_t t1 = r.below(r.chance(1, 3) ? 2000000 : 20000), t2 = r.below(r.chance(1, 3) ? 2000000 : 20000), s1 = r.next(), s2 = r.next();
  std::size_t max = r.chance(1, 2) ? 300000 : 500;
  bool by_char = r.chance(1, 4);
  if (by_char) t1 %= 3000, t2 %= 3000;
  std::uint64_t seeds[4] = {r.next(), r.next(), r.next(), r.next()};
  set_noise(r, true);
  std::string e[4];
  std::uint64_t got_total = 0;
  hist::run_threads(4, seed, [&](int t) {
    vh::Rng tr(seeds[t]);
    try {
      if (t == 0) {
        std::vector<char> b(max);
        for (std::uint64_t pos = 0; pos < t1;) {
          std::size_t k = std::min<std::uint64_t>(t1 - pos, by_char ? 1 : tr.below(max) + 1);
          for (std::size_t i = 0; i < k; i++) b[i] = static_cast<char>(pattern(s1, pos + i));
          if (by_char) {
            c->putc(b[0]);
          } else {
            c->write(b.data(), k);
          }
          if (tr.chance(1, 5)) c->flush();
          pos += k;
          vh::st().progress.fetch_add(1, rlx);
        }
      } else if (t == 1) {
        // The peer drains as it likes.
        std::vector<char> b(max);
        for (std::uint64_t pos = 0; pos < t1;) {
          std::size_t k = p[1].read(b.data(), std::min<std::uint64_t>(t1 - pos, 1 + tr.below(max)));
          for (std::size_t i = 0; i < k; i++) {
            if (b[i] != static_cast<char>(pattern(s1, pos + i))) throw std::runtime_error("byte " + std::to_string(pos + i));
          }
          pos += k;
          if (tr.chance(1, 10)) ::usleep(static_cast<unsigned>(tr.below(300)));
          vh::st().progress.fetch_add(1, rlx);
        }
      } else if (t == 2) {
        std::vector<char> b(max);
        for (std::uint64_t pos = 0; pos < t2;) {
          std::size_t k = std::min<std::uint64_t>(t2 - pos, tr.below(max) + 1);
          for (std::size_t i = 0; i < k; i++) b[i] = static_cast<char>(pattern(s2, pos + i));
          pos += p[1].write(b.data(), k);
          vh::st().progress.fetch_add(1, rlx);
        }
        p[1].shutdown(false, true);
      } else {
        std::vector<char> b(max);
        for (;;) {
          if (by_char) {
            try {
              char x = c->getc();
              if (x != static_cast<char>(pattern(s2, got_total))) throw std::runtime_error("byte " + std::to_string(got_total));
              got_total++;
            } catch (const arpc::errors::eof&) {
              break;
            }
            continue;
          }
          if (tr.chance(1, 10)) arpc::wait(c->data_available());
          std::size_t want = tr.below(max) + 1, k = c->read(b.data(), want);
          for (std::size_t i = 0; i < k; i++) {
            if (b[i] != static_cast<char>(pattern(s2, got_total + i))) throw std::runtime_error("byte " + std::to_string(got_total + i));
          }
          got_total += k;
          if (k < want) break;  // The end.
          vh::st().progress.fetch_add(1, rlx);
        }
        if (got_total != t2) throw std::runtime_error("end after " + std::to_string(got_total) + " of " + std::to_string(t2));
        if (c->read(b.data(), 1) != 0) throw std::runtime_error("read after the end");
      }
    } catch (const std::exception& x) {
      e[t] = x.what();
    }
  });
  no_noise();
  for (int i = 0; i < 4; i++) VH_CHECK(e[i].empty(), "A09:live-stream", ctx + " part " + std::to_string(i) + ": " + e[i]);
  VH_CHECK(c->connected(), "A09:still-connected", ctx);
  // Ended contexts: nothing happens.
  {
    arpc::context x;
    x.cancel();
    char b;
    VH_CHECK(attempt([&] { c->read(&b, 1); }) == cancelled && attempt([&] { c->write("z", 1); }) == cancelled, "A09:cancelled", ctx);
  }
  c->write("end", 3);
  char b[8];
  VH_CHECK(p[1].read(b, 8) == 3 && !std::memcmp(b, "end", 3), "A09:after-cancelled", ctx);
  if (r.chance(1, 2)) {
    c.reset();
  } else {
    c->disconnect();
    VH_CHECK(!c->connected(), "A09:connected-after-disconnect", ctx);
  }
  VH_CHECK(attempt([&] { p[1].read(b, 1); }) == eof, "A09:peer-not-told", ctx);
  c.reset();
  p[1].close();
  ledger.check("live streams " + ctx);
  vh::eval(vh::hcomb(seed, vh::hcomb(t1, t2)), t1 + t2 > 1);
  vh::stat("bytes over live connections", t1 + t2);
}

// Readers, writers and waiters that are certainly blocked are woken by disconnects.
void blocked_users(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("blocked users seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  channel p[2];
  stream_pair(p, r.chance(1, 2));
  int fd = p[0].get();
  std::optional<arpc::channel_connection> c(std::in_place, std::move(p[0]));
  int readers = static_cast<int>(r.below(3)), writers = static_cast<int>(r.below(3)), waiters = static_cast<int>(r.below(2));
  if (!readers && !writers) readers = 1;
  int n = readers + writers + waiters;
  std::vector<std::atomic<int>> done(n);
  for (auto& d : done) d = -1;
  faults::delay_permille = static_cast<int>(r.below(300));
  faults::eintr_permille = static_cast<int>(r.below(100));
  std::vector<std::thread> ts;
  std::atomic<int> waiting{0};
  for (int i = 0; i < n; i++) {
    ts.emplace_back([&, i] {
      faults::seed_thread(seed + i);
      std::vector<char> b(8 << 20);
      outcome o;
      if (i < readers) {
        Guard g;
        o = attempt([&] { c->read(b.data(), 10); });
      } else if (i < readers + writers) {
        Guard g;
        o = attempt([&] { c->write(b.data(), b.size()); });
      } else {
        o = attempt([&] {
          auto a = c->data_available();
          waiting.fetch_add(1);
          arpc::wait(std::move(a));
        });
      }
      done[i] = o;
    });
  }
  // Everybody waits; the writers have filled the channel.
  auto inside = [&] { return faults::polled(fd); };
  int seen = 0;
  while (seen < 3) {
    seen = inside() == readers + writers && waiting.load() == waiters ? seen + 1 : 0;
    ::usleep(100);
  }
  for (int i = 0; i < readers + writers; i++) VH_CHECK(done[i] == -1, "A09:not-blocked", ctx);
  // A wait that is about to start is not told of a closed descriptor, so let it start.
  if (waiters) ::usleep(2000);
  int how = static_cast<int>(r.below(3));
  std::vector<std::thread> ds;
  if (how == 0) {
    c->disconnect();
  } else if (how == 1) {
    for (int i = 0; i < 3; i++) ds.emplace_back([&] { c->disconnect(); });
  } else if (!waiters) {
    c.reset();
  } else {
    c->disconnect();
  }
  for (auto& d : ds) d.join();
  VH_CHECK(faults::polled(fd) == 0, "A09:disconnected-while-used", ctx);
  for (auto& t : ts) t.join();
  no_noise();
  for (int i = 0; i < n; i++) VH_CHECK(done[i] == io, "A09:blocked-outcome", ctx + " user " + std::to_string(i) + " of " + std::to_string(readers) + "+" + std::to_string(writers) + ": " + outcome_name(static_cast<outcome>(done[i].load())));
  if (c) {
    char b[4];
    VH_CHECK(!c->connected() && attempt([&] { c->read(b, 4); }) == io && attempt([&] { c->write(b, 4); }) == io && attempt([&] { c->flush(); }) == io &&
                 attempt([&] { c->data_available(); }) == io,
             "A09:use-after-disconnect", ctx);
    c->disconnect();
  }
  c.reset();
  p[1].close();
  ledger.check("blocked users " + ctx);
  vh::eval(vh::hcomb(readers * 64 + writers * 8 + waiters, vh::hcomb(how, seed)), true);
  vh::stat("blocked users woken", n);
}

// --- Packets ----------------------------------------------------------------

template <typename Protocol>
void packets(std::uint64_t seed, const char* name) {
  vh::Rng r(seed);
  vh::mark(std::string("packets ") + name + " seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = std::string(name) + " seed=" + std::to_string(seed);
  using Conn = arpc::packet_connection_impl<arpc::channel_connection, Protocol>;
  channel p[2];
  stream_pair(p, r.chance(1, 2));
  std::optional<Conn> a(std::in_place, std::move(p[0])), b(std::in_place, std::move(p[1]));
  int total = 1 + static_cast<int>(r.below(60));
  std::size_t max = r.chance(1, 5) ? 60000 : 300;
  if (name[1] == 'e') {
    // Read one byte at a time.
    total = 1 + total / 8;
    max /= 20;
  }
  int close_how = static_cast<int>(r.below(4));  // Never, at the sender, at the receiver, at both.
  std::uint64_t s = r.next(), when = r.below(4000);
  auto packet = [&](int dir, int i) {
    vh::Rng q(vh::hcomb(s, dir * 100000 + i));
    return q.bytes(q.below(max));
  };
  set_noise(r, true);
  int sent[2] = {0, 0}, got[2] = {0, 0};
  bool differ[2] = {false, false}, wrong[4] = {false, false, false, false};
  Conn* ends[2] = {&*a, &*b};
  hist::run_threads(5, seed, [&](int t) {
    if (t == 4) {
      if (!close_how) return;
      ::usleep(static_cast<unsigned>(when));
      if (close_how & 1) a->disconnect();
      if (close_how & 2) b->disconnect();
      return;
    }
    int dir = t / 2;
    outcome o = ok;
    if (t % 2 == 0) {
      for (; sent[dir] < total && o == ok; sent[dir]++) {
        o = attempt([&] { ends[dir]->send(packet(dir, sent[dir])); });
        vh::st().progress.fetch_add(1, rlx);
      }
    } else {
      while (got[dir] < total && o == ok) {
        std::string d;
        o = attempt([&] { d = ends[1 - dir]->receive(); });
        if (o == ok) {
          if (d != packet(dir, got[dir])) differ[dir] = true;
          got[dir]++;
        }
        vh::st().progress.fetch_add(1, rlx);
      }
    }
    if (o != ok && !close_how) wrong[t] = true;
    if (o != ok && o != io && o != eof) wrong[t] = true;
  });
  no_noise();
  for (int d = 0; d < 2; d++) {
    VH_CHECK(!differ[d], "A09:packet", ctx);
    VH_CHECK(got[d] <= sent[d] && (close_how || got[d] == total), "A09:packets", ctx);
  }
  for (bool w : wrong) VH_CHECK(!w, "A09:packet-outcome", ctx);
  VH_CHECK(close_how || (a->connected() && b->connected()), "A09:packet-connected", ctx);
  a.reset();
  b.reset();
  ledger.check("packets " + ctx);
  vh::eval(vh::hcomb(seed, got[0] * 1000 + got[1]), got[0] + got[1] > 1);
  vh::stat("packets received", got[0] + got[1]);
}

// --- Failing connects --------------------------------------------------------

thread_local bool driver = false;
std::atomic<const char*> plan_call{nullptr};
std::atomic<int> plan_skip{0};
int plan_hook(const char* call, int) {
  if (!driver || std::strcmp(plan_call.load(rlx), call)) return 0;
  return plan_skip.fetch_sub(1, rlx) <= 0 ? EMFILE : 0;
}
void failing_connects(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("failing connects seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  auto l = arpc::socket(AF_INET, SOCK_STREAM, 0);
  l.bind(loopback());
  int port = port_of(l);
  Reconnectable c(arpc::endpoint().name("127.0.0.1").port(port));
  bool up = false;
  std::vector<channel> accepted;
  int live = 0;
  std::uint64_t h = 0;
  for (int i = 0; i < 12; i++) {
    int op = static_cast<int>(r.below(5));
    h = h * 5 + op;
    if (op == 0 && !up) {
      l.listen(16).make_non_blocking();
      up = true;
    } else if (op <= 2) {
      bool was = c.connected();
      const char* calls[] = {"socket", "connect", "fcntl"};
      bool fail = r.chance(1, 3);
      plan_call = calls[r.below(3)];
      plan_skip = static_cast<int>(r.below(2));
      if (fail) faults::fail_hook = &plan_hook;
      outcome o = attempt([&] { c.connect(); });
      faults::fail_hook = nullptr;
      if (was) {
        VH_CHECK(o == ok && c.connected(), "A09:connect-when-connected", ctx);
      } else if (!up) {
        VH_CHECK(o == io && !c.connected(), "A09:connect-to-nobody", ctx + ": " + outcome_name(o));
      } else {
        VH_CHECK(fail || o == ok, "A09:connect-to-somebody", ctx + ": " + outcome_name(o));
        VH_CHECK(o == ok || o == io, "A09:connect-failure", ctx + ": " + outcome_name(o));
        VH_CHECK(c.connected() == (o == ok), "A09:connect-state", ctx);
        // There is one more connection only if it succeeded; a failed one was closed.
        if (o == ok) {
          for (;;) {
            auto s = l.accept();
            char x = 'k', y;
            c.write(&x, 1);
            // A connection that failed late ends at once.
            if (attempt([&] { s.read(&y, 1); }) == ok) {
              accepted.push_back(std::move(s));
              break;
            }
          }
          live++;
        }
      }
      if (c.connected()) {
        auto& s = accepted.back();
        char buf[200];
        attempt([&] { for (;;) { s.make_non_blocking(); s.maybe_read(buf, sizeof buf); } });
        s.write("hi", 2);
        char b[2];
        VH_CHECK(c.read(b, 2) == 2 && b[0] == 'h' && b[1] == 'i', "A09:connect-stream", ctx);
        c.write("yo", 2);
        std::size_t n = 0;
        outcome o2 = attempt([&] { while (n < 2) n += s.read(b + n, 2 - n); });
        VH_CHECK(o2 == ok && b[0] == 'y' && b[1] == 'o', "A09:connect-stream", ctx);
        if (was) {
          outcome extra = attempt([&] { l.maybe_accept(); });
          VH_CHECK(extra != ok, "A09:connected-again", ctx);
        }
      }
    } else {
      c.disconnect();
      VH_CHECK(!c.connected(), "A09:connected-after-disconnect", ctx);
      char b;
      for (auto& s : accepted) VH_CHECK(attempt([&] { s.read(&b, 1); }) == eof, "A09:peer-not-told", ctx);
      accepted.clear();
    }
  }
  c.disconnect();
  accepted.clear();
  l.close();
  ledger.check("failing connects " + ctx);
  vh::eval(vh::hcomb(h, seed), true);
  vh::stat("connects that worked", live);
}
}  // namespace

void harness() {
  driver = true;
  arpc::wait(arpc::always());
  vh::set_hang_seconds(90);
  // The resolver, and its thread's context.
  attempt([] { arpc::client_socket_connection c(arpc::endpoint().name("127.0.0.1").port(1)); });
  int n = vh::scale(150, 1500);
  for (int i = 0; i < n && vh::st().violations.empty(); i++) {
    std::uint64_t s = vh::mix64(vh::seed() * 15485863 + i);
    usage_locks(s);
    teardown(s + 1);
    live_streams(s + 2);
    for (int k = 0; k < 4; k++) blocked_users(s + 3 + k);
    packets<arpc::protected_stream_packet_protocol<>>(s + 8, "stream");
    packets<arpc::serial_line_packet_protocol<>>(s + 9, "serial");
    for (int k = 0; k < 3; k++) failing_connects(s + 10 + k);
  }
}
