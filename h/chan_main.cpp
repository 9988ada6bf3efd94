// A08 channels, pipes, files and sockets; A10 addresses and endpoints.
#include "conc.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/stat.h>
#include <unistd.h>
#include "arpc/address.h"
#include "arpc/address_resolver.h"
#include "arpc/awaitable.h"
#include "arpc/channel.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/file.h"
#include "arpc/pipe.h"
#include "arpc/select.h"
#include "arpc/socket.h"
#include "arpc/wait.h"

using namespace std::chrono_literals;
using arpc::channel;
namespace {
constexpr auto rlx = std::memory_order_relaxed;

void set_noise(vh::Rng& r, bool transfers) {
  faults::delay_permille = r.chance(1, 3) ? 0 : static_cast<int>(r.below(200));
  faults::delay_max_us = 100;
  faults::eintr_permille = r.chance(1, 3) ? static_cast<int>(r.below(200)) : 0;
  faults::short_permille = transfers && r.chance(2, 3) ? static_cast<int>(r.below(900)) : 0;
  faults::again_permille = transfers && r.chance(1, 2) ? static_cast<int>(r.below(400)) : 0;
}
void no_noise() {
  faults::delay_permille = faults::eintr_permille = faults::short_permille = faults::again_permille = 0;
  faults::fail_hook = nullptr;
  faults::connect_hook = nullptr;
}

// Fails the calls whose name is in the plan, each with its own probability.
std::atomic<int> plan_permille{0}, plan_count{0}, plan_errno{0};
std::atomic<const char*> plan_call{nullptr};
// Only in the thread that drives the workload: the resolver's has its own life.
thread_local bool driver = false;
int plan_hook(const char* call, int) {
  if (!driver) return 0;
  const char* want = plan_call.load(rlx);
  if (want && std::strcmp(want, call) != 0) return 0;
  if (static_cast<int>(faults::rnd() % 1000) >= plan_permille.load(rlx)) return 0;
  plan_count.fetch_add(1, rlx);
  return plan_errno.load(rlx);
}
const int io_errnos[] = {EIO, ENOMEM, EMFILE, ENFILE, ENOSPC, EPERM, EACCES, ECONNRESET, ENOBUFS, EINVAL, EBADF, EDQUOT, ETIMEDOUT, EPIPE};

enum outcome { ok, io, again, eof, cancelled, deadline, other };
const char* outcome_name(outcome o) {
  const char* n[] = {"ok", "io_error", "try_again", "eof", "cancelled", "deadline_exceeded", "another exception"};
  return n[o];
}
template <typename F>
outcome attempt(F f, std::string* what = nullptr) {
  try {
    f();
    return ok;
  } catch (const arpc::errors::eof&) {
    return eof;
  } catch (const arpc::errors::try_again&) {
    return again;
  } catch (const arpc::errors::cancelled&) {
    return cancelled;
  } catch (const arpc::errors::deadline_exceeded&) {
    return deadline;
  } catch (const arpc::errors::io_error& e) {
    if (what) *what = e.what();
    return io;
  } catch (...) {
    return other;
  }
}

struct Ledger {
  std::set<int> base;
  std::uint64_t bad;
  Ledger() : bad(faults::bad_closes()) {
    for (int f : faults::open_fds()) base.insert(f);
  }
  void check(const std::string& what, const std::set<int>& own = {}) {
    std::set<int> want = base, have;
    want.insert(own.begin(), own.end());
    // The resolver's thread releases abandoned requests in its own time.
    for (int tries = 0; tries < (vh::mode() == "A10" ? 5000 : 1); tries++) {
      if (tries) ::usleep(1000);
      have.clear();
      for (int f : faults::open_fds()) have.insert(f);
      if (vh::mode() == "A10") {
        for (auto it = want.begin(); it != want.end();) it = have.count(*it) ? std::next(it) : want.erase(it);
      }
      if (want == have) break;
    }
    if (want != have) {
      std::string d = what + ": open";
      for (int f : have) if (!want.count(f)) d += " +" + std::to_string(f);
      for (int f : want) if (!have.count(f)) d += " -" + std::to_string(f);
      bool leak = false;
      for (int f : have) leak |= !want.count(f);
      vh::violation(vh::mode() + (leak ? ":leaked-descriptor" : ":closed-early"), d);
    }
    VH_CHECK(faults::bad_closes() == bad, vh::mode() + ":closed-twice", what);
    bad = faults::bad_closes();
  }
};

std::string scratch_dir;
void make_scratch() {
  char t[] = "/tmp/vh_chan_XXXXXX";
  if (!::mkdtemp(t)) std::abort();
  scratch_dir = t;
}
struct Scratch {
  Scratch() { make_scratch(); }
  ~Scratch() {
    for (int i = 0; i < 16; i++) ::unlink((scratch_dir + "/f" + std::to_string(i)).c_str());
    ::rmdir(scratch_dir.c_str());
  }
};

// --- Ownership -------------------------------------------------------------

void ownership(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("ownership seed=" + std::to_string(seed));
  Ledger ledger;
  no_noise();
  constexpr int n = 6;
  std::array<std::optional<channel>, n> slot;
  std::array<int, n> model;
  std::vector<int> loose;  // Released descriptors, owned by the harness.
  std::uint64_t h = seed;
  for (int i = 0; i < n; i++) slot[i].emplace(), model[i] = -1;
  std::string trace;
  auto fail_next = [&](const char* call) {
    bool f = r.chance(1, 4);
    plan_call = call;
    plan_errno = io_errnos[r.below(std::size(io_errnos))];
    plan_permille = 1000;
    plan_count = 0;
    faults::fail_hook = f ? &plan_hook : nullptr;
    return f;
  };
  int steps = 5 + static_cast<int>(r.below(40));
  for (int step = 0; step < steps; step++) {
    int a = static_cast<int>(r.below(n)), b = static_cast<int>(r.below(n));
    int op = static_cast<int>(r.below(16));
    h = vh::hcomb(h, op * 64 + a * 8 + b);
    trace += " " + std::to_string(op) + "/" + std::to_string(a) + "/" + std::to_string(b);
    vh::mark("ownership seed=" + std::to_string(seed) + trace);
    switch (op) {
      case 0:
      case 1: {
        bool f = fail_next("pipe");
        channel p[2];
        std::swap(p[0], *slot[a]);
        int before0 = *p[0];
        outcome o = attempt([&] { arpc::pipe(p); });
        faults::fail_hook = nullptr;
        VH_CHECK(o == (f ? io : ok), "A08:pipe-outcome", outcome_name(o));
        if (f) {
          VH_CHECK(*p[0] == before0 && *p[1] == -1, "A08:failed-pipe-changed-channels", trace);
          slot[a]->swap(p[0]);
        } else {
          *slot[a] = std::move(p[0]);
          model[a] = slot[a]->get();
          *slot[b] = std::move(p[1]);
          model[b] = slot[b]->get();
          if (a == b) VH_CHECK(model[a] >= 0, "A08:pipe-empty", trace);
          VH_CHECK(*p[0] == -1 && *p[1] == -1, "A08:moved-from-owns", trace);
        }
        break;
      }
      case 2: *slot[a] = std::move(*slot[b]); if (a != b) { model[a] = model[b]; model[b] = -1; } break;
      case 3: {
        channel c(std::move(*slot[a]));
        VH_CHECK(c.get() == model[a] && !*slot[a] && slot[a]->get() == -1, "A08:move-construct", trace);
        slot[b].reset();
        slot[b].emplace(std::move(c));
        int m = model[a];
        model[a] = -1;
        model[b] = m;
        break;
      }
      case 4: slot[a]->swap(*slot[b]); std::swap(model[a], model[b]); break;
      case 5: {
        using std::swap;
        swap(*slot[a], *slot[b]);
        swap(model[a], model[b]);
        break;
      }
      case 6: {
        int fd = slot[a]->release();
        VH_CHECK(fd == model[a], "A08:release-value", trace);
        if (fd >= 0) loose.push_back(fd);
        model[a] = -1;
        break;
      }
      case 7: slot[a]->reset(); model[a] = -1; break;
      case 8: slot[a]->close(); model[a] = -1; break;
      case 9:
        if (!loose.empty()) {
          int fd = loose.back();
          loose.pop_back();
          if (r.chance(1, 2)) {
            slot[a]->reset(fd);
          } else {
            slot[a].emplace(fd);
          }
          model[a] = fd;
        }
        break;
      case 10:
      case 11: {
        bool f = fail_next("dup");
        int had = model[a];
        std::optional<channel> d;
        outcome o = attempt([&] { d.emplace(slot[a]->dup()); });
        faults::fail_hook = nullptr;
        VH_CHECK(o == (f || had < 0 ? io : ok), "A08:dup-outcome", outcome_name(o));
        VH_CHECK(slot[a]->get() == had, "A08:dup-changed-source", trace);
        if (o == ok) {
          VH_CHECK(d->get() >= 0 && d->get() != had, "A08:dup-same", trace);
          *slot[b] = std::move(*d);
          model[b] = slot[b]->get();
        }
        break;
      }
      case 12: {
        bool f = fail_next("open");
        std::string path = scratch_dir + "/f" + std::to_string(r.below(4));
        auto m = static_cast<arpc::open_mode>(r.below(2) * 3 + 1);
        outcome o = attempt([&] { *slot[a] = arpc::file(path, m); });
        faults::fail_hook = nullptr;
        VH_CHECK(o == (f ? io : ok), "A08:file-outcome", outcome_name(o));
        if (o == ok) model[a] = slot[a]->get();
        break;
      }
      case 13: {
        const char* calls[] = {"socket", "bind", "listen", "setsockopt", "fcntl", "getsockname"};
        bool f = fail_next(calls[r.below(6)]);
        outcome o = attempt([&] {
          auto s = arpc::socket(AF_INET, SOCK_STREAM, 0);
          arpc::address any;
          auto* in = reinterpret_cast<sockaddr_in*>(any.address_data());
          in->sin_family = AF_INET;
          in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
          any.address_size() = sizeof *in;
          s.make_non_blocking().reuse_addr().bind(any).listen(2);
          auto own = s.own_addr();
          *slot[a] = std::move(s);
        });
        faults::fail_hook = nullptr;
        VH_CHECK(o == (f ? io : ok), "A08:socket-outcome", outcome_name(o));
        if (o == ok) model[a] = slot[a]->get();
        break;
      }
      case 14: slot[a].reset(); slot[a].emplace(); model[a] = -1; break;
      case 15:
        // Failures at closing time change nothing.
        slot[a].reset();
        slot[a].emplace();
        model[a] = -1;
        break;
    }
    std::set<int> own(loose.begin(), loose.end());
    for (int i = 0; i < n; i++) {
      VH_CHECK(slot[i]->get() == model[i] && **slot[i] == model[i] && static_cast<bool>(*slot[i]) == (model[i] >= 0), "A08:owner",
               "seed=" + std::to_string(seed) + trace + " slot " + std::to_string(i) + " has " + std::to_string(slot[i]->get()) + ", expected " + std::to_string(model[i]));
      if (model[i] >= 0) own.insert(model[i]);
    }
    ledger.check("ownership seed=" + std::to_string(seed) + trace, own);
  }
  for (auto& s : slot) s.reset();
  for (int fd : loose) channel(fd).close();
  ledger.check("ownership end seed=" + std::to_string(seed) + trace);
  vh::eval(h, steps > 5);
  vh::stat("ownership operations", steps);
}

// --- Byte streams ----------------------------------------------------------

unsigned char pattern(std::uint64_t seed, std::uint64_t pos) { return static_cast<unsigned char>(vh::mix64(seed + pos / 7) >> (pos % 7 * 8)); }

arpc::address loopback(bool v6, int port = 0) {
  arpc::address a;
  if (v6) {
    auto* in = reinterpret_cast<sockaddr_in6*>(a.address_data());
    in->sin6_family = AF_INET6;
    in->sin6_addr = in6addr_loopback;
    in->sin6_port = htons(static_cast<std::uint16_t>(port));
    a.address_size() = sizeof *in;
    a.family() = AF_INET6;
  } else {
    auto* in = reinterpret_cast<sockaddr_in*>(a.address_data());
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    in->sin_port = htons(static_cast<std::uint16_t>(port));
    a.address_size() = sizeof *in;
    a.family() = AF_INET;
  }
  a.socket_type() = SOCK_STREAM;
  return a;
}
int port_of(const arpc::address& a) {
  auto* s = a.address_data();
  return ntohs(s->sa_family == AF_INET6 ? reinterpret_cast<const sockaddr_in6*>(s)->sin6_port : reinterpret_cast<const sockaddr_in*>(s)->sin_port);
}
bool have_v6() {
  static bool have = [] {
    no_noise();
    return attempt([] { arpc::socket(AF_INET6, SOCK_STREAM, 0).bind(loopback(true)); }) == ok;
  }();
  return have;
}

void tcp_pair(channel p[2], bool v6, bool non_blocking) {
  auto addr = loopback(v6);
  auto l = arpc::socket(addr);
  l.bind(addr).listen(2);
  auto c = arpc::socket(addr);
  c.make_non_blocking(non_blocking);
  auto to = l.own_addr();
  c.connect(to);
  auto s = l.accept();
  s.make_non_blocking(non_blocking);
  p[0] = std::move(c);
  p[1] = std::move(s);
}

struct Style {
  bool non_blocking;
  int max_chunk;
};

// Writes the bytes [0, total) of the pattern.
std::string write_all(channel& c, std::uint64_t pat, std::uint64_t total, Style st, vh::Rng r) {
  std::vector<unsigned char> buf(st.max_chunk);
  std::uint64_t pos = 0;
  try {
    while (pos < total) {
      std::size_t len = std::min<std::uint64_t>(total - pos, 1 + r.below(st.max_chunk));
      if (r.chance(1, 20)) len = 0;
      for (std::size_t i = 0; i < len; i++) buf[i] = pattern(pat, pos + i);
      std::size_t n = 0;
      switch (r.below(st.non_blocking ? 4 : 2)) {
        case 0: n = c.write(buf.data(), len); break;
        case 1: {
          auto [w, never] = arpc::select(c.async_write(buf.data(), len), arpc::never());
          n = *w;
          break;
        }
        case 2: {
          auto [w] = arpc::select(c.can_write());
          (void)w;
          try {
            n = c.maybe_write(buf.data(), len);
          } catch (const arpc::errors::try_again&) {
          }
          break;
        }
        case 3:
          try {
            n = c.maybe_write(buf.data(), len);
          } catch (const arpc::errors::try_again&) {
            arpc::wait(c.can_write());
          }
          break;
      }
      if (n > len) return "wrote " + std::to_string(n) + " of " + std::to_string(len);
      pos += n;
      vh::st().progress.fetch_add(1, rlx);
    }
  } catch (const std::exception& e) {
    return std::string("writing failed: ") + e.what();
  }
  return "";
}
// Reads up to the end.
std::string read_all(channel& c, std::uint64_t pat, std::uint64_t total, Style st, vh::Rng r, std::uint64_t* chunks) {
  std::vector<unsigned char> buf(st.max_chunk + 16);
  std::uint64_t pos = 0;
  bool ended = false;
  int after = 0;
  while (!ended || after++ < 3) {
    std::size_t len = 1 + r.below(st.max_chunk);
    bool zero = r.chance(1, 20) && !ended && pos < total;
    if (zero) len = 0;
    std::memset(buf.data(), 0xa5, buf.size());
    std::size_t n = 0;
    try {
      switch (r.below(st.non_blocking ? 4 : 2)) {
        case 0: n = c.read(buf.data(), len); break;
        case 1: {
          auto [w, never] = arpc::select(c.async_read(buf.data(), len), arpc::never());
          n = *w;
          break;
        }
        case 2: {
          arpc::wait(c.can_read());
          try {
            n = c.maybe_read(buf.data(), len);
          } catch (const arpc::errors::try_again&) {
            zero = true;
          }
          break;
        }
        case 3:
          try {
            n = c.maybe_read(buf.data(), len);
          } catch (const arpc::errors::try_again&) {
            zero = true;
            arpc::wait(c.can_read());
          }
          break;
      }
    } catch (const arpc::errors::eof&) {
      if (pos != total) return "end after " + std::to_string(pos) + " of " + std::to_string(total);
      ended = true;
      continue;
    } catch (const std::exception& e) {
      return "reading failed at " + std::to_string(pos) + ": " + e.what();
    }
    if (n > len) return "read " + std::to_string(n) + " of " + std::to_string(len);
    if (!n && !zero) return "read nothing";
    if (n && ended) return "bytes after the end";
    for (std::size_t i = 0; i < n; i++) {
      if (buf[i] != pattern(pat, pos + i)) return "byte " + std::to_string(pos + i) + " differs";
    }
    for (std::size_t i = n; i < buf.size(); i++) {
      if (i >= len && buf[i] != 0xa5) return "read past the buffer";
    }
    pos += n;
    ++*chunks;
    vh::st().progress.fetch_add(1, rlx);
  }
  return "";
}

void byte_streams(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("streams seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  int kind = static_cast<int>(r.below(have_v6() ? 3 : 2));  // Pipe, TCP/IPv4, TCP/IPv6.
  bool nb = r.chance(1, 2);
  channel p[2];
  if (kind == 0) {
    arpc::pipe(p);
    if (nb) p[0].make_non_blocking(), p[1].make_non_blocking();
  } else {
    tcp_pair(p, kind == 2, nb);
  }
  const int chunks_max[] = {1, 7, 64, 1000, 5000, 70000};
  Style ws{nb, chunks_max[r.below(6)]}, rs{nb, chunks_max[r.below(6)]};
  auto size = [&](const Style& a, const Style& b) {
    std::uint64_t m = static_cast<std::uint64_t>(std::min(a.max_chunk, b.max_chunk)) * (20 + r.below(100));
    return r.below(std::min<std::uint64_t>(m, 400000) + 1);
  };
  std::uint64_t t1 = size(ws, rs), t2 = size(ws, rs), s1 = r.next(), s2 = r.next(), chunks = 0, chunks2 = 0;
  std::uint64_t seeds[4] = {r.next(), r.next(), r.next(), r.next()};
  set_noise(r, true);
  std::string e[4];
  std::optional<channel> d;
  bool dup = r.chance(1, 3);
  if (dup) {
    // The stream ends once the last of the duplicates is gone.
    int end = kind == 0 ? 1 : 0;
    d.emplace(p[end].dup());
    if (r.chance(1, 2)) std::swap(*d, p[end]);
    d->close();
  }
  if (kind == 0) {
    hist::run_threads(2, seed, [&](int i) {
      if (i == 0) {
        e[0] = write_all(p[1], s1, t1, ws, vh::Rng(seeds[0]));
        p[1].close();
      } else {
        e[1] = read_all(p[0], s1, t1, rs, vh::Rng(seeds[1]), &chunks);
      }
    });
  } else {
    // Both directions at once, each closed on its own.
    hist::run_threads(4, seed, [&](int i) {
      switch (i) {
        case 0:
          e[0] = write_all(p[0], s1, t1, ws, vh::Rng(seeds[0]));
          p[0].flush().shutdown(false, true);
          break;
        case 1: e[1] = read_all(p[1], s1, t1, rs, vh::Rng(seeds[1]), &chunks); break;
        case 2:
          e[2] = write_all(p[1], s2, t2, rs, vh::Rng(seeds[2]));
          p[1].shutdown(false, true);
          break;
        case 3: e[3] = read_all(p[0], s2, t2, ws, vh::Rng(seeds[3]), &chunks2); break;
      }
    });
  }
  no_noise();
  for (int i = 0; i < 4; i++) {
    VH_CHECK(e[i].empty(), "A08:stream", "seed=" + std::to_string(seed) + " kind " + std::to_string(kind) + " part " + std::to_string(i) + ": " + e[i]);
  }
  p[0].close();
  p[1].close();
  ledger.check("streams seed=" + std::to_string(seed));
  vh::eval(vh::hcomb(vh::hcomb(t1, t2), vh::hcomb(chunks, seed)), t1 > 1);
  vh::stat("bytes streamed", kind ? t1 + t2 : t1);
  vh::stat(kind ? "tcp streams" : "pipe streams", kind ? 2 : 1);
}

// --- Errors, would-block and cancelled contexts ----------------------------

void failures(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("failures seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  std::string ctx = "seed=" + std::to_string(seed);
  char buf[64];
  channel p[2];
  bool tcp = r.chance(1, 2);
  if (tcp) {
    tcp_pair(p, have_v6() && r.chance(1, 2), true);
  } else {
    arpc::pipe(p);
    p[0].make_non_blocking();
    p[1].make_non_blocking();
  }
  // Nothing to read yet.
  outcome o = attempt([&] { p[0].maybe_read(buf, sizeof buf); });
  VH_CHECK(o == again, "A08:empty-read", ctx + outcome_name(o));
  // Injected failures map to io errors, consume nothing and write nothing.
  std::string sent;
  for (int i = 0; i < 20; i++) {
    plan_errno = io_errnos[r.below(std::size(io_errnos))];
    bool would_block = r.chance(1, 4);
    if (would_block) plan_errno = r.chance(1, 2) ? EAGAIN : EWOULDBLOCK;
    plan_permille = 1000;
    bool wr = r.chance(1, 2);
    plan_call = wr ? "write" : "read";
    if (!wr && sent.empty()) {
      p[1].write("x", 1);
      sent = "x";
    }
    if (!wr) arpc::wait(p[0].can_read());
    faults::fail_hook = &plan_hook;
    std::string data(1 + r.below(8), static_cast<char>('a' + i));
    o = attempt([&] {
      if (wr) {
        p[1].maybe_write(data.data(), data.size());
      } else {
        p[0].maybe_read(buf, sizeof buf);
      }
    });
    if (!would_block) {
      outcome o2 = attempt([&] {
        if (wr) {
          p[1].write(data.data(), data.size());
        } else {
          p[0].read(buf, sizeof buf);
        }
      });
      VH_CHECK(o2 == io, "A08:failure-class", ctx + " errno " + std::to_string(plan_errno.load()) + ": " + outcome_name(o2));
    }
    faults::fail_hook = nullptr;
    VH_CHECK(o == (would_block ? again : io), "A08:failure-class", ctx + " errno " + std::to_string(plan_errno.load()) + ": " + outcome_name(o));
    if (r.chance(1, 2)) {
      std::size_t n = p[1].write(data.data(), data.size());
      sent += data.substr(0, n);
    }
  }
  // Waits in cancelled or expired contexts consume nothing.
  for (int i = 0; i < 4; i++) {
    bool dl = r.chance(1, 2), wr = r.chance(1, 2);
    arpc::context c;
    if (dl) {
      c.set_timeout(-2ms);
    } else {
      c.cancel();
    }
    o = attempt([&] {
      if (wr) {
        p[1].write("zzz", 3);
      } else {
        p[0].read(buf, sizeof buf);
      }
    });
    VH_CHECK(o == (dl ? deadline : cancelled), "A08:cancelled-io", ctx + outcome_name(o));
  }
  std::string got;
  while (got.size() < sent.size()) {
    std::size_t n = p[0].read(buf, 1 + r.below(sizeof buf));
    got.append(buf, n);
  }
  VH_CHECK(got == sent, "A08:failures-changed-stream", ctx + " sent " + vh::hex(sent) + " got " + vh::hex(got));
  // A full channel would block; what was taken comes out again.
  std::uint64_t taken = 0;
  std::vector<char> big(30000);
  for (;;) {
    for (std::size_t i = 0; i < big.size(); i++) big[i] = static_cast<char>(pattern(seed, taken + i));
    std::size_t n = 0;
    o = attempt([&] { n = p[1].maybe_write(big.data(), big.size()); });
    taken += n;
    if (o != ok || taken > 64000000) break;
  }
  VH_CHECK(o == again, "A08:full-write", ctx + outcome_name(o));
  {
    // Somebody blocked on writing goes on once there is room.
    std::atomic<bool> wrote{false};
    std::thread t([&] {
      try {
        p[1].write("!", 1);
        wrote = true;
      } catch (...) {
      }
      p[1].close();
    });
    std::uint64_t pos = 0;
    bool good = true;
    o = attempt([&] {
      for (;;) {
        std::size_t n = p[0].read(big.data(), 1 + r.below(big.size()));
        for (std::size_t i = 0; i < n; i++, pos++) good &= big[i] == (pos == taken ? '!' : static_cast<char>(pattern(seed, pos)));
      }
    });
    t.join();
    VH_CHECK(o == eof && good && wrote && pos == taken + 1, "A08:drain", ctx + outcome_name(o) + " after " + std::to_string(pos) + " of " + std::to_string(taken));
  }
  p[0].close();
  p[1].close();
  // The other end is gone.
  if (tcp) {
    tcp_pair(p, false, r.chance(1, 2));
  } else {
    arpc::pipe(p);
  }
  p[0].close();
  o = ok;
  for (int i = 0; i < 1000 && o == ok; i++) {
    o = attempt([&] { p[1].write("gone", 4); });
    if (tcp && o == ok) ::usleep(200);
  }
  VH_CHECK(o == io, "A08:broken-write", ctx + outcome_name(o));
  p[1].close();
  // Closed channels and the wrong direction.
  channel closed;
  VH_CHECK(attempt([&] { closed.maybe_read(buf, 1); }) == io, "A08:closed-read", ctx);
  VH_CHECK(attempt([&] { closed.maybe_write(buf, 1); }) == io, "A08:closed-write", ctx);
  VH_CHECK(attempt([&] { closed.make_non_blocking(); }) == io, "A08:closed-nonblock", ctx);
  VH_CHECK(attempt([&] { closed.own_addr(); }) == io, "A08:closed-own-addr", ctx);
  VH_CHECK(attempt([&] { closed.peer_addr(); }) == io, "A08:closed-peer-addr", ctx);
  VH_CHECK(attempt([&] { closed.shutdown(true, true); }) == io, "A08:closed-shutdown", ctx);
  VH_CHECK(attempt([&] { closed.keep_alive(); }) == io && attempt([&] { closed.linger(); }) == io && attempt([&] { closed.reuse_addr(); }) == io &&
               attempt([&] { closed.reuse_port(); }) == io && attempt([&] { closed.no_delay(); }) == io,
           "A08:closed-option", ctx);
  arpc::pipe(p);
  VH_CHECK(attempt([&] { p[1].maybe_read(buf, 1); }) == io && attempt([&] { p[0].maybe_write(buf, 1); }) == io, "A08:wrong-direction", ctx);
  VH_CHECK(attempt([&] { p[0].maybe_accept(); }) == io && attempt([&] { p[0].listen(); }) == io, "A08:not-a-socket", ctx);
  p[0].close();
  p[1].close();
  // Reading a closed-for-reading socket ends.
  tcp_pair(p, false, true);
  p[1].shutdown(false, false);
  p[0].write("ab", 2);
  std::size_t n = p[1].read(buf, 1);
  VH_CHECK(n == 1 && buf[0] == 'a', "A08:shutdown-nothing", ctx);
  p[0].shutdown(true, true);
  n = p[1].read(buf, 10);
  VH_CHECK(n == 1 && buf[0] == 'b', "A08:bytes-before-shutdown", ctx);
  VH_CHECK(attempt([&] { p[1].read(buf, 10); }) == eof && attempt([&] { p[0].write("x", 1); }) == io, "A08:after-shutdown", ctx);
  p[0].close();
  p[1].close();
  ledger.check("failures " + ctx);
  vh::eval(vh::hcomb(seed, vh::hash_str(sent)), true);
  vh::stat("failure histories");
}

// --- Socket options --------------------------------------------------------

struct Opts {
  int keep = 0, raddr = 0, rport = 0, nodelay = 0, ling_on = 0, ling_time = 0, nonblock = 0;
  bool operator==(const Opts& o) const {
    return keep == o.keep && raddr == o.raddr && rport == o.rport && nodelay == o.nodelay && ling_on == o.ling_on && (!ling_on || ling_time == o.ling_time) && nonblock == o.nonblock;
  }
  std::string show() const {
    return std::to_string(keep) + " " + std::to_string(raddr) + " " + std::to_string(rport) + " " + std::to_string(nodelay) + " " + std::to_string(ling_on) + ":" +
           std::to_string(ling_time) + " " + std::to_string(nonblock);
  }
};
Opts options_of(int fd) {
  Opts o;
  auto get = [&](int level, int name) {
    int v = 0;
    socklen_t l = sizeof v;
    ::getsockopt(fd, level, name, &v, &l);
    return v != 0;
  };
  o.keep = get(SOL_SOCKET, SO_KEEPALIVE);
  o.raddr = get(SOL_SOCKET, SO_REUSEADDR);
  o.rport = get(SOL_SOCKET, SO_REUSEPORT);
  o.nodelay = get(IPPROTO_TCP, TCP_NODELAY);
  struct linger l {};
  socklen_t s = sizeof l;
  ::getsockopt(fd, SOL_SOCKET, SO_LINGER, &l, &s);
  o.ling_on = l.l_onoff != 0;
  o.ling_time = l.l_linger;
  o.nonblock = (::fcntl(fd, F_GETFL) & O_NONBLOCK) != 0;
  return o;
}
void options(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("options seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  channel p[2];
  bool connected = r.chance(1, 2);
  if (connected) {
    tcp_pair(p, have_v6() && r.chance(1, 2), false);
  } else {
    p[0] = arpc::socket(have_v6() && r.chance(1, 2) ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
  }
  Opts want = options_of(*p[0]), other = connected ? options_of(*p[1]) : Opts{};
  std::string trace = "seed=" + std::to_string(seed);
  std::uint64_t h = connected;
  int steps = 3 + static_cast<int>(r.below(20));
  for (int i = 0; i < steps; i++) {
    int op = static_cast<int>(r.below(9));
    bool on = r.chance(1, 2), dflt = r.chance(1, 6);
    if (dflt) on = true;
    int secs = static_cast<int>(r.below(300));
    bool fail = r.chance(1, 8);
    plan_call = "setsockopt";
    plan_errno = EINVAL;
    plan_permille = 1000;
    trace += " " + std::to_string(op) + (on ? "+" : "-") + (fail ? "!" : "");
    if (fail && op < 5) faults::fail_hook = &plan_hook;
    channel* res = nullptr;
    outcome o = attempt([&] {
      switch (op) {
        case 0: res = dflt ? &p[0].keep_alive() : &p[0].keep_alive(on); break;
        case 1: res = dflt ? &p[0].reuse_addr() : &p[0].reuse_addr(on); break;
        case 2: res = dflt ? &p[0].reuse_port() : &p[0].reuse_port(on); break;
        case 3: res = dflt ? &p[0].no_delay() : &p[0].no_delay(on); break;
        case 4: res = dflt ? &p[0].linger() : &p[0].linger(on, std::chrono::seconds(secs)); break;
        case 5: res = dflt ? &p[0].make_non_blocking() : &p[0].make_non_blocking(on); break;
        default: res = &p[0].flush();
      }
    });
    faults::fail_hook = nullptr;
    if (fail && op < 5) {
      VH_CHECK(o == io, "A08:option-failure", trace + ": " + outcome_name(o));
    } else {
      VH_CHECK(o == ok && res == &p[0], "A08:option-outcome", trace + ": " + outcome_name(o));
      switch (op) {
        case 0: want.keep = on; break;
        case 1: want.raddr = on; break;
        case 2: want.rport = on; break;
        case 3: want.nodelay = on; break;
        case 4: want.ling_on = on; want.ling_time = dflt ? static_cast<int>(channel::default_linger_time.count()) : secs; break;
        case 5: want.nonblock = on; break;
      }
    }
    Opts have = options_of(*p[0]);
    VH_CHECK(have == want, "A08:options", trace + " have " + have.show() + " want " + want.show());
    if (connected) VH_CHECK(options_of(*p[1]) == other, "A08:options-of-other", trace);
    h = vh::hcomb(h, op * 4 + on * 2 + fail);
  }
  p[0].linger(false);
  p[0].close();
  p[1].close();
  ledger.check("options " + trace);
  vh::eval(h, true);
  vh::stat("option changes", steps);
}

// --- Files -----------------------------------------------------------------

struct Inode {
  std::string data;
  unsigned perm;
};
struct OpenFile {
  channel c;
  std::shared_ptr<Inode> node;
  arpc::open_mode mode;
  std::size_t pos = 0;
};
void files(std::uint64_t seed) {
  vh::Rng r(seed);
  vh::mark("files seed=" + std::to_string(seed));
  no_noise();
  Ledger ledger;
  auto path = [](int i) { return scratch_dir + "/f" + std::to_string(i); };
  for (int i = 0; i < 4; i++) ::unlink(path(i).c_str());
  std::map<int, std::shared_ptr<Inode>> dir;
  std::vector<OpenFile> open;
  std::string trace = "seed=" + std::to_string(seed);
  std::uint64_t h = 0;
  int steps = 5 + static_cast<int>(r.below(40));
  const mode_t old = ::umask(022);
  const mode_t masks[] = {0, 022, 027, 077, 002};
  set_noise(r, r.chance(1, 2));
  faults::again_permille = 0;
  for (int s = 0; s < steps; s++) {
    int op = static_cast<int>(r.below(10));
    if (op < 3 || open.empty()) {
      int i = static_cast<int>(r.below(4));
      auto m = static_cast<arpc::open_mode>(r.below(6));
      mode_t mask = masks[r.below(5)];
      ::umask(mask);
      auto it = dir.find(i);
      bool creates = m != arpc::open_mode::READ && m != arpc::open_mode::READ_PLUS;
      bool fine = it != dir.end() || creates;
      bool dflt = m == arpc::open_mode::READ && r.chance(1, 2);
      trace += " open" + std::to_string(i) + "m" + std::to_string(static_cast<int>(m));
      std::optional<channel> c;
      outcome o = attempt([&] { c.emplace(dflt ? arpc::file(path(i)) : arpc::file(path(i), m)); });
      VH_CHECK(o == (fine ? ok : io), "A08:file-open", trace + ": " + outcome_name(o));
      h = vh::hcomb(h, i * 8 + static_cast<int>(m));
      if (o != ok || !fine) continue;
      std::shared_ptr<Inode> node;
      if (it == dir.end()) {
        node = dir[i] = std::make_shared<Inode>(Inode{"", 0666u & ~mask});
      } else {
        node = it->second;
        if (m == arpc::open_mode::WRITE || m == arpc::open_mode::WRITE_PLUS) node->data.clear();
      }
      open.push_back({std::move(*c), node, m});
    } else if (op < 4) {
      int i = static_cast<int>(r.below(4));
      ::unlink(path(i).c_str());
      dir.erase(i);
      trace += " unlink" + std::to_string(i);
    } else if (op < 5) {
      std::size_t k = r.below(open.size());
      open.erase(open.begin() + k);
      trace += " close" + std::to_string(k);
    } else {
      std::size_t k = r.below(open.size());
      auto& f = open[k];
      bool rd = r.chance(1, 2);
      bool may = rd ? f.mode == arpc::open_mode::READ || f.mode >= arpc::open_mode::READ_PLUS : f.mode != arpc::open_mode::READ;
      trace += (rd ? " r" : " w") + std::to_string(k);
      std::size_t len = r.below(20);
      h = vh::hcomb(h, (rd * 64 + len) * 8 + k);
      if (rd) {
        char buf[32];
        std::size_t n = 0;
        outcome o = attempt([&] { n = r.chance(1, 2) ? f.c.read(buf, len) : f.c.maybe_read(buf, len); });
        std::size_t left = f.node->data.size() - std::min(f.pos, f.node->data.size());
        if (!may) {
          VH_CHECK(o == io, "A08:file-read-mode", trace + ": " + outcome_name(o));
        } else if (len && !left) {
          VH_CHECK(o == eof, "A08:file-end", trace + ": " + outcome_name(o));
        } else {
          VH_CHECK(o == ok && n <= std::min(len, left) && (n || !len) && !std::memcmp(buf, f.node->data.data() + std::min(f.pos, f.node->data.size()), n), "A08:file-read",
                   trace + ": " + outcome_name(o) + " " + std::to_string(n));
          if (!faults::short_permille) VH_CHECK(o != ok || n == std::min(len, left), "A08:file-short-read", trace);
          f.pos += n;
        }
      } else {
        std::string d = r.bytes(len);
        std::size_t n = 0;
        outcome o = attempt([&] { n = r.chance(1, 2) ? f.c.write(d.data(), len) : f.c.maybe_write(d.data(), len); });
        if (!may) {
          VH_CHECK(o == io, "A08:file-write-mode", trace + ": " + outcome_name(o));
        } else {
          VH_CHECK(o == ok && n <= len && (n || !len), "A08:file-write", trace + ": " + outcome_name(o));
          if (f.mode == arpc::open_mode::APPEND || f.mode == arpc::open_mode::APPEND_PLUS) f.pos = n ? f.node->data.size() : f.pos;
          if (n) {
            if (f.node->data.size() < f.pos + n) f.node->data.resize(f.pos + n);
            f.node->data.replace(f.pos, n, d, 0, n);
            f.pos += n;
          }
        }
      }
    }
    for (auto& [i, node] : dir) {
      struct stat st;
      std::string have;
      bool there = ::stat(path(i).c_str(), &st) == 0;
      if (there) {
        if (FILE* fp = std::fopen(path(i).c_str(), "rb")) {
          char b[4096];
          std::size_t n;
          while ((n = std::fread(b, 1, sizeof b, fp)) > 0) have.append(b, n);
          std::fclose(fp);
        }
      }
      VH_CHECK(there && have == node->data, "A08:file-contents", trace + " file " + std::to_string(i) + " has " + vh::hex(have) + " want " + vh::hex(node->data));
      VH_CHECK(!there || (st.st_mode & 0777) == node->perm, "A08:file-permissions", trace + " file " + std::to_string(i) + " has " + std::to_string(st.st_mode & 0777));
    }
    // Nothing else appeared.
    for (int i = 0; i < 4; i++) {
      struct stat st;
      VH_CHECK(dir.count(i) || ::stat(path(i).c_str(), &st) != 0, "A08:file-created", trace + " file " + std::to_string(i));
    }
  }
  ::umask(old);
  no_noise();
  open.clear();
  for (int i = 0; i < 4; i++) ::unlink(path(i).c_str());
  ledger.check("files " + trace);
  vh::eval(h, true);
  vh::stat("file operations", steps);
}

void run_a08() {
  int n = vh::scale(400, 4000);
  for (int i = 0; i < n && vh::st().violations.empty(); i++) {
    std::uint64_t s = vh::mix64(vh::seed() * 7919 + i);
    ownership(s);
    options(s + 1);
    files(s + 2);
    if (i % 4 == 0) failures(s + 3);
    byte_streams(s + 4);
  }
}

void run_a10();
}  // namespace

void harness() {
  driver = true;
  Scratch scratch;
  arpc::wait(arpc::always());
  vh::set_hang_seconds(60);
  if (vh::mode() == "A08") run_a08();
  if (vh::mode() == "A10") run_a10();
}
#include "chan_addr.h"
