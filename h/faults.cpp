// Interposed system calls. Link with -Wl,--wrap for each of them.
#define VH_NO_MAIN
#include "conc.h"
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/stat.h>

namespace faults {
std::atomic<int> delay_permille{0}, delay_max_us{200}, eintr_permille{0}, short_permille{0}, again_permille{0};
std::atomic<int (*)(const char*, int)> fail_hook{nullptr};
std::atomic<void (*)(const struct sockaddr*, socklen_t)> connect_hook{nullptr};
thread_local bool guarded = false;
namespace {
constexpr int max_fd = 65536;
std::atomic<unsigned char> table[max_fd], was_open[max_fd];
std::atomic<int> in_poll[max_fd];
std::atomic<std::uint64_t> n_closed_in_use{0}, n_bad_use{0};
std::atomic<std::uint64_t> n_open{0}, n_close{0}, n_bad{0};
thread_local std::uint64_t rng_state = 0;
constexpr auto rlx = std::memory_order_relaxed;
// For finding out about leaks: VH_FDTRACE=1.
void* opened_from[256][24];
void note_open(int fd) {
  if (fd >= 0 && fd < max_fd) {
    static const bool trace = ::getenv("VH_FDTRACE") != nullptr;
    if (trace && fd < 256) {
      std::memset(opened_from[fd], 0, sizeof opened_from[fd]);
      ::backtrace(opened_from[fd], 24);
    }
    n_open.fetch_add(1, rlx);
    table[fd].store(1, rlx);
    was_open[fd].store(1, rlx);
  }
}
int should_fail(const char* call, int fd) {
  auto h = fail_hook.load(rlx);
  return h ? h(call, fd) : 0;
}
bool is_socket(int fd) {
  struct stat s;
  return ::fstat(fd, &s) == 0 && S_ISSOCK(s.st_mode);
}
void note_use(int fd) {
  if (guarded && fd >= 0 && fd < max_fd && was_open[fd].load(rlx) && !table[fd].load(rlx)) n_bad_use.fetch_add(1, rlx);
}
bool hit(const std::atomic<int>& p) {
  int v = p.load(rlx);
  return v > 0 && static_cast<int>(rnd() % 1000) < v;
}
}  // namespace
std::uint64_t rnd() {
  if (!rng_state) rng_state = vh::mix64(reinterpret_cast<std::uintptr_t>(&rng_state) ^ vh::seed());
  rng_state ^= rng_state << 13;
  rng_state ^= rng_state >> 7;
  rng_state ^= rng_state << 17;
  return rng_state >> 11;
}
void seed_thread(std::uint64_t s) { rng_state = vh::mix64(s) | 1; }
void jitter(int permille) {
  int p = permille >= 0 ? permille : delay_permille.load(rlx);
  if (p <= 0 || static_cast<int>(rnd() % 1000) >= p) return;
  int e = errno;
  switch (rnd() % 4) {
    case 0: sched_yield(); break;
    case 1: for (volatile int i = 0, n = static_cast<int>(rnd() % 2000); i < n; i = i + 1) {} break;
    default: ::usleep(static_cast<unsigned>(rnd() % static_cast<unsigned>(std::max(1, delay_max_us.load(rlx)))));
  }
  errno = e;
}
std::vector<int> open_fds() {
  std::vector<int> r;
  for (int i = 0; i < max_fd; i++) if (table[i].load(rlx)) r.push_back(i);
  return r;
}
std::string opener(int fd) {
  std::string s = std::to_string(fd) + ":";
  char b[32];
  for (int i = 0; fd < 256 && i < 24 && opened_from[fd][i]; i++) {
    std::snprintf(b, sizeof b, " %p", opened_from[fd][i]);
    s += b;
  }
  return s;
}
std::uint64_t opened() { return n_open.load(rlx); }
std::uint64_t closed() { return n_close.load(rlx); }
std::uint64_t bad_closes() { return n_bad.load(rlx); }
std::uint64_t closed_in_use() { return n_closed_in_use.load(rlx); }
std::uint64_t bad_uses() { return n_bad_use.load(rlx); }
int polled(int fd) { return fd >= 0 && fd < max_fd ? in_poll[fd].load(rlx) : 0; }
}  // namespace faults

using namespace faults;
extern "C" {
int __real_poll(struct pollfd*, nfds_t, int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __real_pipe(int*);
int __real_socket(int, int, int);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_dup(int);
int __real_open(const char*, int, ...);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_fcntl(int, int, ...);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_getsockopt(int, int, int, void*, socklen_t*);
int __real_getsockname(int, struct sockaddr*, socklen_t*);
int __real_getpeername(int, struct sockaddr*, socklen_t*);
int __real_shutdown(int, int);

int __wrap_poll(struct pollfd* f, nfds_t n, int t) {
  jitter();
  if (hit(eintr_permille)) {
    // As when a signal arrives after a while.
    if (t != 0) __real_poll(nullptr, 0, 1);
    errno = EINTR;
    return -1;
  }
  bool g = guarded;
  for (nfds_t i = 0; g && i < n; i++) {
    note_use(f[i].fd);
    if (f[i].fd >= 0 && f[i].fd < max_fd) in_poll[f[i].fd].fetch_add(1, rlx);
  }
  int r = __real_poll(f, n, t);
  for (nfds_t i = 0; g && i < n; i++) {
    if (f[i].fd >= 0 && f[i].fd < max_fd) in_poll[f[i].fd].fetch_sub(1, rlx);
  }
  jitter();
  return r;
}
ssize_t __wrap_read(int fd, void* p, size_t n) {
  jitter();
  note_use(fd);
  if (int e = should_fail("read", fd)) { errno = e; return -1; }
  if (n > 1 && hit(again_permille) && (__real_poll(nullptr, 0, 0), is_socket(fd)) && (__real_fcntl(fd, F_GETFL) & O_NONBLOCK)) { errno = EAGAIN; return -1; }
  if (n > 1 && hit(short_permille)) n = 1 + rnd() % n;
  auto r = __real_read(fd, p, n);
  jitter();
  return r;
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
  jitter();
  note_use(fd);
  if (int e = should_fail("write", fd)) { errno = e; return -1; }
  if (n > 1 && hit(again_permille) && is_socket(fd) && (__real_fcntl(fd, F_GETFL) & O_NONBLOCK)) { errno = EAGAIN; return -1; }
  if (n > 1 && hit(short_permille)) n = 1 + rnd() % n;
  auto r = __real_write(fd, p, n);
  jitter();
  return r;
}
int __wrap_close(int fd) {
  jitter();
  if (fd >= 0 && fd < 65536 && table[fd].exchange(0, std::memory_order_relaxed)) {
    n_close.fetch_add(1, std::memory_order_relaxed);
    if (in_poll[fd].load(std::memory_order_relaxed)) n_closed_in_use.fetch_add(1, std::memory_order_relaxed);
  } else if (fd >= 0) {
    n_bad.fetch_add(1, std::memory_order_relaxed);
  }
  return __real_close(fd);
}
int __wrap_pipe(int* f) {
  if (int e = should_fail("pipe", -1)) { errno = e; return -1; }
  int r = __real_pipe(f);
  if (!r) { note_open(f[0]); note_open(f[1]); }
  return r;
}
int __wrap_socket(int a, int b, int c) {
  if (int e = should_fail("socket", -1)) { errno = e; return -1; }
  int r = __real_socket(a, b, c);
  note_open(r);
  return r;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) {
  jitter();
  if (int e = should_fail("accept", fd)) { errno = e; return -1; }
  int r = __real_accept(fd, a, l);
  note_open(r);
  return r;
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) {
  jitter();
  if (auto h = connect_hook.load(std::memory_order_relaxed)) h(a, l);
  if (int e = should_fail("connect", fd)) { errno = e; return -1; }
  return __real_connect(fd, a, l);
}
int __wrap_dup(int fd) {
  if (int e = should_fail("dup", fd)) { errno = e; return -1; }
  int r = __real_dup(fd);
  note_open(r);
  return r;
}
int __wrap_open(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (int e = should_fail("open", -1)) { errno = e; return -1; }
  int r = __real_open(p, flags, mode);
  note_open(r);
  return r;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l) {
  if (int e = should_fail("bind", fd)) { errno = e; return -1; }
  return __real_bind(fd, a, l);
}
int __wrap_listen(int fd, int n) {
  if (int e = should_fail("listen", fd)) { errno = e; return -1; }
  return __real_listen(fd, n);
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (int e = should_fail("fcntl", fd)) { errno = e; return -1; }
  return __real_fcntl(fd, cmd, arg);
}
int __wrap_setsockopt(int fd, int a, int b, const void* p, socklen_t l) {
  if (int e = should_fail("setsockopt", fd)) { errno = e; return -1; }
  return __real_setsockopt(fd, a, b, p, l);
}
int __wrap_getsockopt(int fd, int a, int b, void* p, socklen_t* l) {
  if (int e = should_fail("getsockopt", fd)) { errno = e; return -1; }
  return __real_getsockopt(fd, a, b, p, l);
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  if (int e = should_fail("getsockname", fd)) { errno = e; return -1; }
  return __real_getsockname(fd, a, l);
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  if (int e = should_fail("getpeername", fd)) { errno = e; return -1; }
  return __real_getpeername(fd, a, l);
}
int __wrap_shutdown(int fd, int how) {
  if (int e = should_fail("shutdown", fd)) { errno = e; return -1; }
  return __real_shutdown(fd, how);
}
}

// libstdc++ is not instrumented: tell TSan about the order its reference counts
// of exception objects establish.
#ifdef __SANITIZE_THREAD__
#include <sanitizer/tsan_interface.h>
static void note_exception(void* p) {
  if (!p) return;
  __tsan_acquire(p);
  __tsan_release(p);
}
#else
static void note_exception(void*) {}
#endif
extern "C" {
void __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self);
void __wrap__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self) {
  note_exception(*self);
  __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(self);
}
void __real___cxa_end_catch();
void __wrap___cxa_end_catch() {
#ifdef __SANITIZE_THREAD__
  {
    auto e = std::current_exception();
    void* p;
    static_assert(sizeof e == sizeof p);
    std::memcpy(&p, &e, sizeof p);
    note_exception(p);
  }
#endif
  __real___cxa_end_catch();
}
}
