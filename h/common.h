// Shared harness support: seeded randomness, case markers, violation and
// coverage recording, watchdog. Header-only; each harness is one program and
// defines `void harness()`.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

inline std::uint64_t mix64(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL) {
  auto* b = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
  return mix64(h);
}
inline std::uint64_t hash_str(std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
  return hash_bytes(s.data(), s.size(), h);
}
inline std::uint64_t hcomb(std::uint64_t a, std::uint64_t b) { return mix64(a * 31 + b); }

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(mix64(seed)) {}
  std::uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename V>
  auto& pick(V& v) { return v[below(v.size())]; }
  std::string bytes(std::size_t n) {
    std::string r(n, '\0');
    for (auto& c : r) c = static_cast<char>(next());
    return r;
  }
};

struct State {
  std::uint64_t seed = 1;
  bool thorough = false;
  std::string out, marker_path, mode;
  char* marker = nullptr;
  static constexpr std::size_t marker_size = 8192;
  std::mutex mu;
  std::atomic<std::uint64_t> evaluations{0};
  std::atomic<std::uint64_t> progress{0};
  std::atomic<bool> finished{false};
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, std::uint64_t> stats;
  std::map<std::string, std::pair<std::uint64_t, std::string>> violations;
  std::atomic<unsigned> hang_seconds{60};
};
inline State& st() {
  static State* s = new State;
  return *s;
}
inline std::uint64_t seed() { return st().seed; }
inline bool thorough() { return st().thorough; }
inline const std::string& mode() { return st().mode; }
template <typename T>
T scale(T quick, T thorough_) { return st().thorough ? thorough_ : quick; }

inline std::string json_escape(std::string_view s) {
  std::string r;
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { std::snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
    else r += static_cast<char>(c);
  }
  return r;
}
inline std::string hex(std::string_view s, std::size_t max = 96) {
  std::string r;
  char b[3];
  for (std::size_t i = 0; i < s.size() && i < max; i++) {
    std::snprintf(b, 3, "%02x", static_cast<unsigned char>(s[i]));
    r += b;
  }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

// Marks the case being executed; survives a crash (shared file mapping).
inline void mark(std::string_view what) {
  st().progress.fetch_add(1, std::memory_order_relaxed);
  if (char* m = st().marker) {
    std::scoped_lock l(st().mu);
    std::size_t n = std::min(what.size(), State::marker_size - 1);
    std::memcpy(m, what.data(), n);
    m[n] = 0;
  }
}
inline void tick() { st().progress.fetch_add(1, std::memory_order_relaxed); }

// One evaluated case. `h` identifies it; only non-trivial ones count as distinct.
inline void eval(std::uint64_t h, bool nontrivial = true) {
  st().evaluations.fetch_add(1, std::memory_order_relaxed);
  st().progress.fetch_add(1, std::memory_order_relaxed);
  if (nontrivial) {
    std::scoped_lock l(st().mu);
    if (st().distinct.size() < 4000000) st().distinct.insert(h);
  }
}
inline void sample(const std::string& s) {
  std::scoped_lock l(st().mu);
  if (st().samples.size() < 12) st().samples.push_back(s.substr(0, 400));
}
inline void stat(const std::string& k, std::uint64_t n = 1) {
  std::scoped_lock l(st().mu);
  st().stats[k] += n;
}
inline void stat_max(const std::string& k, std::uint64_t n) {
  std::scoped_lock l(st().mu);
  auto& v = st().stats[k];
  if (n > v) v = n;
}
inline void write_out();
inline void violation(const std::string& key, const std::string& detail) {
  bool give_up = false;
  {
    std::scoped_lock l(st().mu);
    auto& v = st().violations[key];
    if (v.first++ == 0) v.second = detail.substr(0, 4000);
    std::uint64_t total = 0;
    for (auto& p : st().violations) total += p.second.first;
    give_up = total > 2000;
  }
  if (give_up) {
    write_out();
    _exit(0);
  }
}
#define VH_CHECK(cond, key, detail)            \
  do {                                         \
    if (!(cond)) ::vh::violation((key), (detail)); \
  } while (0)

inline void write_out() {
  std::ostringstream o;
  {
    std::scoped_lock l(st().mu);
    o << "{\"evaluations\":" << st().evaluations.load() << ",\"distinct\":" << st().distinct.size()
      << ",\"samples\":[";
    bool f = true;
    for (auto& s : st().samples) { o << (f ? "" : ",") << '"' << json_escape(s) << '"'; f = false; }
    o << "],\"stats\":{";
    f = true;
    for (auto& s : st().stats) { o << (f ? "" : ",") << '"' << json_escape(s.first) << "\":" << s.second; f = false; }
    o << "},\"violations\":[";
    f = true;
    for (auto& v : st().violations) {
      o << (f ? "" : ",") << "{\"key\":\"" << json_escape(v.first) << "\",\"count\":" << v.second.first
        << ",\"detail\":\"" << json_escape(v.second.second) << "\"}";
      f = false;
    }
    o << "]}\n";
  }
  std::string tmp = st().out + ".tmp";
  if (FILE* fp = std::fopen(tmp.c_str(), "w")) {
    auto s = o.str();
    std::fwrite(s.data(), 1, s.size(), fp);
    std::fclose(fp);
    std::rename(tmp.c_str(), st().out.c_str());
  }
}

inline void set_hang_seconds(unsigned s) { st().hang_seconds = s; }

}  // namespace vh

void harness();

#ifndef VH_NO_MAIN

int main(int argc, char** argv) {
  auto& s = vh::st();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier") s.thorough = (v == "thorough");
    else if (a == "--out") s.out = v;
    else if (a == "--marker") s.marker_path = v;
    else if (a == "--mode") s.mode = v;
    else if (a == "--hang") s.hang_seconds = std::atoi(v.c_str());
  }
  if (!s.marker_path.empty()) {
    int fd = ::open(s.marker_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ::ftruncate(fd, vh::State::marker_size) == 0) {
      void* p = ::mmap(nullptr, vh::State::marker_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) s.marker = static_cast<char*>(p);
      ::close(fd);
    }
  }
  std::thread watchdog([] {
    auto& s = vh::st();
    std::uint64_t last = s.progress.load();
    unsigned idle = 0;  // In tenths of seconds.
    while (!s.finished.load()) {
      ::usleep(100000);
      auto now = s.progress.load();
      if (now != last) { last = now; idle = 0; continue; }
      if (++idle > s.hang_seconds * 10) {
        if (!s.out.empty()) vh::write_out();
        if (getenv("VH_ABORT_ON_HANG")) abort();
        ::_exit(98);
      }
    }
  });
  std::set_terminate([] {
    static const char msg[] = "VH-TERMINATE\n";
    (void)!::write(2, msg, sizeof msg - 1);
    if (auto e = std::current_exception()) {
      try { std::rethrow_exception(e); }
      catch (const std::exception& x) { (void)!::write(2, x.what(), std::strlen(x.what())); (void)!::write(2, "\n", 1); }
      catch (...) {}
    }
    std::abort();
  });
  harness();
  s.finished = true;
  watchdog.join();
  vh::write_out();
  std::fflush(nullptr);
  return 0;
}
#endif  // VH_NO_MAIN
#endif
