// F01/F02: flat containers run in lockstep with the standard ones; F03: value
// semantics, comparators and a ledger of live elements, with injected throws.
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "common.h"

using vh::Rng;

// ---------------------------------------------------------------- instruments
struct injected : std::exception {
  const char* what() const noexcept override { return "injected"; }
};
static long g_fuse = -1;          // Throw when it gets to zero.
static std::uint64_t g_throws = 0;
static void fuse() {
  if (g_fuse > 0 && --g_fuse == 0) {
    g_fuse = -1;
    g_throws++;
    throw injected();
  }
}
static std::uint64_t g_copies = 0;
static std::unordered_map<const void*, int> g_live;  // Address -> 1.
static std::string g_where;
static void bad(const char* key, const std::string& what) { vh::violation(std::string(vh::mode()) + ":" + key, what + " in " + g_where); }

template <bool copyable>
struct Elem {
  int key = 0;
  int id = 0;
  bool gone = false;  // Moved from.
  struct raw {};
  explicit Elem(int k = 0, int i = 0) : key(k), id(i) { born(); }
  Elem(const Elem& o) : key((o.alive("copy from"), fuse(), o.key)), id(o.id), gone(o.gone) {
    static_assert(copyable, "copied a move-only element");
    g_copies++;
    born();
  }
  Elem(Elem&& o) noexcept(!copyable) : key((o.alive("move from"), copyable ? fuse() : void(), o.key)), id(o.id), gone(o.gone) {
    o.gone = true;
    born();
  }
  Elem& operator=(const Elem& o) {
    alive("copy assignment to");
    o.alive("copy assignment from");
    fuse();
    g_copies++;
    key = o.key; id = o.id; gone = o.gone;
    return *this;
  }
  Elem& operator=(Elem&& o) noexcept(!copyable) {
    alive("move assignment to");
    o.alive("move assignment from");
    if (copyable) fuse();
    key = o.key; id = o.id; gone = o.gone;
    if (this != &o) o.gone = true;
    return *this;
  }
  ~Elem() {
    if (g_live.erase(this) != 1) bad("destroyed-twice", "an element was destroyed that was not alive");
    key = -777777;
  }
  void born() {
    if (!g_live.emplace(this, 1).second) bad("constructed-over", "an element was constructed over a live one");
  }
  void alive(const char* what) const {
    if (!g_live.count(this)) bad("dead-element", std::string(what) + " an element that is not alive");
  }
};
template <>
struct Elem<false> {
  int key = 0, id = 0;
  bool gone = false;
  explicit Elem(int k = 0, int i = 0) : key(k), id(i) { born(); }
  Elem(Elem&& o) noexcept : key((o.alive("move from"), o.key)), id(o.id), gone(o.gone) { o.gone = true; born(); }
  Elem& operator=(Elem&& o) noexcept {
    alive("move assignment to");
    o.alive("move assignment from");
    key = o.key; id = o.id; gone = o.gone;
    if (this != &o) o.gone = true;
    return *this;
  }
  ~Elem() {
    if (g_live.erase(this) != 1) bad("destroyed-twice", "an element was destroyed that was not alive");
    key = -777777;
  }
  void born() { if (!g_live.emplace(this, 1).second) bad("constructed-over", "an element was constructed over a live one"); }
  void alive(const char* what) const { if (!g_live.count(this)) bad("dead-element", std::string(what) + " an element that is not alive"); }
};
using E = Elem<true>;
using MO = Elem<false>;

// How keys are ordered; `tag` identifies the comparator a container was given.
struct Cmp {
  int kind = 0, tag = 0;
  static std::uint64_t calls;
  int rank(int k) const {
    switch (kind) {
      case 1: return -k;
      case 2: return k / 4;              // Coarser than equality.
      case 3: return (k * 7919) % 1009;  // Scrambled.
      case 4: return -(k % 5);
      default: return k;
    }
  }
  template <bool c>
  bool operator()(const Elem<c>& a, const Elem<c>& b) const {
    calls++;
    a.alive("comparison of");
    b.alive("comparison of");
    if (a.gone || b.gone) bad("moved-from-compared", "a moved-from element was compared");
    fuse();
    return rank(a.key) < rank(b.key);
  }
  bool operator()(int a, int b) const { calls++; fuse(); return rank(a) < rank(b); }
  bool operator()(const std::string& a, const std::string& b) const {
    calls++;
    fuse();
    return kind == 1 ? b < a : kind == 2 ? a.size() < b.size() : kind >= 3 ? std::string(a.rbegin(), a.rend()) < std::string(b.rbegin(), b.rend()) : a < b;
  }
};
std::uint64_t Cmp::calls = 0;

// Allocator that knows what is allocated through it.
static std::map<void*, std::pair<int, std::size_t>> g_blocks;
template <typename T>
struct Alloc {
  using value_type = T;
  int arena = 0;
  explicit Alloc(int a = 0) : arena(a) {}
  template <typename U>
  Alloc(const Alloc<U>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    void* p = ::operator new(n * sizeof(T));
    g_blocks[p] = {arena, n};
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n) {
    auto it = g_blocks.find(p);
    if (it == g_blocks.end() || it->second != std::pair{arena, n}) bad("deallocate", "memory returned to another allocator or with another size");
    else g_blocks.erase(it);
    ::operator delete(p);
  }
  template <typename U>
  bool operator==(const Alloc<U>& o) const { return arena == o.arena; }
  template <typename U>
  bool operator!=(const Alloc<U>& o) const { return arena != o.arena; }
};

// Single-pass input iterator over a vector.
template <typename T>
struct Pass {
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = const T*;
  using reference = const T&;
  struct St { const std::vector<T>* v; std::size_t i; };
  std::shared_ptr<St> s;  // Shared: incrementing one copy increments all.
  std::size_t at;
  Pass() : at(0) {}
  explicit Pass(const std::vector<T>& v) : s(std::make_shared<St>(St{&v, 0})), at(0) {}
  void check() const { if (s->i != at) bad("multi-pass", "a single-pass iterator was used twice"); }
  reference operator*() const { check(); return (*s->v)[at]; }
  pointer operator->() const { return &**this; }
  Pass& operator++() { check(); s->i = ++at; return *this; }
  Pass operator++(int) { Pass r(*this); ++*this; return r; }
  bool done() const { return !s || at >= s->v->size(); }
  bool operator==(const Pass& o) const { return done() == o.done(); }
  bool operator!=(const Pass& o) const { return !(*this == o); }
};

// ------------------------------------------------------------------ key/value
template <typename K> struct Mk;
template <> struct Mk<int> {
  static int make(int k, int) { return k; }
  static std::string str(const int& k) { return std::to_string(k); }
};
template <> struct Mk<std::string> {
  static std::string make(int k, int) {
    std::string r = std::to_string(k % 40);
    return k % 3 ? r : r + std::string(20, static_cast<char>('a' + k % 5));
  }
  static std::string str(const std::string& k) { return k; }
};
template <> struct Mk<E> {
  static E make(int k, int id) { return E(k, id); }
  static std::string str(const E& e) {
    e.alive("reading");
    return (e.gone ? "GONE" : "") + std::to_string(e.key) + "#" + std::to_string(e.id);
  }
};
template <typename V>
std::string vstr(const V& v) { return Mk<V>::str(v); }
template <typename A, typename B>
std::string vstr(const std::pair<A, B>& p) {
  return Mk<std::remove_const_t<A>>::str(p.first) + "=" + Mk<std::remove_const_t<B>>::str(p.second);
}

template <typename C>
std::vector<std::string> dump(const C& c) {
  std::vector<std::string> r;
  for (auto it = c.begin(); it != c.end(); ++it) r.push_back(vstr(*it));
  return r;
}
static std::string join(const std::vector<std::string>& v) {
  std::string r;
  for (auto& s : v) r += (r.empty() ? "" : " ") + s;
  return r.size() > 300 ? r.substr(0, 300) + "..." : r;
}

template <typename Flat, typename Ref, bool is_map, bool multi, typename K, typename V>
struct Diff {
  using FV = typename Flat::value_type;
  std::string name;
  Rng rng;
  int next_id = 1;
  std::uint64_t trace = 0;
  int range_ = 30;

  explicit Diff(std::string n, std::uint64_t s) : name(std::move(n)), rng(s) {}

  static const K& key_of(const FV& v) {
    if constexpr (is_map) return v.first; else return v;
  }
  template <typename RV>
  static const K& rkey_of(const RV& v) {
    if constexpr (is_map) return v.first; else return v;
  }
  int rk() { return static_cast<int>(rng.below(range_)); }
  FV mkv(int k) {
    int id = next_id++;
    if constexpr (is_map) return FV(Mk<K>::make(k, id), Mk<V>::make(k * 100 + id, id));
    else return Mk<K>::make(k, id);
  }
  typename Ref::value_type rv(const FV& v) {
    if constexpr (is_map) return typename Ref::value_type(v.first, v.second);
    else return v;
  }
  void fail(const char* what, const std::string& d) { bad(what, name + ": " + d); }

  // Whole-content comparison.
  void compare(const Flat& f, const Ref& r, const Cmp& c, const char* op) {
    g_where = std::string("comparison after ") + op;
    if (f.size() != r.size() || f.empty() != r.empty()) {
      fail("size", std::string(op) + ": size " + std::to_string(f.size()) + " expected " + std::to_string(r.size()));
    }
    auto fd = dump(f), rd = dump(r);
    if (static_cast<std::size_t>(std::distance(f.begin(), f.end())) != f.size()) fail("iteration", std::string(op) + ": iterated over another number of elements than size()");
    // Order.
    const FV* prev = nullptr;
    for (auto it = f.begin(); it != f.end(); ++it) {
      if (prev) {
        bool ok = multi ? !c(key_of(*it), key_of(*prev)) : c(key_of(*prev), key_of(*it));
        if (!ok) { fail("order", std::string(op) + ": not in order: " + join(fd)); break; }
      }
      prev = &*it;
    }
    // Reverse and const iteration.
    std::vector<std::string> rev;
    for (auto it = f.rbegin(); it != f.rend(); ++it) rev.push_back(vstr(*it));
    std::reverse(rev.begin(), rev.end());
    if (rev != fd) fail("reverse", std::string(op) + ": reverse iteration differs");
    if (multi) {
      // Same groups of equivalent elements, whatever their order inside.
      std::sort(fd.begin(), fd.end());
      std::sort(rd.begin(), rd.end());
    }
    if (fd != rd) fail("contents", std::string(op) + ": holds [" + join(fd) + "] expected [" + join(rd) + "]");
  }

  // Position (number of elements before) in terms of the reference for unique
  // containers; for multi ones bounds are comparable as well.
  void lookups(Flat& f, Ref& r, int k, const Cmp& c) {
    auto key = Mk<K>::make(k, 0);
    const Flat& cf = f;
    g_where = "lookup";
    auto fi = f.find(key);
    auto cfi = cf.find(key);
    auto ri = r.find(key);
    if ((fi == f.end()) != (ri == r.end()) || (cfi == cf.end()) != (ri == r.end())) fail("find", "find(" + std::to_string(k) + ") disagrees");
    else if (fi != f.end()) {
      if (c(key_of(*fi), key) || c(key, key_of(*fi))) fail("find", "find returned another key");
      if (c(key_of(*cfi), key) || c(key, key_of(*cfi))) fail("find", "const find returned another key");
      if (!multi && vstr(*fi) != vstr(*ri)) fail("find", "find returned another element");
    }
    if (f.count(key) != r.count(key)) fail("count", "count(" + std::to_string(k) + ") = " + std::to_string(f.count(key)) + " expected " + std::to_string(r.count(key)));
    auto lb = f.lower_bound(key) - f.begin(), ub = f.upper_bound(key) - f.begin();
    auto clb = cf.lower_bound(key) - cf.begin(), cub = cf.upper_bound(key) - cf.begin();
    auto rl = std::distance(r.begin(), r.lower_bound(key)), ru = std::distance(r.begin(), r.upper_bound(key));
    if (lb != rl || clb != rl) fail("lower_bound", "lower_bound(" + std::to_string(k) + ") at " + std::to_string(lb) + " expected " + std::to_string(rl));
    if (ub != ru || cub != ru) fail("upper_bound", "upper_bound(" + std::to_string(k) + ") at " + std::to_string(ub) + " expected " + std::to_string(ru));
    auto er = f.equal_range(key);
    auto cer = cf.equal_range(key);
    if (er.first - f.begin() != rl || er.second - f.begin() != ru || cer.first - cf.begin() != rl || cer.second - cf.begin() != ru) fail("equal_range", "equal_range(" + std::to_string(k) + ") disagrees");
    auto kc = f.key_comp();
    auto vc = f.value_comp();
    if (!f.empty()) {
      auto& x = *(f.begin() + rng.below(f.size()));
      if (kc(key, key_of(x)) != c(key, key_of(x))) fail("key_comp", "key_comp() orders differently");
      auto& y = *(f.begin() + rng.below(f.size()));
      if (vc(x, y) != c(key_of(x), key_of(y))) fail("value_comp", "value_comp() orders differently");
    }
    if constexpr (is_map && !multi) {
      bool t1 = false, t2 = false, t3 = false;
      std::string a, b, d;
      try { a = Mk<V>::str(f.at(key)); } catch (const std::out_of_range&) { t1 = true; }
      try { b = Mk<V>::str(r.at(key)); } catch (const std::out_of_range&) { t2 = true; }
      try { d = Mk<V>::str(cf.at(key)); } catch (const std::out_of_range&) { t3 = true; }
      if (t1 != t2 || t3 != t2 || a != b || d != b) fail("at", "at(" + std::to_string(k) + ") disagrees");
    }
  }

  std::size_t index_of(const Flat& f, typename Flat::const_iterator it) { return static_cast<std::size_t>(it - f.begin()); }

  // Inserted result check: position holds the element.
  template <typename RetT>
  void check_insert(Flat& f, Ref&, RetT ret, bool inserted, const std::string& what, const char* op, const Cmp& c, const K& key) {
    if constexpr (!multi) {
      if constexpr (std::is_same_v<RetT, typename Flat::iterator>) {
        if (ret == f.end() || c(key_of(*ret), key) || c(key, key_of(*ret))) fail("insert", std::string(op) + " returned a position without that key");
        else if (inserted && vstr(*ret) != what) fail("insert", std::string(op) + " returned another element than the one inserted");
      } else {
        if (ret.second != inserted) fail("insert", std::string(op) + (inserted ? " did not report an insertion" : " reported an insertion that should not be"));
        if (ret.first == f.end() || c(key_of(*ret.first), key) || c(key, key_of(*ret.first))) fail("insert", std::string(op) + " returned a position without that key");
        else if (inserted && vstr(*ret.first) != what) fail("insert", std::string(op) + " returned another element than the one inserted");
      }
    } else {
      if (ret == f.end() || vstr(*ret) != what) fail("insert", std::string(op) + " did not return the inserted element's position");
    }
  }

  // Remove from the reference the element `what` equivalent to key.
  void ref_remove(Ref& r, const K& key, const std::string& what) {
    auto er = r.equal_range(key);
    for (auto it = er.first; it != er.second; ++it) {
      if (vstr(*it) == what) { r.erase(it); return; }
    }
    fail("erase", "erased an element that should not be there: " + what);
  }

  void construct(std::optional<Flat>& f, std::optional<Ref>& r, const Cmp& c) {
    std::vector<FV> v;
    std::size_t n = rng.chance(1, 3) ? 0 : rng.below(rng.chance(1, 6) ? 200 : 25);
    for (std::size_t i = 0; i < n; i++) v.push_back(mkv(rk()));
    std::vector<typename Ref::value_type> w;
    for (auto& x : v) w.push_back(rv(x));
    switch (rng.below(5)) {
      case 0: g_where = "construction"; f.emplace(c); r.emplace(c); for (auto& x : v) { f->insert(x); r->insert(rv(x)); } break;
      case 1: g_where = "construction from range"; f.emplace(v.begin(), v.end(), c); r.emplace(w.begin(), w.end(), c); break;
      case 2: g_where = "construction from input range"; f.emplace(Pass<FV>(v), Pass<FV>(), c); r.emplace(w.begin(), w.end(), c); break;
      case 3: {
        g_where = "construction from list";
        auto a = mkv(rk()), b = mkv(rk()), d = mkv(rk());
        switch (rng.below(3)) {
          case 0: f.emplace(Flat({a, b, d, a}, c)); r.emplace(Ref({rv(a), rv(b), rv(d), rv(a)}, c)); break;
          case 1: f.emplace(Flat({a}, c)); r.emplace(Ref({rv(a)}, c)); break;
          default: f.emplace(Flat(std::initializer_list<FV>{}, c)); r.emplace(c);
        }
        break;
      }
      default: f.emplace(c); r.emplace(c);
    }
  }

  void session(int ops) {
    Cmp c;
    c.kind = static_cast<int>(rng.below(5));
    static const int ranges[] = {1, 3, 8, 30, 100, 1000};
    range_ = ranges[rng.below(6)];
    std::optional<Flat> f;
    std::optional<Ref> r;
    trace = vh::hcomb(vh::hash_str(name), c.kind * 7 + range_);
    vh::mark(name + " comparator " + std::to_string(c.kind) + " keys<" + std::to_string(range_) + " seed state " + std::to_string(rng.s));
    construct(f, r, c);
    compare(*f, *r, c, "construction");
    for (int i = 0; i < ops; i++) step(f, r, c);
    vh::eval(trace, ops > 3);
    vh::stat_max("largest container", f->size());
  }

  void step(std::optional<Flat>& of, std::optional<Ref>& orr, Cmp& c) {
    Flat& f = *of;
    Ref& r = *orr;
    int op = static_cast<int>(rng.below(24));
    int k = rk();
    trace = vh::hcomb(trace, op * 1000 + k);
    const char* name_ = "?";
    auto pos = [&] { return f.begin() + rng.below(f.size() + 1); };
    switch (op) {
      case 0: case 1: {
        g_where = name_ = "insert(const&)";
        auto v = mkv(k);
        bool ins = multi || r.find(key_of(v)) == r.end();
        auto s = vstr(v);
        auto ret = f.insert(v);
        r.insert(rv(v));
        check_insert(f, r, ret, ins, s, "insert", c, key_of(v));
        break;
      }
      case 2: case 3: {
        g_where = name_ = "insert(&&)";
        auto v = mkv(k);
        auto v2 = rv(v);
        bool ins = multi || r.find(rkey_of(v2)) == r.end();
        auto s = vstr(v);
        auto ret = f.insert(std::move(v));
        check_insert(f, r, ret, ins, s, "insert", c, rkey_of(v2));
        r.insert(v2);
        break;
      }
      case 4: {
        g_where = name_ = "insert(hint, const&)";
        auto v = mkv(k);
        bool ins = multi || r.find(key_of(v)) == r.end();
        auto s = vstr(v);
        auto ret = f.insert(typename Flat::const_iterator(pos()), v);
        r.insert(rv(v));
        check_insert(f, r, ret, ins, s, "hinted insert", c, key_of(v));
        break;
      }
      case 5: {
        g_where = name_ = "insert(hint, &&)";
        auto v = mkv(k);
        auto v2 = rv(v);
        bool ins = multi || r.find(rkey_of(v2)) == r.end();
        auto s = vstr(v);
        auto ret = f.insert(typename Flat::const_iterator(pos()), std::move(v));
        check_insert(f, r, ret, ins, s, "hinted insert", c, rkey_of(v2));
        r.insert(v2);
        break;
      }
      case 6: case 7: {
        g_where = name_ = "emplace";
        auto v = mkv(k);
        bool ins = multi || r.find(key_of(v)) == r.end();
        auto s = vstr(v);
        if constexpr (is_map) {
          if (op == 6) { auto ret = f.emplace(v.first, v.second); check_insert(f, r, ret, ins, s, "emplace", c, key_of(v)); }
          else { auto ret = f.emplace_hint(typename Flat::const_iterator(pos()), v.first, v.second); check_insert(f, r, ret, ins, s, "emplace_hint", c, key_of(v)); }
        } else {
          if (op == 6) { auto ret = f.emplace(v); check_insert(f, r, ret, ins, s, "emplace", c, key_of(v)); }
          else { auto ret = f.emplace_hint(typename Flat::const_iterator(pos()), v); check_insert(f, r, ret, ins, s, "emplace_hint", c, key_of(v)); }
        }
        r.insert(rv(v));
        break;
      }
      case 8: {
        g_where = name_ = "insert(range)";
        std::vector<FV> v;
        for (std::size_t i = rng.below(12); i > 0; i--) v.push_back(mkv(rk()));
        if (rng.chance(1, 2)) f.insert(v.begin(), v.end());
        else f.insert(Pass<FV>(v), Pass<FV>());
        for (auto& x : v) r.insert(rv(x));
        break;
      }
      case 9: {
        g_where = name_ = "insert(list)";
        auto a = mkv(k), b = mkv(rk()), d = mkv(k);
        f.insert({a, b, d});
        r.insert({rv(a), rv(b), rv(d)});
        break;
      }
      case 10: case 11: {
        g_where = name_ = "erase(key)";
        auto key = Mk<K>::make(k, 0);
        auto n = f.erase(key), m = r.erase(key);
        if (n != m) fail("erase", "erase(key) returned " + std::to_string(n) + " expected " + std::to_string(m));
        break;
      }
      case 12: case 13: {
        if (f.empty()) break;
        g_where = name_ = "erase(position)";
        std::size_t i = rng.below(f.size());
        auto what = vstr(f.begin()[i]);
        auto nxt = i + 1 < f.size() ? vstr(f.begin()[i + 1]) : std::string("END");
        ref_remove(r, key_of(f.begin()[i]), what);
        auto ret = f.erase(typename Flat::const_iterator(f.begin() + i));
        if (index_of(f, ret) != i || (ret == f.end() ? "END" : vstr(*ret)) != nxt) fail("erase", "erase(position) did not return the following position");
        break;
      }
      case 14: {
        g_where = name_ = "erase(range)";
        std::size_t i = rng.below(f.size() + 1), j = i + rng.below(std::min<std::size_t>(f.size() - i, 6) + 1);
        for (std::size_t x = i; x < j; x++) ref_remove(r, key_of(f.begin()[x]), vstr(f.begin()[x]));
        auto ret = f.erase(typename Flat::const_iterator(f.begin() + i), typename Flat::const_iterator(f.begin() + j));
        if (index_of(f, ret) != i) fail("erase", "erase(range) did not return the following position");
        break;
      }
      case 15: {  // Arguments inside the container.
        if (f.empty()) break;
        auto it = f.begin() + rng.below(f.size());
        switch (rng.below(4)) {
          case 0: {
            g_where = name_ = "erase(own key)";
            auto kk = key_of(*it);
            auto n = f.erase(key_of(*it)), m = r.erase(kk);
            if (n != m) fail("erase", "erase(own key) returned " + std::to_string(n) + " expected " + std::to_string(m));
            break;
          }
          case 1: {
            g_where = name_ = "insert(own element)";
            auto v = *it;
            auto s = vstr(v);
            auto ret = f.insert(*it);
            check_insert(f, r, ret, multi, s, "insert(own element)", c, key_of(v));
            r.insert(rv(v));
            break;
          }
          case 2: {
            g_where = name_ = "emplace(own element)";
            auto v = *it;
            auto s = vstr(v);
            auto ret = f.emplace(*it);
            check_insert(f, r, ret, multi, s, "emplace(own element)", c, key_of(v));
            r.insert(rv(v));
            break;
          }
          default: {
            g_where = name_ = "insert(hint, own element)";
            auto v = *it;
            auto s = vstr(v);
            auto ret = f.insert(typename Flat::const_iterator(it), *it);
            check_insert(f, r, ret, multi, s, "insert(hint, own element)", c, key_of(v));
            r.insert(rv(v));
          }
        }
        break;
      }
      case 16: case 17: {
        if constexpr (is_map && !multi) {
          g_where = name_ = "operator[]";
          auto key = Mk<K>::make(k, next_id++);
          if (op == 16) {
            auto val = Mk<V>::make(k + 5, next_id++);
            auto key2 = key;
            if (rng.chance(1, 2)) f[key] = val; else f[std::move(key2)] = val;
            r[key] = val;
          } else if (rng.chance(1, 2) || f.empty()) {
            auto a = Mk<V>::str(f[key]), b = Mk<V>::str(r[key]);
            if (a != b) fail("subscript", "operator[] gave " + a + " expected " + b);
          } else {
            // The key of one element, by reference, as the key of another map's.
            auto it = f.begin() + rng.below(f.size());
            auto kk = it->first;
            auto a = Mk<V>::str(f[it->first]), b = Mk<V>::str(r[kk]);
            if (a != b) fail("subscript", "operator[](own key) gave " + a + " expected " + b);
          }
        }
        break;
      }
      case 18: {
        if (!rng.chance(1, 6)) break;
        g_where = name_ = "clear";
        f.clear();
        r.clear();
        break;
      }
      case 19: {
        g_where = name_ = "reserve";
        if (rng.chance(1, 4)) f.shrink_to_fit();
        else {
          std::size_t n = rng.below(100);
          f.reserve(n);
          if (f.capacity() < n) fail("reserve", "capacity() below what was reserved");
        }
        break;
      }
      case 20: {
        g_where = name_ = "copy";
        Flat g(f);
        compare(f, r, c, "being copied");
        f.clear();
        of.emplace(std::move(g));
        break;
      }
      case 21: {
        // The reference's assignments and swaps, with another comparator.
        Cmp c2;
        c2.kind = static_cast<int>(rng.below(5));
        std::optional<Flat> f2;
        std::optional<Ref> r2;
        construct(f2, r2, c2);
        switch (rng.below(4)) {
          case 0: g_where = name_ = "copy assignment"; *of = *f2; *orr = *r2; c = c2; compare(*f2, *r2, c2, "being assigned from"); break;
          case 1: g_where = name_ = "move assignment"; *of = std::move(*f2); *orr = std::move(*r2); c = c2; break;
          case 2: g_where = name_ = "swap"; of->swap(*f2); orr->swap(*r2); std::swap(c, c2); compare(*f2, *r2, c2, "swap"); break;
          default: { g_where = name_ = "std::swap"; using std::swap; swap(*of, *f2); swap(*orr, *r2); std::swap(c, c2); compare(*f2, *r2, c2, "std::swap"); }
        }
        break;
      }
      case 22: {
        g_where = name_ = "list assignment";
        if (!rng.chance(1, 4)) break;
        auto a = mkv(rk()), b = mkv(rk()), d = mkv(rk());
        *of = {a, b, d, b};
        *orr = {rv(a), rv(b), rv(d), rv(b)};
        break;
      }
      default:
        g_where = name_ = "lookup";
    }
    vh::stat(std::string("op ") + name_);
    compare(*of, *orr, c, name_);
    lookups(*of, *orr, k, c);
    lookups(*of, *orr, rk(), c);
  }
};

static void lookups_by_convertible() {
  // Lookup values that convert to the key.
  arpc::flat_map<std::string, int> m{{"b", 2}, {"a", 1}, {"a", 3}};
  g_where = "lookup by convertible value";
  if (m.size() != 2 || m.at("a") != 1 || m["b"] != 2 || m.count("c") || m.find("a") != m.begin()) bad("convertible", "flat_map<string,int>");
  if (m["zz"] != 0 || m.size() != 3) bad("convertible", "operator[] from a literal");
}

template <bool multi>
void f0102() {
  std::uint64_t s = vh::seed() * 1000;
  int n = vh::scale(60, 400), ops = 120;
  for (int i = 0; i < n; i++) {
    if constexpr (!multi) {
      Diff<arpc::flat_set<int, Cmp>, std::set<int, Cmp>, false, false, int, int>("flat_set<int>", s + i * 10).session(ops);
      Diff<arpc::flat_set<E, Cmp>, std::set<E, Cmp>, false, false, E, E>("flat_set<E>", s + i * 10 + 1).session(ops);
      Diff<arpc::flat_set<std::string, Cmp>, std::set<std::string, Cmp>, false, false, std::string, int>("flat_set<string>", s + i * 10 + 2).session(ops);
      Diff<arpc::flat_map<int, std::string, Cmp>, std::map<int, std::string, Cmp>, true, false, int, std::string>("flat_map<int,string>", s + i * 10 + 3).session(ops);
      Diff<arpc::flat_map<E, E, Cmp>, std::map<E, E, Cmp>, true, false, E, E>("flat_map<E,E>", s + i * 10 + 4).session(ops);
      Diff<arpc::flat_map<std::string, int, Cmp>, std::map<std::string, int, Cmp>, true, false, std::string, int>("flat_map<string,int>", s + i * 10 + 5).session(ops);
    } else {
      Diff<arpc::flat_multiset<int, Cmp>, std::multiset<int, Cmp>, false, true, int, int>("flat_multiset<int>", s + i * 10).session(ops);
      Diff<arpc::flat_multiset<E, Cmp>, std::multiset<E, Cmp>, false, true, E, E>("flat_multiset<E>", s + i * 10 + 1).session(ops);
      Diff<arpc::flat_multimap<int, int, Cmp>, std::multimap<int, int, Cmp>, true, true, int, int>("flat_multimap<int,int>", s + i * 10 + 2).session(ops);
      Diff<arpc::flat_multimap<E, E, Cmp>, std::multimap<E, E, Cmp>, true, true, E, E>("flat_multimap<E,E>", s + i * 10 + 3).session(ops);
      Diff<arpc::flat_multimap<std::string, std::string, Cmp>, std::multimap<std::string, std::string, Cmp>, true, true, std::string, std::string>("flat_multimap<string,string>", s + i * 10 + 4).session(ops);
    }
    if (!g_live.empty()) { bad("leak", std::to_string(g_live.size()) + " elements leaked"); g_live.clear(); }
  }
  if (!multi) lookups_by_convertible();
  vh::stat("comparisons", Cmp::calls);
}

// ------------------------------------------------------------------------ F03
template <typename T> struct Ops;
template <> struct Ops<E> { static E mk(int k, int id) { return E(k, id); } static int key(const E& e) { return e.key; } static std::string s(const E& e) { return Mk<E>::str(e); } };
template <> struct Ops<std::pair<E, E>> {
  static std::pair<E, E> mk(int k, int id) { return {E(k, id), E(k + 1, id)}; }
  static int key(const std::pair<E, E>& e) { return e.first.key; }
  static std::string s(const std::pair<E, E>& e) { return vstr(e); }
};

template <typename C>
std::vector<std::string> contents(const C& c) {
  std::vector<std::string> r;
  for (auto& x : c) r.push_back(Ops<typename C::value_type>::s(x));
  return r;
}
template <typename C>
bool sorted_by(const C& c, const Cmp& cmp, bool multi) {
  const typename C::value_type* p = nullptr;
  for (auto& x : c) {
    if (p) {
      int a = cmp.rank(Ops<typename C::value_type>::key(*p)), b = cmp.rank(Ops<typename C::value_type>::key(x));
      if (multi ? b < a : b <= a) return false;
    }
    p = &x;
  }
  return true;
}
template <typename T> const auto& keyref(const T& v) { return v; }
template <typename A, typename B> const A& keyref(const std::pair<A, B>& v) { return v.first; }

template <typename C, bool multi>
void f03_values(const std::string& name, std::uint64_t seed) {
  using T = typename C::value_type;
  using Al = typename C::allocator_type;
  Rng rng(seed);
  int id = 0;
  std::uint64_t h = vh::hash_str(name, seed);
  auto mk = [&](const Cmp& c) {
    C x(c, Al(static_cast<int>(rng.below(2))));
    std::size_t n = rng.below(14);
    for (std::size_t i = 0; i < n; i++) { auto v = Ops<T>::mk(static_cast<int>(rng.below(20)), ++id); h = vh::hcomb(h, Ops<T>::key(v)); x.insert(std::move(v)); }
    return x;
  };
  auto cmp = [&] { Cmp c; c.kind = static_cast<int>(rng.below(5)); c.tag = static_cast<int>(rng.below(1000)) + 1; return c; };
  auto tagged = [&](const C& x, const Cmp& c, const char* op) {
    if (x.key_comp().tag != c.tag || x.key_comp().kind != c.kind) bad("comparator", name + ": another comparator after " + op);
    if (!sorted_by(x, c, multi)) bad("order", name + ": not ordered by its comparator after " + op);
  };
  auto use = [&](C& x, const Cmp& c, const char* op) {
    // Keeps ordering by the comparator it was given.
    for (int i = 0; i < 3; i++) {
      auto v = Ops<T>::mk(static_cast<int>(rng.below(20)), ++id);
      auto key = keyref(v);
      auto before = x.size();
      bool had = x.count(key) > 0;
      bool expect = false;
      for (auto& y : x) expect |= !c(keyref(y), key) && !c(key, keyref(y));
      if (had != expect) bad("lookup", name + ": count() disagrees with the comparator after " + op);
      x.insert(v);
      if (x.size() != before + (multi || !had)) bad("insert", name + ": insertion disagrees with the comparator after " + op);
    }
    tagged(x, c, op);
  };
  vh::mark(name + " values, seed " + std::to_string(seed));
  for (int round = 0; round < 12; round++) {
    Cmp c1 = cmp(), c2 = cmp();
    g_where = "construction";
    C a = mk(c1), b = mk(c2);
    tagged(a, c1, "construction");
    auto ca = contents(a), cb = contents(b);
    int op = static_cast<int>(rng.below(10));
    h = vh::hcomb(h, op);
    switch (op) {
      case 0: {
        g_where = "copy construction";
        C x(a);
        if (contents(x) != ca || contents(a) != ca) bad("copy", name + ": a copy differs from the original");
        tagged(x, c1, "copy construction");
        use(x, c1, "copy construction");
        if (contents(a) != ca) bad("copy", name + ": changing a copy changed the original");
        auto cx = contents(x);
        a.clear();
        if (contents(x) != cx) bad("copy", name + ": clearing the original changed the copy");
        break;
      }
      case 1: {
        g_where = "move construction";
        auto copies = g_copies;
        C x(std::move(a));
        if (g_copies != copies) bad("move-copies", name + ": move construction copied elements");
        if (contents(x) != ca) bad("move", name + ": move construction lost elements");
        tagged(x, c1, "move construction");
        use(x, c1, "move construction");
        a.clear();
        a = b;
        if (contents(a) != cb) bad("move", name + ": a moved-from container cannot be assigned to");
        use(a, c2, "assignment to moved-from");
        break;
      }
      case 2: {
        g_where = "copy assignment";
        a = b;
        if (contents(a) != cb || contents(b) != cb) bad("copy", name + ": copy assignment differs");
        tagged(a, c2, "copy assignment");
        use(a, c2, "copy assignment");
        if (contents(b) != cb) bad("copy", name + ": changing a copy changed the original");
        break;
      }
      case 3: {
        g_where = "move assignment";
        auto copies = g_copies;
        bool same = a.get_allocator() == b.get_allocator();
        a = std::move(b);
        if (same && g_copies != copies) bad("move-copies", name + ": move assignment copied elements");
        if (contents(a) != cb) bad("move", name + ": move assignment lost elements");
        tagged(a, c2, "move assignment");
        use(a, c2, "move assignment");
        b.clear();
        break;
      }
      case 4: case 5: {
        if (a.get_allocator() != b.get_allocator()) break;
        auto copies = g_copies;
        if (op == 4) { g_where = "swap"; a.swap(b); }
        else { g_where = "std::swap"; using std::swap; swap(a, b); }
        if (g_copies != copies) bad("move-copies", name + ": swapping copied elements");
        if (contents(a) != cb || contents(b) != ca) bad("swap", name + ": swap did not exchange the contents");
        tagged(a, c2, "swap");
        tagged(b, c1, "swap");
        use(a, c2, "swap");
        use(b, c1, "swap");
        break;
      }
      case 6: {
        g_where = "self assignment";
        C& alias = a;
        a = alias;
        if (contents(a) != ca) bad("self", name + ": self assignment changed the contents");
        tagged(a, c1, "self assignment");
        if (rng.chance(1, 2)) { a.swap(alias); if (contents(a) != ca) bad("self", name + ": self swap changed the contents"); tagged(a, c1, "self swap"); }
        break;
      }
      case 7: {
        g_where = "list assignment";
        auto x = Ops<T>::mk(3, ++id), y = Ops<T>::mk(1, ++id), z = Ops<T>::mk(2, ++id);
        a = {x, y, z};
        if (a.size() != 3 && (multi || c1.kind == 0 || c1.kind == 1)) bad("list", name + ": list assignment lost elements");
        tagged(a, c1, "list assignment");
        use(a, c1, "list assignment");
        break;
      }
      case 8: {
        g_where = "construction with allocator";
        int arena = static_cast<int>(rng.below(3));
        C x(a, Al(arena));
        if (contents(x) != ca) bad("copy", name + ": allocator-extended copy differs");
        tagged(x, c1, "allocator-extended copy");
        if (x.get_allocator() != Al(arena)) bad("allocator", name + ": allocator-extended copy uses another allocator");
        C y(std::move(a), Al(arena));
        if (contents(y) != ca) bad("move", name + ": allocator-extended move differs");
        tagged(y, c1, "allocator-extended move");
        if (y.get_allocator() != Al(arena)) bad("allocator", name + ": allocator-extended move uses another allocator");
        use(x, c1, "allocator-extended copy");
        use(y, c1, "allocator-extended move");
        break;
      }
      default: {
        g_where = "range construction";
        std::vector<T> v(a.begin(), a.end());
        std::reverse(v.begin(), v.end());
        C x(v.begin(), v.end(), c2, Al(1));
        tagged(x, c2, "range construction");
        use(x, c2, "range construction");
      }
    }
    vh::stat("value operations");
  }
  vh::eval(h);
}

// Injected exceptions: for every operation, at every point where one can come.
template <typename C, bool multi>
void f03_throws(const std::string& name, std::uint64_t seed) {
  using T = typename C::value_type;
  Rng rng(seed);
  int id = 0;
  static const char* const ops[] = {"insert(const&)", "insert(&&)", "insert(hint)", "emplace", "insert(range)", "range construction", "copy construction", "copy assignment",
                                    "move construction", "move assignment", "swap", "erase(key)", "erase(position)", "erase(range)", "find", "count", "equal_range", "lower_bound",
                                    "list assignment", "reserve", "clear", "list construction"};
  constexpr int n_ops = sizeof ops / sizeof *ops;
  for (int op = 0; op < n_ops; op++) {
    for (int shape = 0; shape < vh::scale(3, 8); shape++) {
      Cmp c;
      c.kind = static_cast<int>(rng.below(5));
      std::vector<std::pair<int, int>> keys, keys2;
      for (std::size_t i = rng.below(12); i > 0; i--) keys.push_back({static_cast<int>(rng.below(16)), ++id});
      for (std::size_t i = rng.below(8); i > 0; i--) keys2.push_back({static_cast<int>(rng.below(16)), ++id});
      int k = static_cast<int>(rng.below(16));
      bool full = rng.chance(1, 2);
      std::size_t where = rng.below(100);
      for (long n = 1;; n++) {
        g_where = std::string(ops[op]) + " with a throw at step " + std::to_string(n);
        vh::mark(name + " " + g_where + " seed " + std::to_string(seed) + " shape " + std::to_string(shape));
        bool threw = false;
        std::size_t others = 0;
        {
          C a(c), b(c);
          for (auto& p : keys) a.insert(Ops<T>::mk(p.first, p.second));
          for (auto& p : keys2) b.insert(Ops<T>::mk(p.first, p.second));
          if (full) a.shrink_to_fit(); else a.reserve(a.size() + 20);
          std::vector<T> v;
          for (auto& p : keys2) v.push_back(Ops<T>::mk(p.first, p.second));
          auto val = Ops<T>::mk(k, ++id);
          auto key = keyref(val);
          auto before = contents(a), before_b = contents(b);
          bool unchanged = false;
          std::size_t base_live = g_live.size() - a.size() * (sizeof(T) / sizeof(E)) - b.size() * (sizeof(T) / sizeof(E));
          std::optional<C> extra;
          auto pos = [&] { return typename C::const_iterator(a.begin() + where % (a.size() + 1)); };
          g_fuse = n;
          try {
            switch (op) {
              case 0: a.insert(val); break;
              case 1: a.insert(std::move(val)); break;
              case 2: a.insert(pos(), val); break;
              case 3: a.emplace(val); break;
              case 4: a.insert(v.begin(), v.end()); break;
              case 5: extra.emplace(v.begin(), v.end(), c); break;
              case 6: unchanged = true; extra.emplace(a); break;
              case 7: a = b; break;
              case 8: extra.emplace(std::move(a)); break;
              case 9: a = std::move(b); break;
              case 10: a.swap(b); break;
              case 11: a.erase(key); break;
              case 12: if (a.size()) a.erase(typename C::const_iterator(a.begin() + where % a.size())); break;
              case 13: a.erase(pos(), a.end()); break;
              case 14: unchanged = true; (void)a.find(key); break;
              case 15: unchanged = true; (void)a.count(key); break;
              case 16: unchanged = true; (void)a.equal_range(key); break;
              case 17: unchanged = true; (void)a.lower_bound(key); break;
              case 18: a = {val, val}; break;
              case 19: unchanged = false; a.reserve(a.capacity() + 5); break;
              case 20: a.clear(); break;
              case 21: extra.emplace(std::initializer_list<T>{val, val}, c); break;
            }
          } catch (const injected&) {
            threw = true;
          }
          long left = g_fuse;
          g_fuse = -1;
          if (!threw && left < 0) bad("swallowed", name + ": an element's exception was swallowed");
          if (threw && unchanged && contents(a) != before) bad("read-only", name + ": a failed read-only operation changed the container");
          if (threw && (op == 6 || op == 7) && contents(b) != before_b) bad("source", name + ": a failed copy changed its source");
          // Every element in a container is alive, and nothing else is.
          others = g_live.size() - base_live;
          std::size_t held = (a.size() + b.size() + (extra ? extra->size() : 0)) * (sizeof(T) / sizeof(E));
          if (others != held) bad("ledger", name + ": " + std::to_string(others) + " live elements but containers hold " + std::to_string(held));
          for (auto& x : a) (void)Ops<T>::s(x);
          for (auto& x : b) (void)Ops<T>::s(x);
          vh::eval(vh::hcomb(vh::hash_str(name + ops[op]), vh::hcomb(n, vh::hcomb(shape, seed))), threw);
          vh::stat(threw ? std::string("throw in ") + ops[op] : "completed without throw");
        }
        if (!g_live.empty()) { bad("leak", name + ": " + std::to_string(g_live.size()) + " elements leaked"); g_live.clear(); }
        if (!g_blocks.empty()) { bad("leak", name + ": memory leaked"); g_blocks.clear(); }
        if (!threw || n > 400) break;
      }
    }
  }
}

// Containers of move-only elements, and of things that own memory.
static void f03_move_only(std::uint64_t seed) {
  Rng rng(seed);
  g_where = "move-only elements";
  vh::mark("move-only elements, seed " + std::to_string(seed));
  {
    Cmp c;
    c.kind = static_cast<int>(rng.below(5));
    arpc::flat_set<MO, Cmp> s(c);
    arpc::flat_multimap<int, MO, Cmp> mm(c);
    arpc::flat_map<int, std::unique_ptr<MO>, Cmp> m(c);
    std::map<int, int, Cmp> model(c);
    std::multiset<int, Cmp> mmodel(c);
    for (int i = 0; i < 60; i++) {
      int k = static_cast<int>(rng.below(20));
      switch (rng.below(6)) {
        case 0: s.insert(MO(k, i)); break;
        case 1: s.emplace(k, i); break;
        case 2: mm.insert({k, MO(k, i)}); mmodel.insert(k); break;
        case 3: if (auto p = m.insert({k, std::make_unique<MO>(k, i)}); p.second) model[k] = i; break;
        case 4: m[k] = std::make_unique<MO>(k, i + 1000); model[k] = i + 1000; break;
        default:
          s.erase(MO(k));
          m.erase(k);
          model.erase(k);
          if (mm.erase(k) != mmodel.erase(k)) bad("move-only", "erase(key) of flat_multimap disagrees");
      }
      if (rng.chance(1, 8)) { auto t = std::move(s); s.clear(); s = std::move(t); }
      if (rng.chance(1, 8)) { auto t = std::move(m); m.clear(); m = std::move(t); }
      if (rng.chance(1, 8)) { auto t = std::move(mm); mm.clear(); mm.swap(t); }
      for (auto& e : s) if (e.gone) bad("move-only", "flat_set holds a moved-from element");
      for (auto& e : mm) if (e.second.gone || (e.second.key != e.first)) bad("move-only", "flat_multimap holds a moved-from or wrong element");
      std::vector<std::pair<int, int>> x, y(model.begin(), model.end());
      for (auto& e : m) x.push_back({e.first, e.second ? e.second->id : -1});
      if (x != y) bad("move-only", "flat_map<int, unique_ptr> differs from the model");
    }
    vh::eval(vh::hcomb(seed, 77));
  }
  if (!g_live.empty()) { bad("leak", "move-only elements leaked"); g_live.clear(); }
}

template <typename K> using AS = arpc::flat_set<K, Cmp, Alloc<K>>;
template <typename K> using AMS = arpc::flat_multiset<K, Cmp, Alloc<K>>;
template <typename K, typename V> using AM = arpc::flat_map<K, V, Cmp, Alloc<std::pair<K, V>>>;
template <typename K, typename V> using AMM = arpc::flat_multimap<K, V, Cmp, Alloc<std::pair<K, V>>>;

static void f03() {
  std::uint64_t s = vh::seed() * 100000;
  for (int i = 0; i < vh::scale(250, 1500); i++) {
    f03_values<AS<E>, false>("flat_set", s + i);
    f03_values<AMS<E>, true>("flat_multiset", s + i);
    f03_values<AM<E, E>, false>("flat_map", s + i);
    f03_values<AMM<E, E>, true>("flat_multimap", s + i);
    if (!g_live.empty()) { bad("leak", std::to_string(g_live.size()) + " elements leaked"); g_live.clear(); }
    if (!g_blocks.empty()) { bad("leak", "memory leaked"); g_blocks.clear(); }
  }
  for (int i = 0; i < vh::scale(2, 10); i++) {
    f03_throws<AS<E>, false>("flat_set", s + i);
    f03_throws<AMS<E>, true>("flat_multiset", s + i);
    f03_throws<AM<E, E>, false>("flat_map", s + i);
    f03_throws<AMM<E, E>, true>("flat_multimap", s + i);
  }
  for (int i = 0; i < vh::scale(200, 1000); i++) f03_move_only(s + i);
  vh::stat("exceptions injected", g_throws);
  vh::stat("comparisons", Cmp::calls);
}

void harness() {
  if (vh::mode() == "F01") f0102<false>();
  else if (vh::mode() == "F02") f0102<true>();
  else f03();
}
