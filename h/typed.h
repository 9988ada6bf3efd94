// Independent description of serializable C++ types: a shape, a value tree, a
// random generator, and reference encoder/decoder over (shape, value tree).
// Nothing here uses arpc's own traits or codecs.
#ifndef VERIF_TYPED_H_
#define VERIF_TYPED_H_
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "common.h"
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"

namespace ty {

enum Kind { SCALAR, SEQ, ARRAY, TUPLE, OPT, SET, MAP };
struct Shape {
  Kind kind = SCALAR;
  unsigned width = 0;     // SCALAR
  bool boolean = false;   // SCALAR
  unsigned fits = 8;      // SCALAR: bytes of it the target keeps (narrow tick counts).
  std::size_t n = 0;      // ARRAY
  bool unique = false;    // SET, MAP
  bool ordered = true;    // SET, MAP: iteration order is determined by the keys.
  std::vector<const Shape*> kids;
  // Least number of bytes a value takes (0 for recursive unknowns).
};
struct Val {
  std::string raw;  // SCALAR: little-endian bytes.
  std::vector<Val> kids;
};

struct G {
  vh::Rng rng;
  int depth = 0;
  std::size_t budget = 3000;
  bool big = false;  // One large container is wanted.
  explicit G(std::uint64_t s) : rng(s) {}
  std::size_t size() {
    if (depth > 5 || budget == 0) return 0;
    std::size_t n;
    if (big && depth <= 1) {
      big = false;
      static const std::size_t sizes[] = {127, 128, 129, 200, 255, 256, 300, 128, 127, 16383, 16384, 16500};
      n = sizes[rng.below(12)];
      return n;
    }
    n = rng.chance(1, 5) ? 0 : rng.chance(1, 6) ? rng.below(20) : rng.below(4);
    if (rng.chance(1, 40) && depth <= 2) n = 120 + rng.below(30);
    n = std::min(n, budget);
    budget -= n;
    return n;
  }
};
struct Deeper {
  G& g;
  explicit Deeper(G& g) : g(g) { g.depth++; }
  ~Deeper() { g.depth--; }
};

template <typename T, typename = void>
struct Tx;
template <typename T>
const Shape* shape() {
  static Shape s;
  static bool done = false;
  if (!done) {
    done = true;
    Tx<T>::fill(s);
  }
  return &s;
}
template <typename T>
Val val(const T& v) { return Tx<T>::val(v); }
template <typename T>
void gen(T& v, G& g) { Tx<T>::gen(v, g); }
template <typename T>
T make(G& g) { T v{}; Tx<T>::gen(v, g); return v; }

// Scalars.
template <typename T>
struct Tx<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static void fill(Shape& s) { s.kind = SCALAR; s.width = sizeof(T); s.boolean = std::is_same_v<T, bool>; }
  static Val val(const T& v) {
    Val r;
    r.raw.assign(reinterpret_cast<const char*>(&v), sizeof(T));  // The host is little-endian.
    return r;
  }
  static void gen(T& v, G& g) {
    if constexpr (std::is_same_v<T, bool>) {
      v = g.rng.chance(1, 2);
    } else {
      std::uint64_t x = g.rng.next();
      switch (g.rng.below(6)) {
        case 0: x = g.rng.below(4); break;
        case 1: x = ~std::uint64_t{0} - g.rng.below(3); break;
        case 2: x = std::uint64_t{1} << g.rng.below(64); break;
        case 3: x = g.rng.below(256) * 0x0101010101010101ULL; break;
        default: break;
      }
      static_assert(sizeof(T) <= 8);
      std::memcpy(static_cast<void*>(&v), &x, sizeof(T));
    }
  }
};

inline void sort_unordered(const Shape* s, Val& v);

template <typename C>
struct TxSeq {
  using E = typename C::value_type;
  static void fill(Shape& s) { s.kind = SEQ; s.kids = {shape<E>()}; }
  static Val val(const C& c) {
    Val r;
    for (const auto& e : c) r.kids.push_back(ty::val<E>(static_cast<const E&>(E_(e))));
    return r;
  }
  template <typename X>
  static decltype(auto) E_(const X& x) {
    if constexpr (std::is_same_v<X, E>) return (x); else return E(x);
  }
  static void gen(C& c, G& g) {
    c.clear();
    std::size_t n = g.size();
    Deeper d(g);
    for (std::size_t i = 0; i < n; i++) c.push_back(ty::make<E>(g));
  }
};
template <typename T> struct Tx<std::vector<T>> : TxSeq<std::vector<T>> {};
template <typename T> struct Tx<std::deque<T>> : TxSeq<std::deque<T>> {};
template <typename T> struct Tx<std::list<T>> : TxSeq<std::list<T>> {};
template <typename T> struct Tx<std::basic_string<T>> : TxSeq<std::basic_string<T>> {};

template <typename T, std::size_t N>
struct Tx<std::array<T, N>> {
  static void fill(Shape& s) { s.kind = ARRAY; s.n = N; s.kids = {shape<T>()}; }
  static Val val(const std::array<T, N>& c) {
    Val r;
    for (const auto& e : c) r.kids.push_back(ty::val(e));
    return r;
  }
  static void gen(std::array<T, N>& c, G& g) { Deeper d(g); for (auto& e : c) ty::gen(e, g); }
};
template <typename T, std::size_t N>
struct Tx<T[N]> {
  static void fill(Shape& s) { s.kind = ARRAY; s.n = N; s.kids = {shape<T>()}; }
  static Val val(const T (&c)[N]) {
    Val r;
    for (const auto& e : c) r.kids.push_back(ty::val<T>(e));
    return r;
  }
  static void gen(T (&c)[N], G& g) { Deeper d(g); for (auto& e : c) ty::gen<T>(e, g); }
};

template <typename C, bool map, bool unique, bool ordered>
struct TxAssoc {
  using V = typename C::value_type;
  static void fill(Shape& s) {
    s.kind = map ? MAP : SET;
    s.unique = unique;
    s.ordered = ordered;
    if constexpr (map) s.kids = {shape<typename C::key_type>(), shape<typename C::mapped_type>()};
    else s.kids = {shape<typename C::key_type>()};
  }
  static Val val(const C& c) {
    Val r;
    for (const auto& e : c) {
      if constexpr (map) {
        Val p;
        p.kids.push_back(ty::val<typename C::key_type>(e.first));
        p.kids.push_back(ty::val<typename C::mapped_type>(e.second));
        r.kids.push_back(std::move(p));
      } else {
        r.kids.push_back(ty::val<typename C::key_type>(e));
      }
    }
    return r;
  }
  static void gen(C& c, G& g) {
    c.clear();
    std::size_t n = std::min<std::size_t>(g.size(), 300);
    Deeper d(g);
    for (std::size_t i = 0; i < n; i++) {
      if constexpr (map) {
        auto k = ty::make<typename C::key_type>(g);
        auto v = ty::make<typename C::mapped_type>(g);
        c.insert(std::pair<typename C::key_type, typename C::mapped_type>(k, std::move(v)));
        if (!unique && g.rng.chance(1, 3)) {
          c.insert(std::pair<typename C::key_type, typename C::mapped_type>(
              k, ty::make<typename C::mapped_type>(g)));
        }
      } else {
        auto k = ty::make<typename C::key_type>(g);
        if (!unique && g.rng.chance(1, 3)) c.insert(k);
        c.insert(std::move(k));
      }
    }
  }
};
template <typename K> struct Tx<std::set<K>> : TxAssoc<std::set<K>, false, true, true> {};
template <typename K> struct Tx<std::multiset<K>> : TxAssoc<std::multiset<K>, false, false, true> {};
template <typename K> struct Tx<std::unordered_set<K>> : TxAssoc<std::unordered_set<K>, false, true, false> {};
template <typename K> struct Tx<std::unordered_multiset<K>> : TxAssoc<std::unordered_multiset<K>, false, false, false> {};
template <typename K> struct Tx<arpc::flat_set<K>> : TxAssoc<arpc::flat_set<K>, false, true, true> {};
template <typename K> struct Tx<arpc::flat_multiset<K>> : TxAssoc<arpc::flat_multiset<K>, false, false, true> {};
template <typename K, typename V> struct Tx<std::map<K, V>> : TxAssoc<std::map<K, V>, true, true, true> {};
template <typename K, typename V> struct Tx<std::multimap<K, V>> : TxAssoc<std::multimap<K, V>, true, false, true> {};
template <typename K, typename V> struct Tx<std::unordered_map<K, V>> : TxAssoc<std::unordered_map<K, V>, true, true, false> {};
template <typename K, typename V> struct Tx<std::unordered_multimap<K, V>> : TxAssoc<std::unordered_multimap<K, V>, true, false, false> {};
template <typename K, typename V> struct Tx<arpc::flat_map<K, V>> : TxAssoc<arpc::flat_map<K, V>, true, true, true> {};
template <typename K, typename V> struct Tx<arpc::flat_multimap<K, V>> : TxAssoc<arpc::flat_multimap<K, V>, true, false, true> {};

template <typename... T>
struct Tx<std::tuple<T...>> {
  static void fill(Shape& s) { s.kind = TUPLE; s.kids = {shape<T>()...}; }
  static Val val(const std::tuple<T...>& t) {
    Val r;
    std::apply([&](const T&... e) { (r.kids.push_back(ty::val<T>(e)), ...); }, t);
    return r;
  }
  static void gen(std::tuple<T...>& t, G& g) {
    Deeper d(g);
    std::apply([&](T&... e) { (ty::gen<T>(e, g), ...); }, t);
  }
};
template <typename U, typename V>
struct Tx<std::pair<U, V>> {
  static void fill(Shape& s) { s.kind = TUPLE; s.kids = {shape<U>(), shape<V>()}; }
  static Val val(const std::pair<U, V>& t) {
    Val r;
    r.kids.push_back(ty::val<U>(t.first));
    r.kids.push_back(ty::val<V>(t.second));
    return r;
  }
  static void gen(std::pair<U, V>& t, G& g) { Deeper d(g); ty::gen(t.first, g); ty::gen(t.second, g); }
};
template <typename T>
struct Tx<std::optional<T>> {
  static void fill(Shape& s) { s.kind = OPT; s.kids = {shape<T>()}; }
  static Val val(const std::optional<T>& t) {
    Val r;
    if (t.has_value()) r.kids.push_back(ty::val<T>(*t));
    return r;
  }
  static void gen(std::optional<T>& t, G& g) {
    t.reset();
    Deeper d(g);
    if (g.rng.chance(2, 3)) t.emplace(ty::make<T>(g));
  }
};
template <typename T>
struct Tx<std::unique_ptr<T>> {
  static void fill(Shape& s) { s.kind = OPT; s.kids = {shape<T>()}; }
  static Val val(const std::unique_ptr<T>& t) {
    Val r;
    if (t) r.kids.push_back(ty::val<T>(*t));
    return r;
  }
  static void gen(std::unique_ptr<T>& t, G& g) {
    t.reset();
    Deeper d(g);
    if (g.depth < 9 && g.rng.chance(2, 3)) {
      t.reset(new T());
      ty::gen<T>(*t, g);
    }
  }
};
template <typename Rep, typename P>
struct Tx<std::chrono::duration<Rep, P>> {
  static void fill(Shape& s) { s.kind = SCALAR; s.width = 8; s.fits = sizeof(Rep); }
  static Val val(const std::chrono::duration<Rep, P>& d) {
    static_assert(std::is_integral_v<Rep>);
    return ty::val<std::int64_t>(static_cast<std::int64_t>(d.count()));
  }
  static void gen(std::chrono::duration<Rep, P>& d, G& g) {
    d = std::chrono::duration<Rep, P>(ty::make<Rep>(g));
  }
};
template <typename C, typename D>
struct Tx<std::chrono::time_point<C, D>> {
  static void fill(Shape& s) { s = *shape<D>(); }
  static Val val(const std::chrono::time_point<C, D>& t) { return ty::val<D>(t.time_since_epoch()); }
  static void gen(std::chrono::time_point<C, D>& t, G& g) { t = std::chrono::time_point<C, D>(ty::make<D>(g)); }
};

// --- Reference codec over (shape, value). -----------------------------------
inline void ref_varint(std::string& o, std::uint64_t n) {
  while (n >= 128) {
    o.push_back(static_cast<char>(0x80 | (n % 128)));
    n /= 128;
  }
  o.push_back(static_cast<char>(n));
}
inline void ref_encode(const Shape* s, const Val& v, bool big, std::string& o) {
  switch (s->kind) {
    case SCALAR:
      if (big) o.append(v.raw.rbegin(), v.raw.rend());
      else o.append(v.raw);
      break;
    case SEQ: case SET:
      ref_varint(o, v.kids.size());
      for (auto& k : v.kids) ref_encode(s->kids[0], k, big, o);
      break;
    case ARRAY:
      for (auto& k : v.kids) ref_encode(s->kids[0], k, big, o);
      break;
    case MAP:
      ref_varint(o, v.kids.size());
      for (auto& k : v.kids) {
        ref_encode(s->kids[0], k.kids[0], big, o);
        ref_encode(s->kids[1], k.kids[1], big, o);
      }
      break;
    case TUPLE:
      for (std::size_t i = 0; i < s->kids.size(); i++) ref_encode(s->kids[i], v.kids[i], big, o);
      break;
    case OPT:
      o.push_back(v.kids.empty() ? 0 : 1);
      if (!v.kids.empty()) ref_encode(s->kids[0], v.kids[0], big, o);
      break;
  }
}
// Canonical text of a value: equal values have equal texts.
inline std::string canon(const Shape* s, const Val& v) {
  std::string o;
  switch (s->kind) {
    case SCALAR: return v.raw;
    case SEQ: case ARRAY:
      o = "[" + std::to_string(v.kids.size()) + ":";
      for (auto& k : v.kids) o += canon(s->kids[0], k);
      return o;
    case TUPLE:
      o = "(";
      for (std::size_t i = 0; i < s->kids.size(); i++) o += canon(s->kids[i], v.kids[i]) + ",";
      return o;
    case OPT: return v.kids.empty() ? "n" : "s" + canon(s->kids[0], v.kids[0]);
    case SET: case MAP: {
      std::vector<std::string> es;
      for (auto& k : v.kids) {
        if (s->kind == SET) {
          es.push_back(canon(s->kids[0], k));
        } else {
          auto key = canon(s->kids[0], k.kids[0]);
          es.push_back(std::to_string(key.size()) + ":" + key + "=" + canon(s->kids[1], k.kids[1]));
        }
      }
      std::sort(es.begin(), es.end());
      o = "{" + std::to_string(es.size()) + ":";
      for (auto& e : es) o += e + ";";
      return o;
    }
  }
  return o;
}

enum RefStatus { RS_OK, RS_FAIL, RS_LENIENT };
// Reference decoder. RS_LENIENT: the input uses an encoding the format leaves
// open (a presence or bool byte other than 0/1, an over-long size), so only
// safety is judged.
struct RefDecoder {
  const std::string& in;
  bool big;
  std::size_t pos = 0;
  std::size_t nodes = 0;
  RefStatus varint(std::uint64_t& n) {
    n = 0;
    unsigned shift = 0;
    for (;;) {
      if (pos >= in.size()) return RS_FAIL;
      unsigned char c = static_cast<unsigned char>(in[pos++]);
      if (shift >= 63 && (c & 0x7f) > 1) return RS_LENIENT;
      if (shift > 63) return RS_LENIENT;
      n |= static_cast<std::uint64_t>(c & 0x7f) << shift;
      shift += 7;
      if (!(c & 0x80)) return RS_OK;
    }
  }
  RefStatus decode(const Shape* s, Val& v) {
    if (++nodes > 2000000) return RS_LENIENT;
    RefStatus st;
    switch (s->kind) {
      case SCALAR: {
        if (in.size() - pos < s->width) return RS_FAIL;
        v.raw = in.substr(pos, s->width);
        pos += s->width;
        if (big) std::reverse(v.raw.begin(), v.raw.end());
        if (s->fits < 8 && s->width == 8) return RS_LENIENT;
        if (s->boolean && static_cast<unsigned char>(v.raw[0]) > 1) return RS_LENIENT;
        return RS_OK;
      }
      case SEQ: case SET: case MAP: {
        std::uint64_t n;
        if ((st = varint(n)) != RS_OK) return st;
        std::map<std::string, bool> seen;
        while (n-- > 0) {
          Val e;
          if (s->kind == MAP) {
            Val a, b;
            if ((st = decode(s->kids[0], a)) != RS_OK) return st;
            if ((st = decode(s->kids[1], b)) != RS_OK) return st;
            e.kids.push_back(std::move(a));
            e.kids.push_back(std::move(b));
          } else if ((st = decode(s->kids[0], e)) != RS_OK) {
            return st;
          }
          if (s->kind != SEQ && s->unique) {
            auto key = s->kind == MAP ? canon(s->kids[0], e.kids[0]) : canon(s->kids[0], e);
            if (!seen.emplace(key, true).second) continue;
          }
          v.kids.push_back(std::move(e));
        }
        return RS_OK;
      }
      case ARRAY:
        v.kids.resize(s->n);
        for (auto& k : v.kids)
          if ((st = decode(s->kids[0], k)) != RS_OK) return st;
        return RS_OK;
      case TUPLE:
        v.kids.resize(s->kids.size());
        for (std::size_t i = 0; i < s->kids.size(); i++)
          if ((st = decode(s->kids[i], v.kids[i])) != RS_OK) return st;
        return RS_OK;
      case OPT: {
        if (pos >= in.size()) return RS_FAIL;
        unsigned char c = static_cast<unsigned char>(in[pos++]);
        if (c > 1) return RS_LENIENT;
        if (c) {
          v.kids.resize(1);
          return decode(s->kids[0], v.kids[0]);
        }
        return RS_OK;
      }
    }
    return RS_LENIENT;
  }
};

// --- Type-erased operations on one type. ------------------------------------
using BE = arpc::big_endian_binary_encoder;
using LE = arpc::little_endian_binary_encoder;
using BD = arpc::big_endian_binary_decoder;
using LD = arpc::little_endian_binary_decoder;
struct Ops {
  const char* name;
  const char* structure;      // Structural description: equal iff structurally identical.
  std::uint32_t ref_hash;     // From the generator's own implementation.
  std::uint32_t hash;
  const Shape* shape;
  void* (*make)();
  void (*destroy)(void*);
  void (*gen)(void*, G&);
  Val (*val)(const void*);
  void (*enc_b)(BE&, const void*);
  void (*enc_l)(LE&, const void*);
  void (*dec_b)(BD&, void*);
  void (*dec_l)(LD&, void*);
  void (*venc_b)(BE&, const void*);
  void (*venc_l)(LE&, const void*);
  void (*vdec_b)(BD&, void*);
  void (*vdec_l)(LD&, void*);
  bool fuzz;  // Suitable for arbitrary bytes (no unbounded loops over empty elements).
};
inline std::vector<Ops>& registry() {
  static auto* v = new std::vector<Ops>;
  return *v;
}
template <typename T>
bool reg(const char* name, const char* structure, std::uint32_t ref_hash, bool fuzz = true) {
  Ops o;
  o.name = name;
  o.structure = structure;
  o.ref_hash = ref_hash;
  o.hash = arpc::traits::type_hash_v<T>;
  o.shape = shape<T>();
  o.make = []() -> void* { return new T(); };
  o.destroy = [](void* p) { delete static_cast<T*>(p); };
  o.gen = [](void* p, G& g) { ty::gen(*static_cast<T*>(p), g); };
  o.val = [](const void* p) { return ty::val(*static_cast<const T*>(p)); };
  o.enc_b = [](BE& e, const void* p) { e(*static_cast<const T*>(p)); };
  o.enc_l = [](LE& e, const void* p) { e(*static_cast<const T*>(p)); };
  o.dec_b = [](BD& d, void* p) { d(*static_cast<T*>(p)); };
  o.dec_l = [](LD& d, void* p) { d(*static_cast<T*>(p)); };
  o.venc_b = [](BE& e, const void* p) { e(*static_cast<const T*>(p), arpc::verify_structure{}); };
  o.venc_l = [](LE& e, const void* p) { e(*static_cast<const T*>(p), arpc::verify_structure{}); };
  o.vdec_b = [](BD& d, void* p) { d(*static_cast<T*>(p), arpc::verify_structure{}); };
  o.vdec_l = [](LD& d, void* p) { d(*static_cast<T*>(p), arpc::verify_structure{}); };
  o.fuzz = fuzz;
  registry().push_back(o);
  return true;
}
struct Obj {
  const Ops* o;
  void* p;
  explicit Obj(const Ops& ops) : o(&ops), p(ops.make()) {}
  Obj(const Obj&) = delete;
  Obj(Obj&& x) : o(x.o), p(std::exchange(x.p, nullptr)) {}
  ~Obj() { if (p) o->destroy(p); }
  Val val() const { return o->val(p); }
  std::string canon() const { return ty::canon(o->shape, val()); }
};

}  // namespace ty
#endif
