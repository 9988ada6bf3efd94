// S03: graphs of objects reached through pointers, decoded and compared with
// the originals and with the output of a reference encoder. Also drives S04
// (mutated graphs) and S05 (recorded class hashes).
#include <dlfcn.h>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "graph_types.h"
#include "streams.h"

static std::size_t alloc_limit = 1u << 30;
void* operator new(std::size_t n) {
  static auto real = reinterpret_cast<void* (*)(std::size_t)>(dlsym(RTLD_NEXT, "_Znwm"));
  if (n > alloc_limit) throw std::bad_alloc();
  return real(n);
}
using vh::Rng;

ARPC_REGISTER(Base);
ARPC_REGISTER(Object);
ARPC_REGISTER(A);
ARPC_REGISTER(B);
ARPC_REGISTER(C);
ARPC_REGISTER(M);
ARPC_REGISTER(N);
ARPC_REGISTER(L);
template <typename X> constexpr int kind_of = K_NONE;
template <> constexpr int kind_of<Base> = K_BASE;
template <> constexpr int kind_of<Object> = K_OBJ;
template <> constexpr int kind_of<A> = K_A;
template <> constexpr int kind_of<B> = K_B;
template <> constexpr int kind_of<C> = K_C;
template <> constexpr int kind_of<M> = K_M;
template <> constexpr int kind_of<N> = K_N;
template <> constexpr int kind_of<L> = K_L;

template <typename X>
static void add(std::map<int, class_info>& r) {
  r[kind_of<X>] = {std::string(arpc::portable_class_name<X>()), arpc::traits::type_hash_v<X>, [] { return std::make_shared<X>(); }};
}
static const std::map<int, class_info>& classes() {
  static const auto* r = [] {
    auto* r = new std::map<int, class_info>;
    add<Base>(*r); add<Object>(*r); add<A>(*r); add<B>(*r); add<C>(*r); add<M>(*r); add<N>(*r); add<L>(*r);
    add_ts(*r);
    return r;
  }();
  return *r;
}

// ------------------------------------------------------------------ the roots
struct Root {
  int kind = 0;
  std::shared_ptr<Base> b;
  std::shared_ptr<arpc::dynamic_base_class> db;
  std::shared_ptr<A> a;
  std::shared_ptr<C> c;
  std::shared_ptr<M> m;
  std::shared_ptr<N> n;
  std::shared_ptr<Node> nd;
  std::weak_ptr<Base> wb;
  std::weak_ptr<M> wm;
  std::weak_ptr<Node> wn;
  std::unique_ptr<Base> ub;
  std::unique_ptr<Node> un;
  std::unique_ptr<M> um;
  std::vector<std::shared_ptr<Base>> vb;
  std::map<std::int32_t, std::shared_ptr<Node>> mn;
  std::optional<std::shared_ptr<M>> om;
  std::shared_ptr<std::int64_t> num;
  std::uint32_t plain = 0;
};
constexpr int n_roots = 18;
template <typename F, typename R>
static void with_root(R& r, F&& f) {
  switch (r.kind) {
    case 0: f(r.b); break;
    case 1: f(r.db); break;
    case 2: f(r.a); break;
    case 3: f(r.c); break;
    case 4: f(r.m); break;
    case 5: f(r.n); break;
    case 6: f(r.nd); break;
    case 7: f(r.wb); break;
    case 8: f(r.wm); break;
    case 9: f(r.wn); break;
    case 10: f(r.ub); break;
    case 11: f(r.un); break;
    case 12: f(r.um); break;
    case 13: f(r.vb); break;
    case 14: f(r.mn); break;
    case 15: f(r.om); break;
    case 16: f(r.num); break;
    default: f(r.plain); break;
  }
}

// ------------------------------------------------------ reference encoder (walks)
// Calls v.pointer(...)/v.scalar(...) for everything in an object, in wire order.
template <typename V> void walk_base(V& v, Base& b) { auto& o = static_cast<Object&>(b); v.scalar(o.serial); v.seq(o.out); v.weak(o.weak); v.unique(o.own); v.shared(o.node); }
template <typename V> void walk(V& v, Node& o) {
  v.scalar(o.serial); v.seq(o.next); v.weak(o.back); v.unique(o.own); v.shared(o.base); v.shared(o.m); v.shared(o.num); v.shared(o.text);
}
template <typename V> void walk(V& v, Base& o) {
  int k = kind_at(at(&o));
  switch (k) {
    case K_A: { auto& x = static_cast<A&>(o); walk_base(v, o); v.scalar(x.a); v.text(x.s); v.seq(x.as); break; }
    case K_C: { auto& x = static_cast<C&>(o); walk_base(v, o); v.scalar(x.a); v.text(x.s); v.seq(x.as); v.assoc(x.m); break; }
    case K_B: { auto& x = static_cast<B&>(o); walk_base(v, o); v.scalar(x.d); v.shared(x.pr.first); v.weak(x.pr.second); break; }
    case K_L: { auto& x = static_cast<L&>(o); walk_base(v, o); v.scalar(x.d); v.shared(x.pr.first); v.weak(x.pr.second); v.seq(x.extra); break; }
    case K_M: case K_N: {
      auto& x = static_cast<M&>(o);
      v.scalar(x.p); v.shared(x.pn); walk_base(v, o); v.shared(x.sm); v.weak(x.wb);
      if (k == K_N) { v.scalar(static_cast<N&>(o).x); v.unique(static_cast<N&>(o).um); }
      break;
    }
    case K_OBJ: walk_base(v, o); break;
    default: v.scalar(o.serial);
  }
}
template <typename V> void walk(V& v, std::int64_t& o) { v.scalar(o); }
template <typename V> void walk(V& v, std::string& o) { v.text(o); }

template <typename X> const void* canon(X* p) {
  if constexpr (std::is_base_of_v<arpc::dynamic_base_class, X>) return at(p);
  else return p;
}
struct Spot { char what; std::size_t pos, len; int kind; };
struct RefEnc {
  bool big;
  std::string out;
  std::map<const void*, std::size_t> ids;
  std::map<std::string, std::size_t> cls;
  std::vector<Spot> spots;
  std::vector<std::uint64_t> serials;
  std::map<int, std::uint64_t> kinds;
  std::uint64_t objects = 0, cross = 0;
  void varint(std::size_t n, char what) {
    std::size_t p = out.size();
    while (n >= 128) { out.push_back(static_cast<char>(n % 128 + 128)); n /= 128; }
    out.push_back(static_cast<char>(n));
    spots.push_back({what, p, out.size() - p, 0});
  }
  template <typename X> void scalar(X x) {
    char b[sizeof x];
    std::memcpy(b, &x, sizeof x);
    if (big) std::reverse(b, b + sizeof x);
    out.append(b, sizeof x);
  }
  void text(const std::string& s) { varint(s.size(), 's'); out += s; }
  template <typename S> void seq(S& s) { varint(s.size(), 's'); for (auto& x : s) shared(x); }
  template <typename S> void assoc(S& s) {
    varint(s.size(), 's');
    for (auto& x : s) { if constexpr (std::is_same_v<decltype(x.first), const std::string>) text(x.first); else scalar(x.first); shared(x.second); }
  }
  void body(std::int64_t& o) { walk(*this, o); }
  void body(std::string& o) { walk(*this, o); }
  void body(Node& o) { objects++; serials.push_back(o.serial); walk(*this, o); }
  void body(arpc::dynamic_base_class& d) {
    auto& o = static_cast<Base&>(d);
    objects++;
    serials.push_back(o.serial);
    int k = kind_at(at(&o));
    kinds[k]++;
    auto& c = classes().at(k);
    auto it = cls.find(c.name);
    if (it != cls.end()) varint(it->second, 'c');
    else {
      std::size_t id = cls.size(), p = out.size();
      cls[c.name] = id;
      varint(id, 'c');
      text(c.name);
      scalar(c.hash);
      spots.push_back({'h', out.size() - 4, 4, k});
      spots.push_back({'r', p, out.size() - p, k});
    }
    walk(*this, o);
  }
  template <typename X> void shared(const std::shared_ptr<X>& p) {
    if (!p) { varint(0, 'i'); return; }
    auto it = ids.find(canon(p.get()));
    if (it != ids.end()) {
      varint(it->second, 'i');
      cross += static_cast<const void*>(p.get()) != it->first;
    } else {
      std::size_t id = ids.size() + 1;
      ids[canon(p.get())] = id;
      varint(id, 'i');
      body(*p);
    }
  }
  template <typename X> void weak(const std::weak_ptr<X>& p) { shared(p.lock()); }
  template <typename X> void unique(const std::unique_ptr<X>& p) { scalar<std::uint8_t>(p ? 1 : 0); if (p) body(*p); }
  template <typename X> void operator()(const std::shared_ptr<X>& p) { shared(p); }
  template <typename X> void operator()(const std::weak_ptr<X>& p) { weak(p); }
  template <typename X> void operator()(const std::unique_ptr<X>& p) { unique(p); }
  void operator()(std::vector<std::shared_ptr<Base>>& s) { seq(s); }
  void operator()(std::map<std::int32_t, std::shared_ptr<Node>>& s) { assoc(s); }
  void operator()(std::optional<std::shared_ptr<M>>& o) { scalar<std::uint8_t>(o ? 1 : 0); if (o) shared(*o); }
  void operator()(std::uint32_t x) { scalar(x); }
};

// ------------------------------------------------------------------ comparison
// Flattens a graph into events with canonical numbers for objects, so that two
// graphs are isomorphic exactly when the lists are equal. Weak pointers are
// followed like strong ones while the decoder keeps the objects.
struct Flat {
  bool follow_weak = true;
  std::vector<std::string> ev;
  std::unordered_map<const void*, std::size_t> num;
  std::vector<std::shared_ptr<void>> keep;
  std::vector<Base*> bases;
  std::vector<Node*> nodes;
  std::vector<std::string> errors;
  std::uint64_t weak_alive = 0, weak_dead = 0;
  template <typename X> void scalar(const X& x) {
    std::string b(sizeof x, 0);
    std::memcpy(&b[0], &x, sizeof x);
    ev.push_back("=" + b);
  }
  void text(const std::string& s) { ev.push_back("'" + s); }
  template <typename S> void seq(S& s) { ev.push_back("#" + std::to_string(s.size())); for (auto& x : s) shared(x); }
  template <typename S> void assoc(S& s) {
    ev.push_back("#" + std::to_string(s.size()));
    for (auto& x : s) { if constexpr (std::is_same_v<decltype(x.first), const std::string>) text(x.first); else scalar(x.first); shared(x.second); }
  }
  bool fits(const arpc::dynamic_base_class* p, int want) {
    int k = kind_at(at(p));
    if (k == K_NONE) errors.push_back("pointer to something that is no live object");
    else if (want != K_NONE && !is_a(k, want)) errors.push_back("object of class " + classes().at(k).name + " in a pointer to class " + classes().at(want).name);
    else return true;
    return false;
  }
  bool fits(const Node* p, int) {
    if (!led().nodes.count(p)) { errors.push_back("pointer to a node that is not alive"); return false; }
    return true;
  }
  bool fits(const void*, int) { return true; }
  void body(Node* p) { nodes.push_back(p); walk(*this, *p); }
  void body(std::int64_t* p) { walk(*this, *p); }
  void body(std::string* p) { walk(*this, *p); }
  void body(arpc::dynamic_base_class* d) {
    auto* p = static_cast<Base*>(d);
    bases.push_back(p);
    int k = kind_at(at(p));
    ev.push_back("class " + classes().at(k).name + " " + std::string(p->portable_class_name()));
    walk(*this, *p);
  }
  template <typename X> void object(X* p) {
    if (!p) { ev.push_back("null"); return; }
    if constexpr (std::is_base_of_v<arpc::dynamic_base_class, X>) { if (!fits(static_cast<arpc::dynamic_base_class*>(p), kind_of<X>)) { ev.push_back("bad"); return; } }
    else if (!fits(p, 0)) { ev.push_back("bad"); return; }
    auto [it, fresh] = num.emplace(canon(p), num.size());
    ev.push_back("@" + std::to_string(it->second));
    if (fresh) body(p);
  }
  template <typename X> void shared(const std::shared_ptr<X>& p) { if (p) keep.push_back(p); object(p.get()); }
  template <typename X> void weak(const std::weak_ptr<X>& p) {
    auto s = p.lock();
    if (follow_weak) { shared(s); return; }
    s ? weak_alive++ : weak_dead++;
    pending.push_back({s ? canon(s.get()) : nullptr, num.size()});
  }
  struct Pending { const void* p; std::size_t when; };
  std::vector<Pending> pending;
  template <typename X> void unique(const std::unique_ptr<X>& p) { object(p.get()); }
  template <typename X> void operator()(const std::shared_ptr<X>& p) { shared(p); }
  template <typename X> void operator()(const std::weak_ptr<X>& p) { weak(p); }
  template <typename X> void operator()(const std::unique_ptr<X>& p) { unique(p); }
  void operator()(std::vector<std::shared_ptr<Base>>& s) { seq(s); }
  void operator()(std::map<std::int32_t, std::shared_ptr<Node>>& s) { assoc(s); }
  void operator()(std::optional<std::shared_ptr<M>>& o) { ev.push_back(o ? "some" : "none"); if (o) shared(*o); }
  void operator()(std::uint32_t x) { scalar(x); }
};

// ------------------------------------------------------------------ generation
struct World {
  Rng& g;
  std::vector<std::shared_ptr<Base>> pool;
  std::vector<std::shared_ptr<Node>> nodes;
  std::vector<std::shared_ptr<std::int64_t>> nums;
  std::vector<std::shared_ptr<std::string>> texts;
  bool acyclic;
  int density;
  explicit World(Rng& g) : g(g), acyclic(g.chance(1, 3)), density(1 + g.below(3)) {}

  // Rank of objects, for acyclic graphs: edges only go to later ones.
  std::size_t now = 0;
  template <typename X, typename P> std::shared_ptr<X> pick_from(P& pool, std::size_t lo) {
    if (lo >= pool.size() || g.chance(1, 4)) return nullptr;
    for (int tries = 0; tries < 8; tries++) {
      auto& p = pool[lo + g.below(pool.size() - lo)];
      if constexpr (kind_of<X> != K_NONE) { if (!is_a(kind_at(at(p.get())), kind_of<X>)) continue; return std::static_pointer_cast<X>(p); }
      else return p;
    }
    return nullptr;
  }
  template <typename X> std::shared_ptr<X> pick() {
    if constexpr (std::is_same_v<X, Node>) return pick_from<X>(nodes, acyclic ? now_node : 0);
    else return pick_from<X>(pool, acyclic ? now : 0);
  }
  std::size_t now_node = 0;
  std::shared_ptr<std::int64_t> num() { return g.chance(1, 2) || nums.empty() ? nullptr : nums[g.below(nums.size())]; }
  std::shared_ptr<std::string> text() { return g.chance(1, 2) || texts.empty() ? nullptr : texts[g.below(texts.size())]; }
  int any_kind() { return g.chance(1, 6) ? K_T + static_cast<int>(g.below(n_t)) : K_BASE + static_cast<int>(g.below(K_T - K_BASE)); }
  void fill_base(Base& b, int depth) {
    b.serial = g.next();
    if (!is_a(kind_at(at(&b)), K_OBJ)) return;
    auto& o = static_cast<Object&>(b);
    for (std::size_t i = g.below(density + 1); i > 0; i--) o.out.push_back(pick<Base>());
    if (g.chance(1, 2)) o.weak = pick<Base>();
    if (depth < 3 && g.chance(1, 4)) {
      auto p = owned(any_kind(), depth + 1);
      o.own = std::move(p);
    }
    if (g.chance(1, 3)) o.node = pick<Node>();
    switch (kind_at(at(&o))) {
      case K_C: for (std::size_t i = g.below(3); i > 0; i--) { std::string k = g.bytes(g.below(4)); static_cast<C&>(o).m[k] = pick<Base>(); } [[fallthrough]];
      case K_A: {
        auto& x = static_cast<A&>(o);
        x.a = static_cast<std::int32_t>(g.next());
        x.s = g.bytes(g.below(10));
        for (std::size_t i = g.below(2); i > 0; i--) x.as.push_back(pick<A>());
        break;
      }
      case K_L: for (std::size_t i = g.below(3); i > 0; i--) static_cast<L&>(o).extra.push_back(pick<Base>()); [[fallthrough]];
      case K_B: {
        auto& x = static_cast<B&>(o);
        x.d = static_cast<double>(static_cast<std::int64_t>(g.next())) / 1024;
        x.pr = {pick<B>(), pick<A>()};
        break;
      }
      case K_N: {
        auto& x = static_cast<N&>(o);
        x.x = static_cast<std::uint8_t>(g.next());
        if (depth < 3 && g.chance(1, 3)) {
          auto p = owned(g.chance(1, 2) ? K_N : K_M, depth + 1);
          x.um.reset(static_cast<M*>(p.release()));
        }
        [[fallthrough]];
      }
      case K_M: {
        auto& x = static_cast<M&>(o);
        x.p = static_cast<std::uint16_t>(g.next());
        x.pn = pick<Node>();
        x.sm = pick<M>();
        x.wb = pick<Base>();
        break;
      }
      default: break;
    }
  }
  std::unique_ptr<Base> owned(int k, int depth) {
    std::unique_ptr<Base> p;
    switch (k) {
      case K_A: p.reset(new A); break;
      case K_B: p.reset(new B); break;
      case K_C: p.reset(new C); break;
      case K_M: p.reset(new M); break;
      case K_N: p.reset(new N); break;
      case K_L: p.reset(new L); break;
      case K_BASE: p.reset(new Base); break;
      case K_OBJ: p.reset(new Object); break;
      default: p.reset(new_t(k - K_T));
    }
    fill_base(*p, depth);
    return p;
  }
  void fill_node(Node& o, int depth) {
    o.serial = g.next();
    for (std::size_t i = g.below(density + 1); i > 0; i--) o.next.push_back(pick<Node>());
    if (g.chance(1, 2)) o.back = pick<Node>();
    if (depth < 3 && g.chance(1, 4)) { o.own = std::make_unique<Node>(); fill_node(*o.own, depth + 1); }
    // In acyclic graphs only base objects point to nodes.
    if (!acyclic) { if (g.chance(1, 3)) o.base = pick<Base>(); if (g.chance(1, 3)) o.m = pick<M>(); }
    o.num = num();
    o.text = text();
  }
  void build(std::size_t nb, std::size_t nn, bool all_classes) {
    for (std::size_t i = g.below(4); i > 0; i--) nums.push_back(std::make_shared<std::int64_t>(static_cast<std::int64_t>(g.next())));
    for (std::size_t i = g.below(4); i > 0; i--) texts.push_back(std::make_shared<std::string>(g.bytes(g.below(12))));
    for (std::size_t i = 0; i < nb; i++) pool.push_back(classes().at(all_classes ? K_T + static_cast<int>(i % n_t) : any_kind()).make());
    for (std::size_t i = 0; i < nn; i++) nodes.push_back(std::make_shared<Node>());
    now_node = 0;
    for (std::size_t i = 0; i < nb; i++) { now = i + 1; fill_base(*pool[i], 0); }
    for (std::size_t i = 0; i < nn; i++) { now_node = i + 1; fill_node(*nodes[i], 0); }
    now = now_node = 0;
    if (acyclic) now_node = 0;
  }
  void root(Root& r, int kind) {
    r.kind = kind;
    now = now_node = 0;
    bool old = acyclic;
    acyclic = false;
    switch (kind) {
      case 0: r.b = pick<Base>(); break;
      case 1: r.db = pick<Base>(); break;
      case 2: r.a = pick<A>(); break;
      case 3: r.c = pick<C>(); break;
      case 4: r.m = pick<M>(); break;
      case 5: r.n = pick<N>(); break;
      case 6: r.nd = pick<Node>(); break;
      case 7: r.wb = pick<Base>(); break;
      case 8: r.wm = pick<M>(); break;
      case 9: r.wn = pick<Node>(); break;
      case 10: if (g.chance(3, 4)) r.ub = owned(any_kind(), 1); break;
      case 11: if (g.chance(3, 4)) { r.un = std::make_unique<Node>(); fill_node(*r.un, 1); } break;
      case 12: if (g.chance(3, 4)) r.um.reset(static_cast<M*>(owned(g.chance(1, 2) ? K_M : K_N, 1).release())); break;
      case 13: for (std::size_t i = g.below(pool.size() + 2); i > 0; i--) r.vb.push_back(pick<Base>()); break;
      case 14: for (std::size_t i = g.below(6); i > 0; i--) { auto k = static_cast<std::int32_t>(g.below(20)); r.mn[k] = pick<Node>(); } break;
      case 15: if (g.chance(3, 4)) r.om = pick<M>(); break;
      case 16: r.num = num(); break;
      default: r.plain = static_cast<std::uint32_t>(g.next());
    }
    acyclic = old;
  }
  static void cut(Base& b) {
    if (!is_a(kind_at(at(&b)), K_OBJ)) return;
    auto& o = static_cast<Object&>(b);
    o.out.clear(); o.weak.reset(); o.node.reset(); o.own.reset();
    switch (kind_at(at(&o))) {
      case K_C: static_cast<C&>(o).m.clear(); [[fallthrough]];
      case K_A: static_cast<A&>(o).as.clear(); break;
      case K_L: static_cast<L&>(o).extra.clear(); [[fallthrough]];
      case K_B: static_cast<B&>(o).pr = {}; break;
      case K_N: static_cast<N&>(o).um.reset(); [[fallthrough]];
      case K_M: static_cast<M&>(o).sm.reset(); static_cast<M&>(o).wb.reset(); static_cast<M&>(o).pn.reset(); break;
      default: break;
    }
  }
  static void cut(Node& o) { o.next.clear(); o.back.reset(); o.own.reset(); o.base.reset(); o.m.reset(); o.num.reset(); o.text.reset(); }
  ~World() {
    for (auto& p : pool) cut(*p);
    for (auto& p : nodes) cut(*p);
  }
};
// Breaks the cycles of everything reached, moving owned parts out first.
static void release(Flat& f) {
  std::vector<std::shared_ptr<void>> keep = std::move(f.keep);
  std::unordered_set<void*> owned;
  std::vector<std::unique_ptr<Base>> ob;
  std::vector<std::unique_ptr<Node>> on;
  std::vector<std::unique_ptr<M>> om;
  for (auto* p : f.bases) {
    if (is_a(kind_at(at(p)), K_OBJ) && static_cast<Object*>(p)->own) ob.push_back(std::move(static_cast<Object*>(p)->own));
    if (kind_at(at(p)) == K_N && static_cast<N*>(p)->um) om.push_back(std::move(static_cast<N*>(p)->um));
  }
  for (auto* p : f.nodes) if (p->own) on.push_back(std::move(p->own));
  for (auto* p : f.bases) World::cut(*p);
  for (auto* p : f.nodes) World::cut(*p);
}

using LE = arpc::little_endian_binary_encoder;
using BE = arpc::big_endian_binary_encoder;
using LD = arpc::little_endian_binary_decoder;
using BD = arpc::big_endian_binary_decoder;

struct Case {
  Rng g;
  World w;
  bool big;
  int ok, ik;
  std::vector<Root> roots;
  std::string wire;
  std::vector<std::size_t> ends;
  RefEnc ref;
  std::string info;
  Case(std::uint64_t seed, bool small) : g(seed), w(g), big(g.chance(1, 2)), ok(g.below(4)), ik(g.below(4)) {
    int shape = g.below(12);
    bool all = shape == 0 && !small;
    std::size_t nb = all ? 140 + g.below(20) : shape < 3 ? g.below(3) : g.below(small ? 8 : 40);
    std::size_t nn = shape == 1 ? 0 : all ? 30 + g.below(100) : g.below(small ? 6 : 30);
    if (all) w.density = 1;
    w.build(nb, nn, all);
    std::size_t n = 1 + g.below(small ? 4 : 10);
    roots.resize(n);
    if (all) { roots[0].kind = 13; roots[0].vb = w.pool; }
    for (std::size_t i = all; i < n; i++) w.root(roots[i], i == 0 && g.chance(1, 2) ? 13 : static_cast<int>(g.below(n_roots)));
    info = "seed " + std::to_string(seed) + " " + (big ? "be" : "le") + " objects " + std::to_string(nb) + "+" + std::to_string(nn) + (w.acyclic ? " acyclic" : "") + " roots";
    for (auto& r : roots) info += " " + std::to_string(r.kind);
    ref.big = big;
    vh::mark("graph-encode " + info);
    // Half of the time the graph is owned by nothing but its roots.
    std::vector<std::weak_ptr<Base>> weak_pool(w.pool.begin(), w.pool.end());
    std::vector<std::weak_ptr<Node>> weak_nodes(w.nodes.begin(), w.nodes.end());
    if (g.chance(1, 2)) { info += " roots-only"; w.pool.clear(); w.nodes.clear(); w.nums.clear(); w.texts.clear(); }
    vs::Out out(wire, ok);
    auto run = [&](auto& e) {
      for (auto& r : roots) {
        with_root(r, [&](auto& x) { e(x); });
        with_root(r, [&](auto& x) { ref(x); });
        ends.push_back(ref.out.size());
      }
    };
    if (big) { BE e(*out); run(e); } else { LE e(*out); run(e); }
    out.finish();
    if (w.pool.empty()) for (auto& p : weak_pool) if (auto q = p.lock()) w.pool.push_back(q);
    if (w.nodes.empty()) for (auto& p : weak_nodes) if (auto q = p.lock()) w.nodes.push_back(q);
  }
};

static void flatten(Flat& f, std::vector<Root>& roots) { for (auto& r : roots) with_root(r, [&](auto& x) { f(x); }); }

static void s03(std::uint64_t seed) {
  auto live_before = led().dyn.size() + led().nodes.size();
  {
    Case c(seed, false);
    if (c.wire != c.ref.out) {
      std::size_t i = 0;
      while (i < c.wire.size() && i < c.ref.out.size() && c.wire[i] == c.ref.out[i]) i++;
      vh::violation(key("wire"), c.info + " differs from the reference at byte " + std::to_string(i) + " of " + std::to_string(c.ref.out.size()) + ", wire has " + std::to_string(c.wire.size()));
    }
    if (vh::mode() == "S02") { vh::eval(vh::hash_str(c.wire), c.wire.size() > 1); return; }
    // Each object is stored once.
    std::unordered_map<std::uint64_t, int> count;
    for (auto s : c.ref.serials) count[s] = 0;
    for (std::size_t i = 0; i + 8 <= c.wire.size(); i++) {
      char b[8];
      std::memcpy(b, c.wire.data() + i, 8);
      if (c.big) std::reverse(b, b + 8);
      std::uint64_t s;
      std::memcpy(&s, b, 8);
      auto it = count.find(s);
      if (it != count.end()) it->second++;
    }
    for (auto& p : count)
      if (p.second != 1) { vh::violation(key("stored-once"), c.info + " an object is stored " + std::to_string(p.second) + " times"); break; }
    Flat orig;
    flatten(orig, c.roots);
    if (!orig.errors.empty()) vh::violation("harness:original-broken", orig.errors[0]);
    // Decode into targets that hold something already, some of the time.
    auto live_orig = led().dyn.size() + led().nodes.size();
    std::vector<Root> got(c.roots.size());
    Rng g2(seed ^ 77);
    auto junk = std::make_unique<World>(g2);
    if (g2.chance(1, 2)) {
      junk->build(3, 3, false);
      for (std::size_t i = 0; i < got.size(); i++) junk->root(got[i], c.roots[i].kind);
    }
    for (std::size_t i = 0; i < got.size(); i++) got[i].kind = c.roots[i].kind;
    auto live_junk = led().dyn.size() + led().nodes.size();
    auto created = led().created;
    auto created_kind = led().created_kind;
    vh::mark("graph-decode " + c.info);
    vs::In in(c.wire, c.ik);
    bool threw = false;
    auto check = [&](auto& d) {
      try {
        for (std::size_t i = 0; i < got.size(); i++) {
          with_root(got[i], [&](auto& x) { d(x); });
          VH_CHECK(in.pos() == c.ends[i], key("consumed"), c.info + " root " + std::to_string(i) + " position " + std::to_string(in.pos()) + " want " + std::to_string(c.ends[i]));
        }
      } catch (const std::exception& e) {
        threw = true;
        vh::violation(key("refused"), c.info + ": " + e.what());
        return;
      }
      VH_CHECK(led().created - created == c.ref.objects, key("created-once"), c.info + " created " + std::to_string(led().created - created) + " want " + std::to_string(c.ref.objects));
      for (auto& p : c.ref.kinds)
        VH_CHECK(led().created_kind[p.first] - created_kind[p.first] == p.second, key("created-class"), c.info + " class " + classes().at(p.first).name);
      Flat f;
      flatten(f, got);
      for (auto& e : f.errors) vh::violation(key("wrong-object"), c.info + ": " + e);
      if (f.ev != orig.ev) {
        std::size_t i = 0;
        while (i < f.ev.size() && i < orig.ev.size() && f.ev[i] == orig.ev[i]) i++;
        vh::violation(key("shape"), c.info + " differs at event " + std::to_string(i) + ": got " + (i < f.ev.size() ? f.ev[i] : "end") + " want " + (i < orig.ev.size() ? orig.ev[i] : "end"));
      }
    };
    vh::mark("graph-decode " + c.info);
    Flat after;   // What the strong pointers own once the decoder is gone.
    Flat all;     // Keeps what is only reached through weak pointers for releasing.
    if (c.big) { BD d(*in); check(d); if (!c.w.acyclic && !threw) flatten(all, got); }
    else { LD d(*in); check(d); if (!c.w.acyclic && !threw) flatten(all, got); }
    if (!threw) {
      all.ev.clear();
      if (c.w.acyclic) {
        // A weak pointer to something that is owned still refers to it; others are gone.
        Flat f, o;
        f.follow_weak = o.follow_weak = false;
        flatten(f, got);
        flatten(o, c.roots);
        std::uint64_t weak_ok = 0;
        if (f.ev != o.ev) vh::violation(key("shape-owned"), c.info);
        else if (f.pending.size() != o.pending.size()) vh::violation(key("weak-count"), c.info);
        else
          for (std::size_t i = 0; i < f.pending.size(); i++) {
            auto it = o.num.find(o.pending[i].p);
            bool owned = o.pending[i].p && it != o.num.end();
            if (!owned) { VH_CHECK(!f.pending[i].p, key("weak-kept"), c.info + " a weak pointer refers to an object nobody owns"); continue; }
            weak_ok++;
            auto jt = f.num.find(f.pending[i].p);
            VH_CHECK(jt != f.num.end() && jt->second == it->second, key("weak-target"), c.info + " weak pointer " + std::to_string(i));
          }
        vh::stat("weak pointers to owned objects", weak_ok);
        f.keep.clear();
        o.keep.clear();
      } else {
        release(all);
      }
      vh::mark("graph-release " + c.info);
      got.clear();
      junk.reset();
      VH_CHECK(led().dyn.size() + led().nodes.size() == live_orig, key("released"), c.info + " objects left: " + std::to_string(led().dyn.size() + led().nodes.size() - live_orig));
    }
    (void)live_junk;
    vh::stat("objects", c.ref.objects);
    vh::stat("references through another base", c.ref.cross);
    vh::stat("bytes", c.wire.size());
    vh::stat(c.w.acyclic ? "acyclic graphs" : "general graphs");
    vh::stat_max("most objects", c.ref.ids.size());
    vh::stat_max("most classes", c.ref.cls.size());
    vh::eval(vh::hash_str(c.wire, c.roots.size()), c.ref.objects >= 2);
    if (seed % 97 == 0) vh::sample(c.info + ": " + std::to_string(c.ref.objects) + " objects, " + std::to_string(c.wire.size()) + " bytes");
    orig.keep.clear();
    c.roots.clear();
  }
  VH_CHECK(led().dyn.size() + led().nodes.size() == live_before, "harness:originals-left", std::to_string(seed));
}

// Objects encoded from temporaries: each one is an object of its own.
static void temporaries(std::uint64_t seed) {
  Rng g(seed);
  std::string wire;
  std::vector<std::int64_t> want;
  std::vector<bool> fresh;
  vh::mark("temporaries seed " + std::to_string(seed));
  arpc::string_output_stream out(wire);
  LE e(out);
  std::shared_ptr<std::int64_t> last;
  for (int i = 0; i < 30; i++) {
    bool again = last && g.chance(1, 3);
    if (!again) last = std::make_shared<std::int64_t>(static_cast<std::int64_t>(g.next()));
    want.push_back(*last);
    fresh.push_back(!again);
    e(last);
    if (g.chance(1, 2)) last.reset();
  }
  arpc::string_input_stream in(wire);
  LD d(in);
  std::vector<std::shared_ptr<std::int64_t>> got(30);
  for (int i = 0; i < 30; i++) {
    d(got[i]);
    VH_CHECK(got[i] && *got[i] == want[i], key("temporary"), "object " + std::to_string(i));
    if (i) VH_CHECK((got[i] != got[i - 1]) == fresh[i], key("temporary-identity"), "object " + std::to_string(i));
  }
  vh::eval(vh::hash_str(wire));
}

// A decoder that goes on after an error, over bytes changed at the places that matter.
static void s04(std::uint64_t seed) {
  Case c(seed, true);
  Rng& g = c.g;
  auto live = led().dyn.size() + led().nodes.size();
  for (int round = 0; round < 12; round++) {
    std::string bytes = c.wire;
    int n = 1 + g.below(3);
    std::string did;
    for (int i = 0; i < n && !bytes.empty(); i++) {
      int how = c.ref.spots.empty() ? 5 : g.below(9);
      if (how <= 3) {  // Another id or size.
        auto& s = c.ref.spots[g.below(c.ref.spots.size())];
        if (s.what == 'r' || s.what == 'h' || s.pos >= bytes.size()) continue;
        bytes[s.pos] = static_cast<char>(g.chance(3, 4) ? g.below(8) : g.below(256));
        did += std::string(" ") + s.what + std::to_string(s.pos);
      } else if (how == 4) {  // Another class, with its right hash.
        std::vector<const Spot*> r;
        for (auto& s : c.ref.spots) if (s.what == 'r') r.push_back(&s);
        if (r.empty()) continue;
        auto& s = *r[g.below(r.size())];
        auto it = classes().begin();
        std::advance(it, g.below(8));
        std::size_t idlen = c.ref.out.substr(s.pos, s.len).size() - 4 - 1 - classes().at(s.kind).name.size();
        if (s.pos + s.len > bytes.size()) continue;
        std::string rec;
        rec.push_back(static_cast<char>(it->second.name.size()));
        rec += it->second.name;
        char b[4];
        std::memcpy(b, &it->second.hash, 4);
        if (c.big) std::reverse(b, b + 4);
        rec.append(b, 4);
        bytes.replace(s.pos + idlen, s.len - idlen, rec);
        did += " class@" + std::to_string(s.pos) + "=" + it->second.name;
      } else if (how == 5) { std::size_t p = g.below(bytes.size()); bytes[p] = static_cast<char>(g.next()); did += " byte@" + std::to_string(p); }
      else if (how == 6) { std::size_t p = g.below(bytes.size()); bytes.resize(p); did += " cut@" + std::to_string(p); }
      else if (how == 7) { std::size_t p = g.below(bytes.size()), l = g.below(6); bytes.erase(p, l); did += " erase@" + std::to_string(p); }
      else { std::size_t p = g.below(bytes.size()); bytes.insert(p, g.bytes(1 + g.below(4))); did += " insert@" + std::to_string(p); }
    }
    std::vector<Root> got(c.roots.size());
    for (std::size_t i = 0; i < got.size(); i++) got[i].kind = c.roots[i].kind;
    std::string info = c.info + " round " + std::to_string(round) + did + " bytes " + vh::hex(bytes, 300);
    vh::mark("graph-mutated " + info);
    vs::In in(bytes, c.ik);
    std::uint64_t errors = 0;
    Flat f;
    auto run = [&](auto& d) {
      for (auto& r : got) {
        try {
          with_root(r, [&](auto& x) { d(x); });
        } catch (const std::exception&) {
          errors++;
          if (g.chance(1, 2)) break;
        }
      }
      alloc_limit = 1u << 30;
      flatten(f, got);
    };
    alloc_limit = 1u << 19;
    if (c.big) { BD d(*in); run(d); } else { LD d(*in); run(d); }
    for (auto& e : f.errors) vh::violation(key("wrong-object"), info + ": " + e);
    vh::stat(errors ? "graphs refused" : "graphs accepted");
    release(f);
    got.clear();
    // An object that was only kept by its own cycle, seen through no root, stays: count them out.
    std::vector<Base*> left;
    std::vector<Node*> left_nodes;
    if (led().dyn.size() + led().nodes.size() != live) {
      std::unordered_set<const void*> mine;
      for (auto& p : c.w.pool) mine.insert(at(p.get()));
      vh::stat("mutated graphs with unreachable cycles");
      break;  // The leak is the cycle's: run no more in this world.
    }
    vh::eval(vh::hash_str(bytes, c.roots.size()), !bytes.empty());
  }
  c.roots.clear();
}

static void s05(std::uint64_t seed) {
  Case c(seed, true);
  Rng& g = c.g;
  std::vector<const Spot*> hs;
  for (auto& s : c.ref.spots) if (s.what == 'h') hs.push_back(&s);
  for (int round = 0; round < 6 && !hs.empty(); round++) {
    auto& s = *hs[g.below(hs.size())];
    std::string bytes = c.wire;
    int how = g.below(3);
    if (how == 0) bytes[s.pos + g.below(4)] ^= static_cast<char>(1 << g.below(8));
    else if (how == 1) for (int i = 0; i < 4; i++) bytes[s.pos + i] = static_cast<char>(g.next());
    else {
      auto it = classes().begin();
      std::advance(it, g.below(9));
      char b[4];
      std::memcpy(b, &it->second.hash, 4);
      if (c.big) std::reverse(b, b + 4);
      std::memcpy(&bytes[s.pos], b, 4);
    }
    if (bytes == c.wire) continue;
    std::string info = c.info + " class " + classes().at(s.kind).name + " hash at " + std::to_string(s.pos);
    vh::mark("graph-hash " + info);
    vs::In in(bytes, c.ik);
    std::vector<Root> got(c.roots.size());
    for (std::size_t i = 0; i < got.size(); i++) got[i].kind = c.roots[i].kind;
    auto before = led().created_kind;
    bool mismatch = false;
    Flat f;
    auto run = [&](auto& d) {
      try {
        for (auto& r : got) with_root(r, [&](auto& x) { d(x); });
      } catch (const arpc::errors::data_mismatch&) {
        mismatch = true;
      }
      flatten(f, got);
    };
    if (c.big) { BD d(*in); run(d); } else { LD d(*in); run(d); }
    VH_CHECK(mismatch, "S05:class-hash-ignored", info);
    VH_CHECK(led().created_kind[s.kind] == before[s.kind], "S05:class-decoded-first", info);
    release(f);
    got.clear();
    vh::stat("class hashes changed");
    vh::eval(vh::hash_str(bytes));
  }
  c.roots.clear();
}

void harness() {
  std::uint64_t n = (vh::mode() == "S03" ? 2500 : 1500) * vh::scale(1, 8);
  for (std::uint64_t i = 0; i < n; i++) {
    std::uint64_t seed = vh::seed() * 1000003 + i;
    if (vh::mode() == "S04") s04(seed);
    else if (vh::mode() == "S05") s05(seed);
    else { s03(seed); if (vh::mode() == "S03") temporaries(seed); }
  }
}
