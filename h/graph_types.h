// Classes for graph_main.cpp; all the T<i> are registered by graph_classes.cpp.
#ifndef VERIF_GRAPH_TYPES_H_
#define VERIF_GRAPH_TYPES_H_
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "common.h"
inline std::string key(const char* k) { return vh::mode() + ":" + k; }
// ------------------------------------------------------------------ the classes
enum Kind { K_NONE, K_BASE, K_OBJ, K_A, K_B, K_C, K_M, K_N, K_L, K_T };  // K_T + i: T<i>.
inline Kind parent(int k) {
  switch (k) {
    case K_BASE: return K_NONE;
    case K_C: return K_A;
    case K_N: return K_M;
    case K_L: return K_B;
    case K_A: case K_B: case K_M: return K_OBJ;
    default: return K_BASE;
  }
}
inline bool is_a(int k, int p) {
  for (; k != K_NONE; k = parent(k)) if (k == p) return true;
  return false;
}
struct Ledger {
  std::unordered_map<const void*, int> dyn;  // Address of the dynamic base -> kind.
  std::unordered_set<const void*> nodes;
  std::uint64_t created = 0;
  std::map<int, std::uint64_t> created_kind;
};
inline Ledger& led() { static auto* l = new Ledger; return *l; }
inline const void* at(const arpc::dynamic_base_class* p) { return p; }
inline int kind_at(const void* p) {
  auto it = led().dyn.find(p);
  return it == led().dyn.end() ? static_cast<int>(K_NONE) : it->second;
}
inline void is_now(const arpc::dynamic_base_class* p, int k) {
  auto& now = led().dyn[at(p)];
  if (now) led().created_kind[now]--;
  now = k;
  led().created_kind[k]++;
}

struct Node;
struct M;
struct Base : arpc::dynamic<Base> {
  std::uint64_t serial = 0;
  Base() {
    if (!led().dyn.emplace(at(this), 0).second) vh::violation(key("two-objects-at-one-place"), "");
    led().created++;
    is_now(this, K_BASE);
  }
  Base(const Base&) = delete;
  ~Base() override { led().dyn.erase(at(this)); }
  ARPC_FIELDS(serial);
};
struct Object : arpc::dynamic<Object, Base> {
  std::vector<std::shared_ptr<Base>> out;
  std::weak_ptr<Base> weak;
  std::unique_ptr<Base> own;
  std::shared_ptr<Node> node;
  Object() { is_now(this, K_OBJ); }
  ARPC_FIELDS(out, weak, own, node);
};

struct Node : arpc::serializable<Node> {
  std::uint64_t serial = 0;
  std::vector<std::shared_ptr<Node>> next;
  std::weak_ptr<Node> back;
  std::unique_ptr<Node> own;
  std::shared_ptr<Base> base;
  std::shared_ptr<M> m;
  std::shared_ptr<std::int64_t> num;
  std::shared_ptr<std::string> text;
  Node() { led().created++; led().nodes.insert(this); }
  Node(const Node&) = delete;
  ~Node() { led().nodes.erase(this); }
  ARPC_FIELDS(serial, next, back, own, base, m, num, text);
};
struct A : arpc::dynamic<A, Object> {
  std::int32_t a = 0;
  std::string s;
  std::vector<std::shared_ptr<A>> as;
  A() { is_now(this, K_A); }
  ARPC_FIELDS(a, s, as);
};
struct B : arpc::dynamic<B, Object> {
  double d = 0;
  std::pair<std::shared_ptr<B>, std::weak_ptr<A>> pr;
  B() { is_now(this, K_B); }
  ARPC_FIELDS(d, pr);
};
struct C : arpc::dynamic<C, A> {
  std::map<std::string, std::shared_ptr<Base>> m;
  C() { is_now(this, K_C); }
  ARPC_FIELDS(m);
};
// Gets the vtable pointer at offset 0, so that the dynamic base of M is elsewhere.
struct Plain : arpc::serializable<Plain> {
  std::uint16_t p = 0;
  std::shared_ptr<Node> pn;
  virtual ~Plain() {}
  ARPC_FIELDS(p, pn);
};
struct M : arpc::dynamic<M, Plain, Object> {
  std::shared_ptr<M> sm;
  std::weak_ptr<Base> wb;
  M() { is_now(this, K_M); }
  ARPC_FIELDS(sm, wb);
};
struct N : arpc::dynamic<N, M> {
  std::uint8_t x = 0;
  std::unique_ptr<M> um;
  N() { is_now(this, K_N); }
  ARPC_FIELDS(x, um);
};
struct L : arpc::dynamic<L, B> {
  std::vector<std::shared_ptr<Base>> extra;
  L() { is_now(this, K_L); }
  ARPC_CUSTOM_SERIALIZATION_VERSION(3);
  template <typename S>
  void save(S& s) const { s(extra); }
  template <typename S>
  void load(S& s) { s(extra); }
};
template <int i>
struct T : arpc::dynamic<T<i>, Base> {
  ARPC_OWN_TYPE(T);
  T() { is_now(this, K_T + i); }
};
constexpr int n_t = 136;
struct class_info { std::string name; std::uint32_t hash; std::function<std::shared_ptr<Base>()> make; };
void add_ts(std::map<int, class_info>& r);
Base* new_t(int k);
#endif
