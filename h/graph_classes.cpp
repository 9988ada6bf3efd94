// Enough dynamic classes for ids of more than one byte.
#define VH_NO_MAIN
#include "graph_types.h"
#define R1(X) ARPC_REGISTER(T<X>)
#define R8(X) R1(X); R1(X + 1); R1(X + 2); R1(X + 3); R1(X + 4); R1(X + 5); R1(X + 6); R1(X + 7)
R8(0); R8(8); R8(16); R8(24); R8(32); R8(40); R8(48); R8(56); R8(64); R8(72); R8(80); R8(88); R8(96); R8(104); R8(112); R8(120); R8(128);


template <int... i>
static void add_all(std::map<int, class_info>& r, std::integer_sequence<int, i...>) {
  ((r[K_T + i] = {std::string(arpc::portable_class_name<T<i>>()), arpc::traits::type_hash_v<T<i>>, [] { return std::make_shared<T<i>>(); }}), ...);
}
void add_ts(std::map<int, class_info>& r) { add_all(r, std::make_integer_sequence<int, n_t>()); }
template <int... i>
static Base* make(int k, std::integer_sequence<int, i...>) {
  Base* r = nullptr;
  ((k == i ? (r = new T<i>(), 0) : 0), ...);
  return r;
}
Base* new_t(int k) { return make(k, std::make_integer_sequence<int, n_t>()); }
