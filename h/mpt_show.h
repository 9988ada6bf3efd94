// Text forms of types, values and sequences, independent of arpc::mpt's algorithms.
#ifndef VERIF_MPT_SHOW_H_
#define VERIF_MPT_SHOW_H_
#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "arpc/enum.h"
#include "arpc/mpt.h"
#include "arpc/preprocessor.h"
#include "arpc/serializable_base.h"
#include "common.h"

namespace show {
namespace mpt = ::arpc::mpt;
struct Inc;
struct Abs { virtual void f() = 0; };
struct NoCopy { NoCopy(const NoCopy&) = delete; NoCopy() = delete; };
enum class Color : short { red = 1, green = 2, blue = 7 };

template <typename T>
struct TN { static std::string s() { return "?"; } };
#define TYPE_NAME(...) \
  template <>          \
  struct TN<__VA_ARGS__> { static std::string s() { return #__VA_ARGS__; } }
TYPE_NAME(int); TYPE_NAME(unsigned); TYPE_NAME(unsigned char); TYPE_NAME(signed char); TYPE_NAME(short); TYPE_NAME(unsigned short);
TYPE_NAME(long); TYPE_NAME(unsigned long); TYPE_NAME(bool); TYPE_NAME(char); TYPE_NAME(double); TYPE_NAME(std::string);
TYPE_NAME(Inc); TYPE_NAME(Abs); TYPE_NAME(NoCopy); TYPE_NAME(int&); TYPE_NAME(const int); TYPE_NAME(void); TYPE_NAME(int*);
TYPE_NAME(const Inc&); TYPE_NAME(int(int)); TYPE_NAME(int[3]); TYPE_NAME(Color); TYPE_NAME(long long);
template <typename T>
struct TN<mpt::wrap_type<T>> { static std::string s() { return "w<" + TN<T>::s() + ">"; } };
template <typename T>
std::string tn() { return TN<T>::s(); }

inline std::string join(const std::vector<std::string>& v) {
  std::string r = "[";
  for (std::size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i];
  return r + "]";
}
inline std::string one(bool v) { return v ? "b1" : "b0"; }
inline std::string one(char v) { return "c" + std::to_string(static_cast<int>(v)); }
inline std::string one(unsigned char v) { return "uc" + std::to_string(v); }
inline std::string one(signed char v) { return "sc" + std::to_string(v); }
inline std::string one(short v) { return "s" + std::to_string(v); }
inline std::string one(unsigned short v) { return "us" + std::to_string(v); }
inline std::string one(int v) { return "i" + std::to_string(v); }
inline std::string one(unsigned v) { return "u" + std::to_string(v); }
inline std::string one(long v) { return "l" + std::to_string(v); }
inline std::string one(unsigned long v) { return "ul" + std::to_string(v); }
inline std::string one(long long v) { return "ll" + std::to_string(v); }
inline std::string one(double v) { return "d" + std::to_string(v); }
inline std::string one(const std::string& v) { return "\"" + v + "\""; }
inline std::string one(Color c) { return "e" + std::to_string(static_cast<int>(c)); }
inline std::string one(const std::unique_ptr<int>& p) { return p ? "p" + std::to_string(*p) : "null"; }
template <typename T>
std::string one(mpt::wrap_type<T>) { return "w<" + tn<T>() + ">"; }

template <typename... T>
std::string seq(mpt::pack<T...>) { return join({tn<T>()...}); }
template <auto... v>
std::string seq(mpt::value_pack<v...>) { return join({one(v)...}); }
template <typename T, T... v>
std::string seq(mpt::integer_sequence<T, v...>) { return tn<T>() + join({one(v)...}); }
template <typename... T>
std::string seq(const std::tuple<T...>& t) {
  return std::apply([](const auto&... x) { return join({one(x)...}); }, t);
}

inline void check(const char* op, const std::string& got, const std::string& want) {
  VH_CHECK(got == want, std::string("M01:") + op, "got " + got + " want " + want);
  vh::eval(vh::hash_str(want, vh::hash_str(op)), !want.empty());
  vh::stat(std::string("op ") + op);
}
struct one_f {
  template <typename T>
  std::string operator()(const T& x) const { return one(x); }
};
struct one_arg_f {
  template <typename T, typename U>
  std::string operator()(const T& x, const U& y) const { return one(x) + "/" + one(y); }
};
struct fold_f {
  template <typename T>
  std::string operator()(const std::string& a, const T& x) const { return "(" + a + one(x) + ")"; }
  template <typename T, typename U>
  std::string operator()(const std::string& a, const T& x, const U& y) const { return "(" + a + one(x) + one(y) + ")"; }
};
template <typename T>
std::string kind() {
  std::string r;
  if (mpt::is_tuple_v<T>) r += "t";
  if (mpt::is_pack_v<T>) r += "p";
  if (mpt::is_value_pack_v<T>) r += "v";
  if (mpt::is_integer_sequence_v<T>) r += "i";
  return r;
}
template <typename T>
std::string kinds() { return kind<T>() + kind<const T&>() + kind<T&&>() + kind<T&>(); }
// Walks a sequence with for_each in three value categories.
template <typename S>
std::string walk(S s) {
  std::vector<std::string> a, b, c;
  mpt::for_each(s, [&a](auto x) { a.push_back(one(x)); });
  const S cs = s;
  mpt::for_each(cs, [&b](auto x, int y) { b.push_back(one(x) + std::to_string(y)); }, 3);
  mpt::for_each(S{}, [&c](auto x, const std::string& y) { c.push_back(y + one(x)); }, std::string("a long enough string to be on the heap"));
  for (auto& x : b) { if (x.back() != '3') return "arg lost"; x.pop_back(); }
  for (auto& x : c) { if (x.substr(0, 39) != "a long enough string to be on the heap" && x.substr(0, 38) != "a long enough string to be on the heap") return "arg lost " + x; x = x.substr(38); }
  if (a != b || a != c) return join(a) + join(b) + join(c);
  return join(a);
}
}  // namespace show

void add_group(void (*f)());
#endif
