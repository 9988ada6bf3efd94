// S07: results and errors, held, moved and sent elsewhere, against a model;
// error classes and dynamic classes against their registries.
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/registry.h"
#include "arpc/result_holder.h"
#include "arpc/serializable.h"
#include "common.h"
#include "streams.h"
using vh::Rng;

ERROR_CLASS(out_of_paper);
ERROR_CLASS(io_error_subtle);  // A registered name that has another one as its prefix.
ERROR_CLASS(Cancelled);        // Differs from another one in case only.
namespace app {
struct strange : std::exception {
  const char* what() const noexcept override { return "strange"; }
};
struct shape : arpc::dynamic<shape> { int n = 0; ARPC_FIELDS(n); };
struct square : arpc::dynamic<square, shape> { int side = 0; ARPC_FIELDS(side); };
struct other : arpc::dynamic<other> { int x = 0; ARPC_FIELDS(x); };
}  // namespace app
ARPC_REGISTER(app::shape);
ARPC_REGISTER(app::square);
ARPC_REGISTER_WITH_NAME("a name with spaces", app::other);

struct error_info {
  std::string name;
  std::function<std::exception_ptr(const std::string&)> make;
  std::function<bool(std::exception_ptr)> is;
};
template <typename E>
static error_info ei(const char* name) {
  return {name, [](const std::string& m) { return std::make_exception_ptr(E(m)); },
          [](std::exception_ptr p) {
            try { std::rethrow_exception(p); } catch (const E&) { return true; } catch (...) { return false; }
          }};
}
static const std::vector<error_info>& errs() {
  using namespace arpc::errors;
  static const auto* v = new std::vector<error_info>{
#define X(n) ei<n>(#n)
      X(unknown_error), X(cancelled), X(data_mismatch), X(deadline_exceeded), X(eof), X(internal_error), X(invalid_argument), X(invalid_state),
      X(io_error), X(not_implemented), X(not_found), X(out_of_range), X(shutting_down), X(unavailable), X(try_again),
      ei<out_of_paper>("out_of_paper"), ei<io_error_subtle>("io_error_subtle"), ei<Cancelled>("Cancelled")};
  return *v;
}
static std::string message_of(std::exception_ptr p) {
  try { std::rethrow_exception(p); } catch (const std::exception& e) { return e.what(); } catch (...) { return "?"; }
}
// The class of an error as a C++ program sees it: its name, and the class that catches it.
static std::string class_of(std::exception_ptr p) {
  static std::size_t turn = 0;
  std::string r;
  try { std::rethrow_exception(p); }
  catch (const arpc::errors::base_error& e) { r = e.portable_error_class_name(); }
  catch (const std::exception&) { return "foreign"; }
  catch (...) { return "nothing known"; }
  auto& other = errs()[turn++ % errs().size()];
  for (auto& e : errs()) {
    if (e.name == r) { if (!e.is(p)) r += " not caught as one"; break; }
    if (&e == &errs().back()) r += " not in the table";
  }
  if (other.name != r && other.is(p)) r += " caught as " + other.name;
  return r;
}
static std::string text(Rng& g) {
  static const char* some[] = {"", "x", "Empty result holder accessed", "a message", "\xc3\xa9\xe2\x82\xac", "%s %d %n", "line\nline", " "};
  if (g.chance(1, 2)) return some[g.below(8)];
  std::string s = g.bytes(g.below(g.chance(1, 8) ? 3000 : 60));
  for (auto& c : s) if (!c) c = 'z';
  return s;
}

// ------------------------------------------------------------------ value types
template <typename T> struct val;
template <> struct val<int> { static int make(Rng& g) { return static_cast<int>(g.next()); } static std::string str(const int& v) { return std::to_string(v); } };
template <> struct val<std::string> { static std::string make(Rng& g) { return g.bytes(g.below(40)); } static std::string str(const std::string& v) { return vh::hex(v, 100); } };
template <> struct val<std::vector<std::string>> {
  static std::vector<std::string> make(Rng& g) { std::vector<std::string> r; for (std::size_t i = g.below(5); i > 0; i--) r.push_back(g.bytes(g.below(20))); return r; }
  static std::string str(const std::vector<std::string>& v) { std::string r = "["; for (auto& x : v) r += vh::hex(x, 40) + ","; return r + "]"; }
};
template <> struct val<std::unique_ptr<std::int64_t>> {
  static std::unique_ptr<std::int64_t> make(Rng& g) { return g.chance(1, 5) ? nullptr : std::make_unique<std::int64_t>(static_cast<std::int64_t>(g.next())); }
  static std::string str(const std::unique_ptr<std::int64_t>& v) { return v ? std::to_string(*v) : "null"; }
};
template <> struct val<bool> { static bool make(Rng& g) { return g.chance(1, 2); } static std::string str(const bool& v) { return v ? "true" : "false"; } };

// Counts live ones, to see values that were lost or kept for too long.
struct tracked : arpc::serializable<tracked> {
  static long live;
  std::int32_t v = 0;
  tracked() { live++; }
  explicit tracked(int v) : v(v) { live++; }
  tracked(const tracked& o) : v(o.v) { live++; }
  tracked(tracked&& o) noexcept : v(o.v) { o.v = -1; live++; }
  tracked& operator=(const tracked&) = default;
  tracked& operator=(tracked&& o) noexcept { v = o.v; if (this != &o) o.v = -1; return *this; }
  ~tracked() { live--; }
  ARPC_FIELDS(v);
};
long tracked::live = 0;
template <> struct val<tracked> { static tracked make(Rng& g) { return tracked(static_cast<int>(g.below(1000000))); } static std::string str(const tracked& v) { return std::to_string(v.v); } };

// What a holder should be: 'e'mpty, 'v'alue or e'x'ception.
struct model {
  char is = 'e';
  std::string a, b;
  std::string str() const { return is == 'e' ? "empty" : is == 'v' ? "value " + a : "error " + a + ": " + b; }
};

template <typename T, typename H>
static model look(H&& h, int how) {
  model m;
  try {
    if constexpr (std::is_void_v<T>) {
      switch (how % 6) {
        case 0: *h; break;
        case 1: h.value(); break;
        case 2: *std::as_const(h); break;
        case 3: std::as_const(h).value(); break;
        case 4: *std::move(h); break;
        default: std::move(h).value(); break;
      }
      m = {'v', "void", ""};
    } else {
      std::string s;
      switch (how % 8) {
        case 0: s = val<T>::str(*h); break;
        case 1: s = val<T>::str(h.value()); break;
        case 2: s = val<T>::str(*std::as_const(h)); break;
        case 3: s = val<T>::str(std::as_const(h).value()); break;
        case 4: s = val<T>::str(*h.operator->()); break;
        case 5: s = val<T>::str(*std::as_const(h).operator->()); break;
        case 6: { const T& x = *std::move(h); s = val<T>::str(x); break; }    // Does not move out of it.
        default: { const T& x = std::move(h).value(); s = val<T>::str(x); break; }
      }
      m = {'v', s, ""};
    }
  } catch (...) {
    auto p = std::current_exception();
    m = {'x', class_of(p), message_of(p)};
  }
  return m;
}
template <typename T, typename H>
static void check(H& h, const model& want, const std::string& info, Rng& g) {
  VH_CHECK(h.has_value() == (want.is != 'e') && static_cast<bool>(h) == (want.is != 'e'), "S07:has-value", info + " want " + want.str());
  model w = want;
  if (want.is == 'e') w = {'x', "invalid_state", "*"};
  model m = look<T>(h, static_cast<int>(g.below(24)));
  if (w.b == "*") m.b = "*";
  VH_CHECK(m.is == w.is && m.a == w.a && m.b == w.b, "S07:outcome", info + " got " + m.str() + " want " + want.str());
}

// What the other side sees of an error.
static model sent(const model& m, bool foreign) {
  if (m.is != 'x') return m;
  return foreign ? model{'x', "unknown_error", m.b} : m;
}

template <typename T>
static std::string encode(const arpc::result_holder<T>& h, bool big) {
  std::string s;
  arpc::string_output_stream out(s);
  if (big) { arpc::big_endian_binary_encoder e(out); e(h); } else { arpc::little_endian_binary_encoder e(out); e(h); }
  return s;
}
template <typename T>
static std::size_t decode(arpc::result_holder<T>& h, const std::string& s, bool big) {
  arpc::string_input_stream in(s);
  if (big) { arpc::big_endian_binary_decoder d(in); d(h); } else { arpc::little_endian_binary_decoder d(in); d(h); }
  return in.pos();
}

template <typename T>
static void put_value(arpc::result_holder<T>& h, model& m, Rng& g) {
  if constexpr (std::is_void_v<T>) { h.set_value(); m = {'v', "void", ""}; }
  else { auto v = val<T>::make(g); m = {'v', val<T>::str(v), ""}; h.set_value(std::move(v)); }
}
static std::exception_ptr any_error(model& m, bool& foreign, Rng& g) {
  foreign = g.chance(1, 4);
  if (!foreign) {
    auto& e = errs()[g.below(errs().size())];
    m = {'x', e.name, text(g)};
    return e.make(m.b);
  }
  std::string t = text(g);
  m = {'x', "foreign", t};
  switch (g.below(7)) {
    case 0: return std::make_exception_ptr(std::runtime_error(t));
    case 1: return std::make_exception_ptr(std::out_of_range(t));
    case 2: m.b = std::bad_alloc().what(); return std::make_exception_ptr(std::bad_alloc());
    case 3: { std::system_error e(2, std::generic_category(), t); m.b = e.what(); return std::make_exception_ptr(e); }
    case 4: m.b = "strange"; return std::make_exception_ptr(app::strange());
    case 5: m = {'x', "nothing known", ""}; return std::make_exception_ptr(42);
    default: return std::make_exception_ptr(std::logic_error(t));
  }
}

template <typename T>
static void session(std::uint64_t seed, const char* name) {
  Rng g(seed);
  using H = arpc::result_holder<T>;
  long live0 = tracked::live;
  {
    std::vector<std::unique_ptr<H>> h;
    model m[3];
    bool foreign[3] = {};
    for (int i = 0; i < 3; i++) h.push_back(std::make_unique<H>());
    std::string hist;
    for (int step = 0; step < 40; step++) {
      int i = g.below(3), j = g.below(3), op = g.below(12);
      std::string info = std::string(name) + " seed " + std::to_string(seed) + " step " + std::to_string(step) + " op " + std::to_string(op) + " " + std::to_string(i) + std::to_string(j);
      vh::mark("results " + info);
      auto fix_unknown = [&](model x) { if (x.is == 'x' && x.a == "nothing known") x.b = "?"; return x; };
      switch (op) {
        case 0: case 1: put_value<T>(*h[i], m[i], g); foreign[i] = false; break;
        case 2: case 3: { auto p = any_error(m[i], foreign[i], g); h[i]->set_exception(p); break; }
        case 4: h[i]->reset(); m[i] = {}; foreign[i] = false; break;
        case 5: h[i]->swap(*h[j]); if (i != j) { std::swap(m[i], m[j]); std::swap(foreign[i], foreign[j]); } break;
        case 6: { using std::swap; swap(*h[i], *h[j]); if (i != j) { std::swap(m[i], m[j]); std::swap(foreign[i], foreign[j]); } break; }
        case 7:  // Move assignment; the source is good for anything new afterwards.
          if (i == j) break;
          *h[i] = std::move(*h[j]);
          m[i] = m[j]; foreign[i] = foreign[j];
          h[j]->reset(); m[j] = {}; foreign[j] = false;
          break;
        case 8: {
          if (i == j) break;
          auto n = std::make_unique<H>(std::move(*h[j]));
          h[i] = std::move(n);
          m[i] = m[j]; foreign[i] = foreign[j];
          put_value<T>(*h[j], m[j], g); foreign[j] = false;
          break;
        }
        case 9: {  // Constructed from its outcome.
          if (g.chance(1, 2)) { auto p = any_error(m[i], foreign[i], g); h[i] = std::make_unique<H>(p); }
          else if constexpr (!std::is_void_v<T>) { auto v = val<T>::make(g); m[i] = {'v', val<T>::str(v), ""}; h[i] = std::make_unique<H>(std::move(v)); foreign[i] = false; }
          break;
        }
        case 10: {  // Sent to another place, over whatever that held.
          bool big = g.chance(1, 2);
          std::string s = encode(*h[i], big);
          check<T>(*h[i], fix_unknown(m[i]), info + " after sending", g);
          model want = sent(m[i], foreign[i]);
          std::size_t pos = 0;
          try { pos = decode(*h[j], s, big); } catch (const std::exception& e) { vh::violation("S07:refused", info + ": " + e.what()); return; }
          VH_CHECK(pos == s.size(), "S07:consumed", info);
          m[j] = want; foreign[j] = false;
          vh::stat(want.is == 'e' ? "empty sent" : want.is == 'v' ? "values sent" : "errors sent");
          if (want.is == 'x') vh::stat("sent " + want.a);
          vh::eval(vh::hash_str(s, vh::hash_str(name)), want.is != 'e');
          break;
        }
        default:
          if constexpr (std::is_void_v<T>) {
            try { std::as_const(*h[i]).value_or(); VH_CHECK(m[i].is != 'x', "S07:value-or", info); }
            catch (...) { VH_CHECK(m[i].is == 'x', "S07:value-or", info); }
          } else if constexpr (std::is_copy_constructible_v<T>) {
            T d = val<T>::make(g);
            std::string ds = val<T>::str(d);
            try {
              T r = std::as_const(*h[i]).value_or(d);
              VH_CHECK(m[i].is != 'x' && val<T>::str(r) == (m[i].is == 'v' ? m[i].a : ds), "S07:value-or", info);
            } catch (...) { VH_CHECK(m[i].is == 'x', "S07:value-or", info); }
          }
      }
      for (int k = 0; k < 3; k++) check<T>(*h[k], fix_unknown(m[k]), info + " holder " + std::to_string(k), g);
      if constexpr (std::is_same_v<T, tracked>) {
        long want = 0;
        for (int k = 0; k < 3; k++) want += m[k].is == 'v';
        VH_CHECK(tracked::live - live0 == want, "S07:values-alive", info + " alive " + std::to_string(tracked::live - live0) + " want " + std::to_string(want));
      }
    }
    vh::stat("operations", 40);
  }
  VH_CHECK(tracked::live == live0, "S07:values-left", name);
}

// Errors of classes that this place does not know, written by hand.
static void unknown_classes(std::uint64_t seed) {
  Rng g(seed);
  static const char* names[] = {"no_such_error", "", "io_erro", "io_errorr", "IO_ERROR", "unknown", "cancelled ", " cancelled", "app::out_of_paper", "base_error", "std::exception", "\x01"};
  std::string name = g.chance(2, 3) ? names[g.below(12)] : g.bytes(g.below(30)), msg = text(g);
  if (g.chance(1, 6)) name = errs()[g.below(errs().size())].name + std::string(1, '\0') + "x";
  bool known = false;
  for (auto& e : errs()) known |= e.name == name;
  std::string s;
  arpc::string_output_stream out(s);
  arpc::little_endian_binary_encoder e(out);
  e(std::optional<int>());
  e(true);
  e(name);
  e(msg);
  arpc::result_holder<int> h(7);
  vh::mark("unknown-class " + vh::hex(name, 60));
  if (decode(h, s, false) != s.size()) vh::violation("S07:consumed", name);
  check<int>(h, {'x', known ? name : "unknown_error", msg}, "error of class '" + name + "' from elsewhere", g);
  vh::eval(vh::hash_str(s));
  vh::stat("unknown error classes received");
}

static void registries() {
  Rng g(vh::seed());
  vh::mark("registries");
  for (auto& e : errs()) {
    auto p = e.make("m");
    VH_CHECK(class_of(p) == e.name, "S07:class-name", e.name + " is " + class_of(p));
    auto [type, what] = arpc::error_factory::analyze_exception(p);
    VH_CHECK(type == e.name && what == "m", "S07:analyze", e.name);
    try { arpc::error_factory::get().throw_error(e.name, "back"); vh::violation("S07:throw-error", e.name); }
    catch (...) { auto q = std::current_exception(); VH_CHECK(class_of(q) == e.name && message_of(q) == "back", "S07:throw-error", e.name); }
    bool refused = false;
    try { arpc::error_factory::get().register_error_class<arpc::errors::eof>(e.name); } catch (const arpc::errors::invalid_state&) { refused = true; }
    VH_CHECK(refused, "S07:registered-twice", e.name);
    try { arpc::error_factory::get().throw_error(e.name, "again"); }
    catch (...) { VH_CHECK(class_of(std::current_exception()) == e.name, "S07:registration-replaced", e.name); }
    vh::eval(vh::hash_str(e.name));
  }
  // Dynamic classes.
  auto& f = arpc::registry::dynamic_object_factory::get();
  struct { std::string name; std::unique_ptr<arpc::dynamic_base_class> o; std::uint32_t hash; } cs[] = {
      {"app::shape", std::make_unique<app::shape>(), arpc::traits::type_hash_v<app::shape>},
      {"app::square", std::make_unique<app::square>(), arpc::traits::type_hash_v<app::square>},
      {"a name with spaces", std::make_unique<app::other>(), arpc::traits::type_hash_v<app::other>}};
  VH_CHECK(arpc::portable_class_name<app::square>() == "app::square" && arpc::portable_class_name<app::other>() == "a name with spaces", "S07:dynamic-name", "static");
  using none = arpc::mpt::pack<>;
  for (auto& c : cs) {
    VH_CHECK(c.o->portable_class_name() == c.name, "S07:dynamic-name", c.name);
    auto info = f[c.name];
    std::unique_ptr<arpc::dynamic_base_class> made(info.factory_function());
    VH_CHECK(made->portable_class_name() == c.name, "S07:dynamic-made", c.name);
    VH_CHECK(info.type_hash == c.hash, "S07:dynamic-hash", c.name);
    bool refused = false;
    try { f.register_class<app::other, none, none>(c.name); } catch (const arpc::errors::invalid_state&) { refused = true; }
    VH_CHECK(refused, "S07:dynamic-twice", c.name);
    std::unique_ptr<arpc::dynamic_base_class> again(f[c.name].factory_function());
    VH_CHECK(again->portable_class_name() == c.name, "S07:dynamic-replaced", c.name);
    // The refused registration has not made `other` a part of another hierarchy.
    VH_CHECK(!arpc::registry::dynamic_subclass_registry<app::other>::get().is_subclass("app::square"), "S07:hierarchy", c.name);
    vh::eval(vh::hash_str(c.name, 5));
  }
  VH_CHECK(arpc::registry::dynamic_subclass_registry<app::shape>::get().is_subclass("app::square"), "S07:hierarchy", "square is a shape");
  VH_CHECK(!arpc::registry::dynamic_subclass_registry<app::square>::get().is_subclass("app::shape"), "S07:hierarchy", "shape is no square");
  VH_CHECK(!arpc::registry::dynamic_subclass_registry<app::shape>::get().is_subclass("a name with spaces"), "S07:hierarchy", "other is no shape");
  for (int i = 0; i < 200; i++) {
    std::string n = g.chance(1, 2) ? std::string("app::shap") + std::string(g.below(4), 'e') : g.bytes(g.below(12));
    if (n == "app::shape") continue;
    bool missing = false;
    try { f[n]; } catch (const arpc::errors::not_found&) { missing = true; }
    VH_CHECK(missing, "S07:dynamic-unknown", vh::hex(n));
    missing = false;
    try { arpc::registry::dynamic_encoder_registry<arpc::little_endian_binary_encoder>::get()[n]; } catch (const arpc::errors::not_found&) { missing = true; }
    VH_CHECK(missing, "S07:encoder-unknown", vh::hex(n));
  }
}

void harness() {
  registries();
  int n = vh::scale(250, 3000);
  for (int i = 0; i < n; i++) {
    std::uint64_t s = vh::seed() * 1000003 + i;
    session<int>(s, "int");
    session<std::string>(s, "string");
    session<void>(s, "void");
    session<bool>(s, "bool");
    session<std::vector<std::string>>(s, "vector");
    session<std::unique_ptr<std::int64_t>>(s, "unique_ptr");
    session<tracked>(s, "tracked");
    for (int k = 0; k < 5; k++) unknown_classes(s * 7 + k);
  }
}
