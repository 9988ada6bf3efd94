// Sequences with run-time elements: tuples, pairs and aggregates, in every value category.
#ifndef VERIF_MPT_TUPLE_H_
#define VERIF_MPT_TUPLE_H_
#include "mpt_show.h"

namespace show {
inline int cells[64];
inline std::string scells[64];
// An element that knows whether it was moved from and how often it was copied.
struct Tok {
  int v = 0;
  bool moved = false;
  static inline int copies = 0;
  Tok() = default;
  explicit Tok(int x) : v(x) {}
  Tok(const Tok& o) : v(o.v), moved(o.moved) { copies++; }
  Tok(Tok&& o) noexcept : v(o.v), moved(o.moved) { o.moved = true; }
  Tok& operator=(const Tok& o) { v = o.v; moved = o.moved; copies++; return *this; }
  Tok& operator=(Tok&& o) noexcept { v = o.v; moved = o.moved; o.moved = true; return *this; }
};
inline std::string one(const Tok& t) { return (t.moved ? "MOVED" : "k") + std::to_string(t.v); }

template <typename T>
struct Make;
template <> struct Make<int> { static int get(vh::Rng& r) { return static_cast<int>(r.below(1000000)); } };
template <> struct Make<short> { static short get(vh::Rng& r) { return static_cast<short>(r.next()); } };
template <> struct Make<bool> { static bool get(vh::Rng& r) { return r.chance(1, 2); } };
template <> struct Make<double> { static double get(vh::Rng& r) { return static_cast<double>(r.below(100000)) / 8; } };
template <> struct Make<std::string> { static std::string get(vh::Rng& r) { std::string s; for (auto n = r.below(40); n; n--) s += static_cast<char>('a' + r.below(26)); return s; } };
template <> struct Make<std::unique_ptr<int>> { static std::unique_ptr<int> get(vh::Rng& r) { return std::make_unique<int>(static_cast<int>(r.below(1000))); } };
template <> struct Make<Tok> { static Tok get(vh::Rng& r) { return Tok(static_cast<int>(r.below(1000))); } };
template <> struct Make<int&> { static int& get(vh::Rng& r) { int& c = cells[r.below(64)]; return c; } };
template <> struct Make<const std::string&> { static const std::string& get(vh::Rng& r) { return scells[r.below(64)]; } };
template <> struct Make<const int> { static int get(vh::Rng& r) { return static_cast<int>(r.below(1000)); } };

template <typename T>
std::string cat_of() {
  return std::string(std::is_const_v<std::remove_reference_t<T>> ? "const" : "") +
         (std::is_lvalue_reference_v<T> ? "&" : std::is_rvalue_reference_v<T> ? "&&" : "");
}
template <typename T>
const void* addr(const T& t) { return static_cast<const void*>(&t); }
inline std::string ptr(const void* p) { char b[32]; std::snprintf(b, sizeof b, "%p", p); return b; }

// What element i of a sequence of value category Seq (T&, const T&, T) is handed out as.
template <std::size_t I, typename Tup, typename Ref>
std::string want_cat() {
  using E = std::tuple_element_t<I, Tup>;
  if constexpr (std::is_reference_v<E>) return cat_of<E>();
  else if constexpr (std::is_lvalue_reference_v<Ref>) return cat_of<std::conditional_t<std::is_const_v<std::remove_reference_t<Ref>>, const E&, E&>>();
  else return cat_of<E&&>();
}
struct seen { std::string cat; const void* p; std::string text; };
inline std::string str(const std::vector<seen>& v, bool with_ptr) {
  std::vector<std::string> r;
  for (auto& s : v) r.push_back(s.cat + s.text + (with_ptr ? "@" + ptr(s.p) : ""));
  return join(r);
}
template <typename Ref, typename Tup, std::size_t... I>
std::vector<seen> model_of(Tup& t, std::index_sequence<I...>) {
  return {seen{want_cat<I, Tup, Ref>(), addr(std::get<I>(t)), one(std::get<I>(t))}...};
}
struct see {
  std::vector<seen>* out;
  template <typename T, typename... A>
  void operator()(T&& x, A&&...) const { out->push_back({cat_of<T&&>(), addr(x), one(x)}); }
};
struct mark_f {
  template <typename T>
  std::string operator()(T&& x, int& n) const { n++; return cat_of<T&&>() + one(x); }
};
inline std::string mark_model(const std::vector<seen>& m) {
  std::vector<std::string> r;
  for (auto& s : m) r.push_back("\"" + s.cat + s.text + "\"");
  return join(r);
}
inline std::string fold_model(const std::vector<seen>& m, const std::string& init) {
  std::string r = init;
  for (auto& s : m) r = "(" + r + s.text + ")";
  return r;
}

template <typename Tup, std::size_t... I>
Tup make(vh::Rng& r, std::index_sequence<I...>) { return Tup{Make<std::tuple_element_t<I, Tup>>::get(r)...}; }

template <typename Tup, std::size_t B, std::size_t E, std::size_t... S, std::size_t... I>
void tuple_ops(vh::Rng& r, std::index_sequence<I...> all, mpt::index_sequence<S...> pick) {
  for (auto& c : cells) c = static_cast<int>(r.below(1000));
  for (auto& c : scells) c = Make<std::string>::get(r);
  auto cells_before = std::vector<int>(cells, cells + 64);
  auto scells_before = std::vector<std::string>(scells, scells + 64);
  Tup t = make<Tup>(r, all);
  const Tup& ct = t;
  constexpr std::size_t n = sizeof...(I);
  auto m = model_of<Tup&>(t, all), cm = model_of<const Tup&>(t, all);
  check("tuple size", std::to_string(mpt::size_v<Tup>) + std::to_string(mpt::size_v<const Tup&>), std::to_string(n) + std::to_string(n));
  check("is_tuple", kinds<Tup>(), "tttt");
  check("as_tuple identity", ptr(&mpt::as_tuple(t)) + ptr(&mpt::as_tuple(ct)), ptr(&t) + ptr(&t));
  check("as_tuple category", cat_of<decltype(mpt::as_tuple(t))>() + cat_of<decltype(mpt::as_tuple(ct))>() + cat_of<decltype(mpt::as_tuple(std::move(t)))>(), "&const&&&");
  { std::vector<seen> v{seen{cat_of<decltype(mpt::at<I>(t))>(), addr(mpt::at<I>(t)), one(mpt::at<I>(t))}...}; check("tuple at &", str(v, true), str(m, true)); }
  { std::vector<seen> v{seen{cat_of<decltype(mpt::at<I>(ct))>(), addr(mpt::at<I>(ct)), one(mpt::at<I>(ct))}...}; check("tuple at const&", str(v, true), str(cm, true)); }
  check("element_type", join({std::to_string(std::is_same_v<mpt::element_type_t<I, Tup>, std::tuple_element_t<I, Tup>>)...}), join({std::string(1 + 0 * I, '1')...}));
  { std::vector<seen> v; mpt::for_each(t, see{&v}); check("for_each &", str(v, true), str(m, true)); }
  { std::vector<seen> v; mpt::for_each(ct, see{&v}, 1, "x"); check("for_each const&", str(v, true), str(cm, true)); }
  { int c = 0; auto res = mpt::transform(t, mark_f{}, c); check("transform &", seq(res) + std::to_string(c), mark_model(m) + std::to_string(n)); }
  { int c = 0; auto res = mpt::transform(ct, mark_f{}, c); check("transform const&", seq(res) + std::to_string(c), mark_model(cm) + std::to_string(n)); }
  { check("accumulate &", mpt::accumulate(std::string("z"), t, fold_f{}), fold_model(m, "z"));
    check("accumulate const&", mpt::accumulate(std::string("z"), ct, fold_f{}), fold_model(m, "z"));
    std::string want = "y";
    for (auto& s : m) want = "(" + want + s.text + "\"argument that does not fit inline\")";
    check("accumulate args", mpt::accumulate(std::string("y"), ct, fold_f{}, std::string("argument that does not fit inline")), want);
    check("accumulate args by value", mpt::accumulate(std::string("y"), ct, [](std::string a, const auto& x, std::string b) { return "(" + a + one(x) + one(b) + ")"; }, std::string("argument that does not fit inline")), want);
    std::size_t total = 0; for (auto& s : m) total += s.text.size();
    check("accumulate number", std::to_string(mpt::accumulate(std::size_t{0}, t, [](std::size_t a, const auto& x) { return a + one(x).size(); })), std::to_string(total)); }
  { auto sub = mpt::subset(t, pick); std::vector<seen> want{m[S]...}; std::vector<seen> got;
    std::apply([&](auto&... x) { (..., got.push_back({cat_of<decltype(x)>(), addr(x), one(x)})); }, sub);
    check("subset &", str(got, true), str(want, true)); }
  { auto sub = mpt::subset(ct, pick); std::vector<seen> want{cm[S]...}; std::vector<seen> got;
    std::apply([&](auto&... x) { (..., got.push_back({cat_of<decltype(x)>(), addr(x), one(x)})); }, sub);
    check("subset const&", str(got, true), str(want, true)); }
  { auto sub = mpt::range<B, E>(t); std::vector<seen> want(m.begin() + B, m.begin() + E), got;
    std::apply([&](auto&... x) { (..., got.push_back({cat_of<decltype(x)>(), addr(x), one(x)})); }, sub);
    check("range &", str(got, true), str(want, true)); }
  if constexpr (n > 0) {
    check("head &", ptr(addr(mpt::head(t))) + ptr(addr(mpt::head(ct))), ptr(m[0].p) + ptr(m[0].p));
    auto rest = mpt::tail(t); std::vector<seen> want(m.begin() + 1, m.end()), got;
    std::apply([&](auto&... x) { (..., got.push_back({cat_of<decltype(x)>(), addr(x), one(x)})); }, rest);
    check("tail &", str(got, true), str(want, true));
  }
  check("lvalues untouched", str(model_of<Tup&>(t, all), true), str(m, true));
  // Rvalues: values are handed out as such, references stay references.
  auto texts = str(model_of<Tup&>(t, all), false);
  auto rm = model_of<Tup>(t, all);
  { Tup u = make<Tup>(r, all); auto um = model_of<Tup>(u, all); std::vector<seen> v; mpt::for_each(std::move(u), see{&v}); check("for_each &&", str(v, true), str(um, true)); }
  { Tup u = make<Tup>(r, all); auto um = model_of<Tup>(u, all); int c = 0; auto res = mpt::transform(std::move(u), mark_f{}, c); check("transform &&", seq(res), mark_model(um)); }
  { Tup u = make<Tup>(r, all); auto um = model_of<Tup&>(u, all); check("accumulate &&", mpt::accumulate(std::string("q"), std::move(u), fold_f{}), fold_model(um, "q")); }
  { Tup u = make<Tup>(r, all); auto um = model_of<Tup&>(u, all);
    auto sub = mpt::range<B, E>(std::move(u)); std::vector<std::string> want; for (std::size_t i = B; i < E; i++) want.push_back(um[i].text);
    check("range &&", seq(sub), join(want)); }
  if constexpr (n > 0 && !(... || (std::is_reference_v<std::tuple_element_t<I, Tup>> || std::is_const_v<std::tuple_element_t<I, Tup>>))) {
    Tup u = make<Tup>(r, all); auto um = model_of<Tup&>(u, all);
    auto rest = mpt::tail(std::move(u));
    { Tup v = make<Tup>(r, all); u = std::move(v); }  // The result must not live in u.
    std::vector<std::string> want; for (std::size_t i = 1; i < n; i++) want.push_back(um[i].text);
    check("tail &&", seq(rest), join(want));
  }
  { Tup u = make<Tup>(r, all); auto um = model_of<Tup&>(u, all); Tup w = make<Tup>(r, all); auto wm = model_of<Tup&>(w, all);
    std::vector<std::string> want; for (auto& s : um) want.push_back(s.text); for (auto& s : wm) want.push_back(s.text);
    check("cat &&", seq(mpt::cat(std::move(u), std::move(w))), join(want)); }
  if constexpr ((... && std::is_copy_constructible_v<std::tuple_element_t<I, Tup>>)) {
    std::vector<std::string> want; for (int k = 0; k < 3; k++) for (auto& s : m) want.push_back(s.text);
    check("cat &", seq(mpt::cat(t, ct, t)), join(want));
    check("cat leaves sources", str(model_of<Tup&>(t, all), true), str(m, true));
  }
  // References handed through temporaries are not moved out of.
  { auto refs = std::apply([](auto&... x) { return std::forward_as_tuple(x...); }, t);
    auto copy = refs;
    auto sub = mpt::range<B, E>(std::move(copy)); (void)sub;
    std::vector<seen> v; mpt::for_each(std::move(refs), see{&v}); check("for_each of references &&", str(v, true), str(m, true));
    check("accumulate of references", mpt::accumulate(std::string("r"), std::apply([](auto&... x) { return std::forward_as_tuple(x...); }, t), fold_f{}), fold_model(m, "r"));
    check("references survive", str(model_of<Tup&>(t, all), true), str(m, true)); }
  check("referents untouched", std::to_string(std::vector<int>(cells, cells + 64) == cells_before) + std::to_string(std::vector<std::string>(scells, scells + 64) == scells_before), "11");
}

template <typename Tup, std::size_t B, std::size_t E, std::size_t... S>
void tuple_group(mpt::index_sequence<S...> pick) {
  vh::Rng r(vh::seed() * 77 + B * 5 + E + sizeof...(S) * 131 + std::tuple_size_v<Tup>);
  for (int i = 0; i < vh::scale(6, 60); i++) tuple_ops<Tup, B, E>(r, std::make_index_sequence<std::tuple_size_v<Tup>>{}, pick);
}
}  // namespace show
#endif
