// Minimal stand-in for function2 (https://github.com/Naios/function2), which is
// an empty submodule here. Provides fu2::unique_function<R(A...)>: an owning,
// move-only, type-erased callable that throws fu2::bad_function_call when empty
// and fu2::function (copyable, std::function).
#ifndef VERIF_SHIM_FUNCTION2_HPP_
#define VERIF_SHIM_FUNCTION2_HPP_
#include <exception>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

namespace fu2 {

struct bad_function_call : std::exception {
  const char* what() const noexcept override { return "bad function call"; }
};

template <typename Sig>
class unique_function;

template <typename R, typename... A>
class unique_function<R(A...)> {
  struct base {
    virtual ~base() = default;
    virtual R call(A... a) = 0;
  };
  template <typename F>
  struct impl final : base {
    F f;
    template <typename G>
    explicit impl(G&& g) : f(std::forward<G>(g)) {}
    R call(A... a) override {
      if constexpr (std::is_void_v<R>) {
        std::invoke(f, std::forward<A>(a)...);
      } else {
        return std::invoke(f, std::forward<A>(a)...);
      }
    }
  };
  std::unique_ptr<base> p_;

 public:
  unique_function() = default;
  unique_function(std::nullptr_t) {}
  unique_function(unique_function&&) noexcept = default;
  unique_function(const unique_function&) = delete;
  template <typename F,
            std::enable_if_t<!std::is_same_v<std::decay_t<F>, unique_function> &&
                                 std::is_invocable_r_v<R, std::decay_t<F>&, A...>,
                             int> = 0>
  unique_function(F&& f)
      : p_(std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f))) {}
  unique_function& operator=(unique_function&&) noexcept = default;
  unique_function& operator=(const unique_function&) = delete;
  unique_function& operator=(std::nullptr_t) {
    p_.reset();
    return *this;
  }
  template <typename F,
            std::enable_if_t<!std::is_same_v<std::decay_t<F>, unique_function> &&
                                 std::is_invocable_r_v<R, std::decay_t<F>&, A...>,
                             int> = 0>
  unique_function& operator=(F&& f) {
    p_ = std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f));
    return *this;
  }
  explicit operator bool() const noexcept { return static_cast<bool>(p_); }
  bool empty() const noexcept { return !p_; }
  R operator()(A... a) {
    if (!p_) throw bad_function_call();
    return p_->call(std::forward<A>(a)...);
  }
  void swap(unique_function& o) noexcept { p_.swap(o.p_); }
};

template <typename Sig>
using function = std::function<Sig>;

}  // namespace fu2
#endif
