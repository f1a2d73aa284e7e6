// Stand-in for the (unavailable) function2 submodule: only the part of its
// interface the repository uses. It exists so that clang can parse the
// asynchronous half of the library; its bodies carry no verdict.
#ifndef VERIF_STUB_FUNCTION2_HPP_
#define VERIF_STUB_FUNCTION2_HPP_
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

namespace fu2 {
template <typename Signature>
class unique_function;

template <typename R, typename... A>
class unique_function<R(A...)> {
  struct base {
    virtual ~base() {}
    virtual R call(A... a) = 0;
  };
  template <typename F>
  struct impl final : base {
    F f_;
    template <typename G>
    explicit impl(G&& g) : f_(std::forward<G>(g)) {}
    R call(A... a) override { return f_(std::forward<A>(a)...); }
  };
  std::unique_ptr<base> p_;

 public:
  unique_function() = default;
  unique_function(std::nullptr_t) {}
  unique_function(unique_function&&) = default;
  unique_function& operator=(unique_function&&) = default;
  unique_function(const unique_function&) = delete;
  unique_function& operator=(const unique_function&) = delete;
  template <typename F,
            typename = std::enable_if_t<
                !std::is_same_v<std::decay_t<F>, unique_function> &&
                std::is_invocable_v<std::decay_t<F>&, A...>>>
  unique_function(F&& f)
      : p_(std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f))) {}
  R operator()(A... a) {
    if (!p_) throw std::bad_function_call();
    return p_->call(std::forward<A>(a)...);
  }
  explicit operator bool() const noexcept { return bool(p_); }
};
}  // namespace fu2
#endif
