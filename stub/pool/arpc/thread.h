// What arpc::thread promises: the function given to it runs on a thread of its
// own, which get_context() can cancel. The analysis starts and stops it.
#ifndef VERIF_POOL_THREAD_H_
#define VERIF_POOL_THREAD_H_
#include <functional>
#include <memory>
#include <thread>
#include <type_traits>
#include <utility>
#include "arpc/context.h"
#include "arpc/errors.h"
extern "C" {
extern int verif_threads;
extern void (*verif_run[4])(void*);
extern void* verif_arg[4];
void thread_join(int n);
void thread_lost(int n);
}
namespace arpc {
template <bool daemon>
class base_thread {
 public:
  base_thread() {}
  template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, base_thread>>>
  explicit base_thread(F&& f, A&&... a) : n_(verif_threads++), context_(std::make_unique<context>(n_)) {
    auto fn = [f(std::decay_t<F>(std::forward<F>(f))), t(std::tuple<std::decay_t<A>...>(std::forward<A>(a)...))]() mutable {
      std::apply([&f](auto&... x) { std::invoke(f, std::move(x)...); }, t);
    };
    using fn_t = decltype(fn);
    verif_arg[n_] = new fn_t(std::move(fn));
    verif_run[n_] = [](void* p) { (*static_cast<fn_t*>(p))(); };
  }
  base_thread(base_thread&& o) : n_(std::exchange(o.n_, -1)), context_(std::move(o.context_)) {}
  base_thread& operator=(base_thread&& o) {
    if (n_ >= 0) thread_lost(n_);
    n_ = std::exchange(o.n_, -1);
    context_ = std::move(o.context_);
    return *this;
  }
  ~base_thread() {
    if (n_ >= 0) thread_lost(n_);
  }
  static unsigned int hardware_concurrency() { return std::thread::hardware_concurrency(); }
  bool joinable() const { return n_ >= 0; }
  void join() {
    thread_join(n_);
    n_ = -1;
  }
  context& get_context() { return *context_; }

 private:
  int n_ = -1;
  std::unique_ptr<context> context_;
};
using thread = base_thread<false>;
using daemon_thread = base_thread<true>;
}  // namespace arpc
#endif
