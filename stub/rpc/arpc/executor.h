// What a thread pool promises: it runs every function once, on some thread of
// its own. Which one, and when, is up to the analysis. See property C41.
#ifndef VERIF_RPC_EXECUTOR_H_
#define VERIF_RPC_EXECUTOR_H_
#include <type_traits>
#include <utility>
#include "arpc/thread.h"
extern "C" {
void pool_size(unsigned workers, int queue);
void pool_add(void* arg, void (*fn)(void*));
void pool_end();
}
namespace arpc {
class thread_pool {
 public:
  explicit thread_pool(unsigned int workers, int queue = -1) { pool_size(workers, queue); }
  thread_pool(const thread_pool&) = delete;
  ~thread_pool() { pool_end(); }
  template <typename F>
  void run(F&& f) {
    using T = std::decay_t<F>;
    pool_add(new T(std::forward<F>(f)), [](void* p) {
      T* t = static_cast<T*>(p);
      try {
        (*t)();
      } catch (...) {
      }
      delete t;
    });
  }
};
}  // namespace arpc
#endif
