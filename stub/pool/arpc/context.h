// The context of a thread, as far as those who start and stop threads see it.
#ifndef VERIF_POOL_CONTEXT_H_
#define VERIF_POOL_CONTEXT_H_
#include <chrono>
#include <memory>
#include "arpc/awaitable.h"
#include "arpc/errors.h"
extern "C" void thread_cancel(int n);
namespace arpc {
class context {
 public:
  explicit context(int n = -1) : n_(n) {}
  context(const context&) = delete;
  void cancel() { thread_cancel(n_); }
  static context& current() {
    static context c;
    return c;
  }

 private:
  int n_;
};
}  // namespace arpc
#endif
