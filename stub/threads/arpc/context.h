// The tree of contexts as arpc::thread uses it: a context has a parent and may
// become the current one of the thread that makes it. The real one is checked
// by property C37.
#ifndef VERIF_THREADS_CONTEXT_H_
#define VERIF_THREADS_CONTEXT_H_
#include <chrono>
#include <memory>
#include <optional>
#include <thread>
#include "arpc/errors.h"
namespace arpc {
class context;
}
extern "C" {
void ctx_new(arpc::context* c, arpc::context* parent, bool current, bool shield);
void ctx_end(arpc::context* c);
void ctx_cancel(arpc::context* c);
arpc::context* ctx_current();
arpc::context* ctx_top();
}
namespace arpc {
class context {
 public:
  explicit context(context& parent = current(), bool set_current = true, bool shield = false) { ctx_new(this, &parent, set_current, shield); }
  context(const context&) = delete;
  ~context() { ctx_end(this); }
  void cancel() { ctx_cancel(this); }
  static context& current() { return *ctx_current(); }
  static context& top() { return *ctx_top(); }

 private:
  long state_ = 0;
};
}  // namespace arpc
#endif
