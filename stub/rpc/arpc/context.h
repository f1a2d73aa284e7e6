// The tree of contexts as the RPC layer uses it. The real one is checked by
// property C37.
#ifndef VERIF_RPC_CONTEXT_H_
#define VERIF_RPC_CONTEXT_H_
#include <chrono>
#include <memory>
#include <optional>
#include "arpc/awaitable.h"
#include "arpc/errors.h"
namespace arpc {
class context;
}
extern "C" {
void ctx_new(arpc::context* c, arpc::context* parent, bool current, bool shield);
void ctx_end(arpc::context* c);
void ctx_cancel(arpc::context* c);
void ctx_limit(arpc::context* c, long ms);
bool ctx_limited(const arpc::context* c);
long ctx_deadline(const arpc::context* c);
bool ctx_cancelled(const arpc::context* c);
arpc::context* ctx_current();
arpc::context* ctx_top();
void thread_cancel(int n);
}
namespace arpc {
class context {
 public:
  using duration = std::chrono::milliseconds;
  using time_point = std::chrono::time_point<std::chrono::system_clock, duration>;
  explicit context(context& parent = current(), bool set_current = true, bool shield = false) { ctx_new(this, &parent, set_current, shield); }
  explicit context(int thread) : thread_(thread) {}
  context(const context&) = delete;
  ~context() {
    if (thread_ < 0) ctx_end(this);
  }
  void cancel() { thread_ < 0 ? ctx_cancel(this) : thread_cancel(thread_); }
  bool is_cancelled() const { return ctx_cancelled(this); }
  std::optional<time_point> deadline() const {
    if (!ctx_limited(this)) return std::nullopt;
    return time_point(duration(ctx_deadline(this)));
  }
  void set_deadline(time_point when) { ctx_limit(this, when.time_since_epoch().count()); }
  void set_timeout(duration timeout) { set_deadline(std::chrono::time_point_cast<duration>(std::chrono::system_clock::now()) + timeout); }
  static context& current() { return *ctx_current(); }
  static context& top() { return *ctx_top(); }

 private:
  long thread_ = -1;
};
}  // namespace arpc
#endif
