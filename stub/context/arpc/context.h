// What arpc::context promises to select: a condition that is ready once it is
// cancelled, and one that is ready at its deadline; both raise. The real one
// is checked by property C37.
#ifndef VERIF_CONTRACT_CONTEXT_H_
#define VERIF_CONTRACT_CONTEXT_H_
#include "arpc/awaitable.h"
#include "arpc/errors.h"
extern "C" {
int cancel_fd();
bool cancel_set();
long deadline_ms();
}
namespace arpc {
class context {
 public:
  static context& current() {
    static context* c = nullptr;
    return *c;
  }
  awaitable<void> wait_cancelled() {
    return awaitable<void>(cancel_fd()).then([]() {
      if (!cancel_set()) throw errors::try_again("Flag not yet set");
      throw errors::cancelled("Context is cancelled");
    });
  }
  awaitable<void> wait_deadline() {
    long d = deadline_ms();
    if (d < 0) return awaitable<void>(-1);
    return awaitable<void>(std::chrono::milliseconds(d)).then([]() {
      throw errors::deadline_exceeded("Deadline exceeded");
    });
  }
};
}  // namespace arpc
#endif
