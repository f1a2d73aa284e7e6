// What arpc::flag promises: set, reset, ask, and a condition that becomes
// ready once it is set. The real one is checked by property C33.
#ifndef VERIF_CONTRACT_FLAG_H_
#define VERIF_CONTRACT_FLAG_H_
#include <mutex>
#include "arpc/awaitable.h"
#include "arpc/channel.h"
#include "arpc/errors.h"
extern "C" {
void flag_set(void* f, int v);
int flag_get(const void* f);
int flag_fd(const void* f);
}
namespace arpc {
class flag {
 public:
  flag() { flag_set(this, 2); }
  flag(const flag&) = delete;
  void set() { flag_set(this, 1); }
  void reset() { flag_set(this, 0); }
  bool is_set() const { return flag_get(this); }
  explicit operator bool() const { return is_set(); }
  awaitable<void> async_wait() {
    return awaitable<void>(flag_fd(this)).then([this]() {
      if (!is_set()) throw errors::try_again("Flag not yet set");
    });
  }
  void wait();

 private:
  long state_[2] = {0, 0};
};
}  // namespace arpc
#endif
