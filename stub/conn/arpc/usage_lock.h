// What arpc::usage_lock promises: get() gives a reference or throws, drop()
// returns when there are none left. The real one is checked by property C23.
#ifndef VERIF_CONN_USAGE_LOCK_H_
#define VERIF_CONN_USAGE_LOCK_H_
#include <memory>
#include "arpc/errors.h"
extern "C" {
void use_begins(const void* l);
void use_ends(const void* l);
void use_drop(const void* l);
}
namespace arpc {
template <typename T, typename E = errors::unavailable>
class usage_lock {
 public:
  explicit usage_lock(const char* message = "") : message_(message) {}
  explicit usage_lock(T* ptr, const char* message = "") : message_(message), ptr_(ptr) {}
  usage_lock(const usage_lock&) = delete;
  ~usage_lock() { drop(); }
  void arm(T* ptr) { ptr_ = ptr; }
  void drop() {
    if (!ptr_) return;
    ptr_ = nullptr;
    use_drop(this);
  }
  auto get() {
    if (!ptr_) throw E(message_);
    return get_or_null();
  }
  std::shared_ptr<T> get_or_null() {
    if (!ptr_) return std::shared_ptr<T>();
    use_begins(this);
    return std::shared_ptr<T>(ptr_, [this](T*) { use_ends(this); });
  }

 private:
  const char* message_;
  T* ptr_ = nullptr;
};
}  // namespace arpc
#endif
