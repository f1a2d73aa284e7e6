// What arpc::mutex promises. The real one is checked by property C33.
#ifndef VERIF_RPC_MUTEX_H_
#define VERIF_RPC_MUTEX_H_
#include <mutex>
namespace arpc {
class mutex {
 public:
  mutex() {}
  mutex(const mutex&) = delete;
  void lock();
  void unlock();

 private:
  long held_ = 0;
};
}  // namespace arpc
#endif
