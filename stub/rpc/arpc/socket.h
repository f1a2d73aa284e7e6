// What the RPC layer sees of a listening socket.
#ifndef VERIF_RPC_SOCKET_H_
#define VERIF_RPC_SOCKET_H_
#include "arpc/awaitable.h"
namespace arpc {
class listener {
 public:
  template <typename... A>
  explicit listener(const A&...) {}
  int accept();
};
}  // namespace arpc
#endif
