// Interface only: rules on the layers above treat name resolution as opaque.
#ifndef VERIF_CONTRACT_ADDRESS_RESOLVER_H_
#define VERIF_CONTRACT_ADDRESS_RESOLVER_H_
#include <netdb.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <string>
#include <utility>
#include "arpc/address.h"
namespace arpc {
class address_resolver {
 public:
  static address_resolver& get();
  address_list resolve(const endpoint& req);
  address_list resolve(endpoint&& req);
};
}  // namespace arpc
#endif
