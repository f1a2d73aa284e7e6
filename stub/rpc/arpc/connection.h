// What a packet connection promises: packets sent and received one at a time,
// on a transport that is opened and closed. The real ones are checked by C48.
#ifndef VERIF_RPC_CONNECTION_H_
#define VERIF_RPC_CONNECTION_H_
#include <string>
#include <utility>
#include "arpc/awaitable.h"
#include "arpc/errors.h"
extern "C" {
void net_connect(int n);
void net_disconnect(int n);
void net_send(int n, std::string* packet);
int net_session(int n);                  // changes whenever it is disconnected
bool net_arrived(int n, int session);    // is there a packet or an end?
void net_receive(int n, int session, std::string* packet);
void looks();
void idle();
int net_fd(int n);
void net_gone(int n);
}
namespace arpc {
class channel_connection {};
class client_socket_connection {};
template <typename C>
class reconnectable_connection {};
template <typename C, typename P>
class packet_connection_impl {
 public:
  explicit packet_connection_impl(int n = 0) : n_(n) {}
  packet_connection_impl(const packet_connection_impl&) = delete;
  ~packet_connection_impl() { net_gone(n_); }
  void connect() { net_connect(n_); }
  void disconnect() { net_disconnect(n_); }
  void send(std::string packet) { net_send(n_, &packet); }
  std::string receive() {
    std::string packet;
    const int session = net_session(n_);
    for (looks(); !net_arrived(n_, session); looks()) idle();
    net_receive(n_, session, &packet);
    return packet;
  }
  awaitable<void> data_available() { return awaitable<void>(net_fd(n_)); }

 private:
  int n_;
};
}  // namespace arpc
#endif
