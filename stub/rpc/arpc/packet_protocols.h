#ifndef VERIF_RPC_PACKET_PROTOCOLS_H_
#define VERIF_RPC_PACKET_PROTOCOLS_H_
namespace arpc {
template <typename E, typename D>
class protected_stream_packet_protocol;
}  // namespace arpc
#endif
