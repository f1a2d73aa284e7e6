// Codecs by name only: the analysis brings its own, which record the items.
#ifndef VERIF_RPC_BINARY_CODECS_H_
#define VERIF_RPC_BINARY_CODECS_H_
namespace arpc {
class little_endian_binary_encoder;
class little_endian_binary_decoder;
class big_endian_binary_encoder;
class big_endian_binary_decoder;
}  // namespace arpc
#include "arpc/result_holder.h"
#include "arpc/type_hash.h"
#endif
