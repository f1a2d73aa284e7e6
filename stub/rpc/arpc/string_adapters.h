// Streams over strings as the RPC layer uses them: encoders append to a string,
// decoders read one from a position. The real ones are checked by property C19.
#ifndef VERIF_RPC_STRING_ADAPTERS_H_
#define VERIF_RPC_STRING_ADAPTERS_H_
#include <cstddef>
#include <string>
#include "arpc/errors.h"
namespace arpc {
class string_output_stream {
 public:
  explicit string_output_stream(std::string& s) : text(&s) {}
  void flush() {}
  std::string* text;
};
class string_input_stream {
 public:
  explicit string_input_stream(const std::string& s, std::size_t at = 0) : text(&s), at(at) {}
  std::size_t pos() const { return at; }
  void pos(std::size_t p) { at = p; }
  const std::string* text;
  std::size_t at;
};
}  // namespace arpc
#endif
