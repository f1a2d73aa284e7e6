#ifndef VERIF_CONN_FILE_H_
#define VERIF_CONN_FILE_H_
#include <string>
#include "arpc/channel.h"
namespace arpc {
enum class open_mode : int { READ, WRITE, APPEND, READ_PLUS, WRITE_PLUS, APPEND_PLUS };
}
extern "C" void opened(const std::string* path, int mode);
namespace arpc {
inline channel file(const std::string& path, open_mode mode = open_mode::READ) {
  opened(&path, static_cast<int>(mode));
  return channel(1);
}
}  // namespace arpc
#endif
