// What arpc::channel promises. The real one is checked by properties C30 and C31.
#ifndef VERIF_CONN_CHANNEL_H_
#define VERIF_CONN_CHANNEL_H_
#include <chrono>
#include <cstddef>
#include <utility>
#include "arpc/awaitable.h"
extern "C" {
void chan_close(int n);
void chan_lost(int n);
void chan_mode(int n, bool non_blocking);
void chan_flush(int n);
unsigned long chan_read(int n, void* to, unsigned long size);
unsigned long chan_write(int n, const void* from, unsigned long size);
}
namespace arpc {
class channel {
 public:
  channel() noexcept : n_(-1) {}
  explicit channel(int n) noexcept : n_(n) {}
  channel(channel&& c) noexcept : n_(std::exchange(c.n_, -1)) {}
  ~channel() noexcept { if (n_ != -1) chan_lost(n_); }
  channel& operator=(channel&& c) noexcept { std::swap(n_, c.n_); return *this; }
  int get() const noexcept { return n_; }
  explicit operator bool() const noexcept { return n_ != -1; }
  void close() noexcept { if (n_ != -1) chan_close(std::exchange(n_, -1)); }
  channel& make_non_blocking(bool b = true) { chan_mode(n_, b); return *this; }
  awaitable<void> can_read() { return awaitable<void>(90 + n_); }
  awaitable<void> can_write() { return awaitable<void>(190 + n_, true); }
  std::size_t read(void* to, std::size_t size) { return chan_read(n_, to, size); }
  std::size_t write(const void* from, std::size_t size) { return chan_write(n_, from, size); }
  std::size_t maybe_read(void* to, std::size_t size) { return chan_read(n_, to, size); }
  std::size_t maybe_write(const void* from, std::size_t size) { return chan_write(n_, from, size); }
  awaitable<std::size_t> async_read(void* to, std::size_t size) { return can_read().then([=]() { return static_cast<std::size_t>(chan_read(n_, to, size)); }); }
  awaitable<std::size_t> async_write(const void* from, std::size_t size) { return can_write().then([=]() { return static_cast<std::size_t>(chan_write(n_, from, size)); }); }
  channel& flush() { chan_flush(n_); return *this; }

 private:
  int n_;
};
}  // namespace arpc
#endif
