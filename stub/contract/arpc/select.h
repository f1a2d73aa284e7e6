// What arpc::select promises, in its simplest form: wait for the condition,
// run its reaction, wait again if that throws try_again, and hand back the
// value or exception. The real one is checked against this by property C36;
// rules on the layers above use this one so that they judge those layers.
#ifndef VERIF_CONTRACT_SELECT_H_
#define VERIF_CONTRACT_SELECT_H_
#include <poll.h>
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cstddef>
#include <exception>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "arpc/awaitable.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/mpt.h"
#include "arpc/result_holder.h"

extern "C" void ready(int fd, bool for_write, long timeout, bool polling);

namespace arpc {
namespace verif_contract {
template <typename T>
result_holder<T> once(awaitable<T>& a) {
  while (true) {
    ready(a.get_fd(), a.for_write(), a.timeout() / std::chrono::milliseconds(1), a.for_polling());
    result_holder<T> r;
    try {
      if constexpr (std::is_same_v<T, void>) {
        a.get_react_fn()();
        r.set_value();
      } else {
        r.set_value(a.get_react_fn()());
      }
    } catch (const errors::try_again&) {
      continue;
    } catch (...) {
      r.set_exception(std::current_exception());
    }
    return r;
  }
}
// Several conditions: which of them are ready is up to the analysis.
extern "C" bool pick(int k);
template <typename T>
result_holder<T> some(awaitable<T>& a, int k) {
  if (pick(k)) return once(a);
  return {};
}
template <typename T>
std::vector<result_holder<T>> some(std::vector<awaitable<T>>& v, int k) {
  std::vector<result_holder<T>> r;
  int j = 0;
  for (auto& a : v) r.push_back(some(a, 100 * k + 100 + j++));
  return r;
}
}  // namespace verif_contract
template <typename T>
[[nodiscard]] std::tuple<result_holder<T>> select(awaitable<T>&& a) {
  return std::tuple<result_holder<T>>(verif_contract::once(a));
}
template <typename... A>
[[nodiscard]] auto select(A&&... a) {
  int k = 0;
  return std::tuple<decltype(verif_contract::some(a, 0))...>{verif_contract::some(a, k++)...};
}
}  // namespace arpc
#endif
