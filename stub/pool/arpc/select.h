// What arpc::select promises: every condition that is ready reports its value
// or exception unless its reaction throws try_again; when none does, wait and
// look again. The real one is checked by property C36.
#ifndef VERIF_CONTRACT_SELECT_H_
#define VERIF_CONTRACT_SELECT_H_
#include <poll.h>
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cstddef>
#include <exception>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "arpc/awaitable.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/mpt.h"
#include "arpc/result_holder.h"

extern "C" {
void looks();                         // a look at the conditions begins
bool polled(int fd, bool for_write);  // is it ready? others may run meanwhile
void idle();                          // nothing is ready: others run until something is
}

namespace arpc {
namespace verif_contract {
template <typename T>
result_holder<T> some(awaitable<T>& a, bool is_ready) {
  result_holder<T> r;
  if (!is_ready) return r;
  try {
    if constexpr (std::is_same_v<T, void>) {
      a.get_react_fn()();
      r.set_value();
    } else {
      r.set_value(a.get_react_fn()());
    }
  } catch (const errors::try_again&) {
  } catch (...) {
    r.set_exception(std::current_exception());
  }
  return r;
}
template <typename... A>
auto all(awaitable<A>&&... a) {
  while (true) {
    looks();
    // poll looks at one descriptor after the other, then reactions run.
    bool now[] = {polled(a.get_fd(), a.for_write())...};
    int k = 0;
    auto r = std::tuple<result_holder<A>...>{some(a, now[k++])...};
    if (std::apply([](auto&... h) { return (... || h.has_value()); }, r)) return r;
    idle();
  }
}
}  // namespace verif_contract
template <typename... A>
[[nodiscard]] auto select(A&&... a) {
  return verif_contract::all(std::move(a)...);
}
}  // namespace arpc
#endif
