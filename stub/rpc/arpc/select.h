// What arpc::select promises: every condition that is ready reports its value
// or exception unless its reaction throws try_again; when none does, wait and
// look again. The real one is checked by property C36.
#ifndef VERIF_RPC_SELECT_H_
#define VERIF_RPC_SELECT_H_
#include <poll.h>
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cstddef>
#include <exception>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "arpc/awaitable.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/mpt.h"
#include "arpc/result_holder.h"

extern "C" {
void looks();  // a look at the conditions begins
bool polled(int fd, bool for_write, long timeout);  // is it ready?
void idle();  // nothing is ready: others run until something is
}

namespace arpc {
namespace verif_contract {
template <typename T>
bool now(awaitable<T>& a) {
  return polled(a.get_fd(), a.for_write(), a.timeout().count());
}
template <typename T>
std::vector<bool> now(std::vector<awaitable<T>>& v) {
  std::vector<bool> r;
  for (auto& a : v) r.push_back(now(a));
  return r;
}
template <typename T>
result_holder<T> some(awaitable<T>& a, bool is_ready) {
  result_holder<T> r;
  if (!is_ready) return r;
  try {
    if constexpr (std::is_same_v<T, void>) {
      a.get_react_fn()();
      r.set_value();
    } else {
      r.set_value(a.get_react_fn()());
    }
  } catch (const errors::try_again&) {
  } catch (...) {
    r.set_exception(std::current_exception());
  }
  return r;
}
template <typename T>
std::vector<result_holder<T>> some(std::vector<awaitable<T>>& v, const std::vector<bool>& is_ready) {
  std::vector<result_holder<T>> r;
  for (std::size_t k = 0; k < v.size(); k++) r.push_back(some(v[k], is_ready[k]));
  return r;
}
template <typename T>
bool any(const result_holder<T>& h) {
  return h.has_value();
}
template <typename T>
bool any(const std::vector<result_holder<T>>& v) {
  for (auto& h : v) {
    if (h.has_value()) return true;
  }
  return false;
}
template <typename... A, std::size_t... k>
auto all(std::index_sequence<k...>, A&&... a) {
  while (true) {
    looks();
    // poll looks at one descriptor after the other, then reactions run.
    auto t = std::make_tuple(now(a)...);
    auto r = std::tuple<decltype(some(a, now(a)))...>{some(a, std::get<k>(t))...};
    if (std::apply([](auto&... h) { return (... || any(h)); }, r)) return r;
    idle();
  }
}
}  // namespace verif_contract
template <typename... A>
[[nodiscard]] auto select(A&&... a) {
  return verif_contract::all(std::index_sequence_for<A...>(), a...);
}
}  // namespace arpc
#endif
