// What flat maps and sets promise, in its simplest form: unique keys, found
// again. The real ones are checked by property C16; rules on the layers above
// use this one so that they judge those layers.
#ifndef VERIF_CONTRACT_FLAT_MAP_H_
#define VERIF_CONTRACT_FLAT_MAP_H_
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
extern "C" bool same_key(const char* a, std::size_t an, const char* b, std::size_t bn);
namespace arpc {
namespace verif_contract {
inline bool same(std::string_view a, std::string_view b) { return same_key(a.data(), a.size(), b.data(), b.size()); }
template <typename T, typename U, typename = std::enable_if_t<!std::is_convertible_v<const T&, std::string_view>>>
bool same(const T& a, const U& b) { return a == b; }
template <typename A, typename B>
bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) && same(a.second, b.second); }
template <typename A, typename B>
bool same(const std::tuple<A, B>& a, const std::tuple<A, B>& b) { return same(std::get<0>(a), std::get<0>(b)) && same(std::get<1>(a), std::get<1>(b)); }
template <typename T>
const T& key_of(const T& t) { return t; }
template <typename K, typename T>
const K& key_of(const std::pair<K, T>& t) { return t.first; }
template <typename K, typename V>
class table {
 public:
  using key_type = K;
  using value_type = V;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = V&;
  using const_reference = const V&;
  using iterator = V*;
  using const_iterator = const V*;
  table() {}
  table(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  table(const table& o) { for (auto& v : o) add(v); }
  table(table&& o) { for (auto& v : o) add(std::move(v)); o.clear(); }
  table& operator=(const table& o) { if (this != &o) { clear(); for (auto& v : o) add(v); } return *this; }
  table& operator=(table&& o) { if (this != &o) { clear(); for (auto& v : o) add(std::move(v)); o.clear(); } return *this; }
  ~table() { clear(); }
  iterator begin() { return at_(0); }
  iterator end() { return at_(n_); }
  const_iterator begin() const { return at_(0); }
  const_iterator end() const { return at_(n_); }
  const_iterator cbegin() const { return at_(0); }
  const_iterator cend() const { return at_(n_); }
  bool empty() const { return n_ == 0; }
  std::size_t size() const { return n_; }
  void clear() { while (n_) at_(--n_)->~V(); }
  void reserve(std::size_t) {}
  template <typename Q> iterator find(const Q& k) { for (std::size_t i = 0; i < n_; i++) if (same(key_of(*at_(i)), k)) return at_(i); return end(); }
  template <typename Q> const_iterator find(const Q& k) const { for (std::size_t i = 0; i < n_; i++) if (same(key_of(*at_(i)), k)) return at_(i); return end(); }
  iterator find(const K& k) { return find<K>(k); }
  const_iterator find(const K& k) const { return find<K>(k); }
  template <typename Q> bool contains(const Q& k) const { return find(k) != end(); }
  template <typename Q> std::size_t count(const Q& k) const { return find(k) != end(); }
  bool contains(const K& k) const { return find(k) != end(); }
  std::size_t count(const K& k) const { return find(k) != end(); }
  std::pair<iterator, bool> insert(const V& v) { auto it = find(key_of(v)); if (it != end()) return {it, false}; return {add(v), true}; }
  std::pair<iterator, bool> insert(V&& v) { auto it = find(key_of(v)); if (it != end()) return {it, false}; return {add(std::move(v)), true}; }
  iterator insert(const_iterator, const V& v) { return insert(v).first; }
  iterator insert(const_iterator, V&& v) { return insert(std::move(v)).first; }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(V(std::forward<A>(a)...)); }
  template <typename... A> iterator emplace_hint(const_iterator, A&&... a) { return insert(V(std::forward<A>(a)...)).first; }
  iterator erase(const_iterator p) {
    iterator q = const_cast<iterator>(p);
    for (iterator r = q; r + 1 != end(); ++r) *r = std::move(r[1]);
    at_(--n_)->~V();
    return q;
  }
  iterator erase(iterator p) { return erase(const_iterator(p)); }
  std::size_t erase(const K& k) { auto it = find(k); if (it == end()) return 0; erase(it); return 1; }

 protected:
  template <typename W> iterator add(W&& w) { return new (at_(n_++)) V(std::forward<W>(w)); }
  iterator at_(std::size_t i) { return reinterpret_cast<V*>(raw_) + i; }
  const_iterator at_(std::size_t i) const { return reinterpret_cast<const V*>(raw_) + i; }

 private:
  std::size_t n_ = 0;
  alignas(V) unsigned char raw_[6 * sizeof(V)];
};
}  // namespace verif_contract
template <typename K, typename T, typename C = std::less<K>, typename A = std::allocator<std::pair<K, T>>>
class flat_map : public verif_contract::table<K, std::pair<K, T>> {
 public:
  using base = verif_contract::table<K, std::pair<K, T>>;
  using base::base;
  using mapped_type = T;
  T& operator[](const K& k) { auto it = this->find(k); if (it == this->end()) it = this->add(std::pair<K, T>(k, T())); return it->second; }
  T& operator[](K&& k) { auto it = this->find(k); if (it == this->end()) it = this->add(std::pair<K, T>(std::move(k), T())); return it->second; }
  T& at(const K& k) { auto it = this->find(k); if (it == this->end()) throw std::out_of_range("key not found."); return it->second; }
  const T& at(const K& k) const { auto it = this->find(k); if (it == this->end()) throw std::out_of_range("key not found."); return it->second; }
};
template <typename K, typename C = std::less<K>, typename A = std::allocator<K>>
class flat_set : public verif_contract::table<K, K> {
 public:
  using base = verif_contract::table<K, K>;
  using base::base;
};
}  // namespace arpc
#endif
