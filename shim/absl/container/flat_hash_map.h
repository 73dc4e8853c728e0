// Stand-in for absl's hash maps with the same observable content: std::map-like search by
// equality over a list, so that neither hash values nor 128 bit arithmetic are needed.
#ifndef SHIM_ABSL_FLAT_HASH_MAP_H_
#define SHIM_ABSL_FLAT_HASH_MAP_H_
#include <functional>
#include <initializer_list>
#include <list>
#include <stdexcept>
#include <tuple>
#include <utility>
namespace absl {
namespace shim_hash {
template <class V, class GetKey>
class Table {
 public:
  using value_type = V;
  using size_type = size_t;
  using iterator = typename std::list<V>::iterator;
  using const_iterator = typename std::list<V>::const_iterator;
  using reference = V&;
  using const_reference = const V&;
  Table() = default;
  explicit Table(size_t) {}
  Table(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <class I> Table(I b, I e) { for (; b != e; ++b) insert(*b); }
  iterator begin() { return l_.begin(); }
  iterator end() { return l_.end(); }
  const_iterator begin() const { return l_.begin(); }
  const_iterator end() const { return l_.end(); }
  const_iterator cbegin() const { return l_.begin(); }
  const_iterator cend() const { return l_.end(); }
  bool empty() const { return l_.empty(); }
  size_t size() const { return l_.size(); }
  void clear() { l_.clear(); }
  void reserve(size_t) {}
  void rehash(size_t) {}
  template <class K> iterator find(const K& k) { for (auto i = begin(); i != end(); ++i) if (GetKey()(*i) == k) return i; return end(); }
  template <class K> const_iterator find(const K& k) const { for (auto i = begin(); i != end(); ++i) if (GetKey()(*i) == k) return i; return end(); }
  template <class K> bool contains(const K& k) const { return find(k) != end(); }
  template <class K> size_t count(const K& k) const { return contains(k); }
  std::pair<iterator, bool> insert(V v) {
    auto i = find(GetKey()(v));
    if (i != end()) return {i, false};
    l_.push_back(std::move(v));
    return {std::prev(end()), true};
  }
  template <class I> void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) {
    std::list<V> n;
    n.emplace_back(std::forward<A>(a)...);
    auto i = find(GetKey()(n.front()));
    if (i != end()) return {i, false};
    l_.splice(l_.end(), n);
    return {std::prev(end()), true};
  }
  iterator erase(iterator i) { return l_.erase(i); }
  iterator erase(const_iterator i) { return l_.erase(i); }
  template <class K> size_t erase(const K& k) {
    auto i = find(k);
    if (i == end()) return 0;
    l_.erase(i);
    return 1;
  }
  void swap(Table& o) { l_.swap(o.l_); }

 protected:
  std::list<V> l_;
};
struct First { template <class P> const auto& operator()(const P& p) const { return p.first; } };
struct Self { template <class P> const P& operator()(const P& p) const { return p; } };
template <class K, class V>
class Map : public Table<std::pair<const K, V>, First> {
 public:
  using key_type = K;
  using mapped_type = V;
  using Table<std::pair<const K, V>, First>::Table;
  template <class Q> V& operator[](Q&& q) { return try_emplace(K(std::forward<Q>(q))).first->second; }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  template <class Q, class... A> auto try_emplace(Q&& q, A&&... a) {
    auto i = this->find(q);
    if (i != this->end()) return std::make_pair(i, false);
    this->l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(q)), std::forward_as_tuple(std::forward<A>(a)...));
    return std::make_pair(std::prev(this->end()), true);
  }
  template <class Q, class W> auto insert_or_assign(Q&& q, W&& w) {
    auto r = try_emplace(std::forward<Q>(q));
    r.first->second = std::forward<W>(w);
    return r;
  }
  template <class Q> V& at(const Q& q) {
    auto i = this->find(q);
    if (i == this->end()) throw std::out_of_range("absl::container_internal::raw_hash_map<>::at");
    return i->second;
  }
  template <class Q> const V& at(const Q& q) const { return const_cast<Map*>(this)->at(q); }
};
}  // namespace shim_hash
template <class K, class V, class... R> using flat_hash_map = shim_hash::Map<K, V>;
template <class K, class V, class... R> using node_hash_map = shim_hash::Map<K, V>;
template <class K, class... R> using flat_hash_set = shim_hash::Table<K, shim_hash::Self>;
template <class K, class... R> using node_hash_set = shim_hash::Table<K, shim_hash::Self>;
}  // namespace absl
#endif
