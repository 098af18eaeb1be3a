#pragma once
// stand-in for parallel-hashmap: the same observable behaviour (apart from the order of iteration) over a plain sequence
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <vector>
namespace phmap
{
struct NullMutex {};
namespace priv { template <class T> using Allocator = std::allocator<T>; template <class K> using hash_default_hash = std::hash<K>; template <class K> using hash_default_eq = std::equal_to<K>; }
namespace stand_in
{
template <class K, class V> class map
{
  public:
    using key_type = K; using mapped_type = V; using value_type = std::pair<K, V>; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using iterator = typename std::vector<value_type>::iterator; using const_iterator = typename std::vector<value_type>::const_iterator;
    map() = default;
    explicit map(std::size_t) {}
    map(std::initializer_list<value_type> l) { for (const auto& x : l) { insert(x); } }
    template <class It> map(It b, It e) { for (; b != e; ++b) { insert(*b); } }
    iterator begin() { return d.begin(); }
    iterator end() { return d.end(); }
    const_iterator begin() const { return d.cbegin(); }
    const_iterator end() const { return d.cend(); }
    const_iterator cbegin() const { return d.cbegin(); }
    const_iterator cend() const { return d.cend(); }
    template <class Q = K> iterator find(const Q& k) { auto i = d.begin(); for (; i != d.end(); ++i) { if (i->first == k) { break; } } return i; }
    template <class Q = K> const_iterator find(const Q& k) const { auto i = d.cbegin(); for (; i != d.cend(); ++i) { if (i->first == k) { break; } } return i; }
    template <class Q = K> bool contains(const Q& k) const { return find(k) != d.cend(); }
    template <class Q = K> std::size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
    V& operator[](const K& k) { auto i = find(k); if (i == d.end()) { d.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple()); return d.back().second; } return i->second; }
    template <class Q = K> V& at(const Q& k) { auto i = find(k); if (i == d.end()) { throw std::out_of_range(""); } return i->second; }
    template <class Q = K> const V& at(const Q& k) const { auto i = find(k); if (i == d.cend()) { throw std::out_of_range(""); } return i->second; }
    template <class P> std::pair<iterator, bool> insert(P&& p) { auto i = find(p.first); if (i != d.end()) { return {i, false}; } d.emplace_back(std::forward<P>(p)); return {d.end() - 1, true}; }
    std::pair<iterator, bool> insert(value_type p) { auto i = find(p.first); if (i != d.end()) { return {i, false}; } d.emplace_back(std::move(p)); return {d.end() - 1, true}; }
    template <class It> void insert(It b, It e) { for (; b != e; ++b) { insert(*b); } }
    template <class Q, class... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a)
    {
        auto i = find(k); if (i != d.end()) { return {i, false}; }
        d.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...)); return {d.end() - 1, true};
    }
    template <class Q, class A> std::pair<iterator, bool> emplace(Q&& k, A&& a) { return try_emplace(std::forward<Q>(k), std::forward<A>(a)); }
    template <class Q, class A> std::pair<iterator, bool> insert_or_assign(Q&& k, A&& a) { auto r = try_emplace(k, a); if (!r.second) { r.first->second = std::forward<A>(a); } return r; }
    std::size_t erase(const K& k) { auto i = find(k); if (i == d.end()) { return 0; } erase(i); return 1; }
    iterator erase(iterator i) { return d.erase(i); }
    iterator erase(const_iterator i) { return d.erase(i); }
    std::size_t size() const { return d.size(); }
    bool empty() const { return d.empty(); }
    void clear() { d.clear(); }
    void reserve(std::size_t) {}
    bool operator==(const map& o) const { if (size() != o.size()) { return false; } for (const auto& x : d) { auto i = o.find(x.first); if (i == o.end() || !(i->second == x.second)) { return false; } } return true; }
  private:
    std::vector<value_type> d;
};
template <class K> class set
{
  public:
    using key_type = K; using value_type = K; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using iterator = typename std::vector<K>::const_iterator; using const_iterator = iterator;
    set() = default;
    explicit set(std::size_t) {}
    set(std::initializer_list<K> l) { for (const auto& x : l) { insert(x); } }
    template <class It> set(It b, It e) { for (; b != e; ++b) { insert(*b); } }
    const_iterator begin() const { return d.cbegin(); }
    const_iterator end() const { return d.cend(); }
    const_iterator cbegin() const { return d.cbegin(); }
    const_iterator cend() const { return d.cend(); }
    template <class Q = K> const_iterator find(const Q& k) const { auto i = d.cbegin(); for (; i != d.cend(); ++i) { if (*i == k) { break; } } return i; }
    template <class Q = K> bool contains(const Q& k) const { return find(k) != d.cend(); }
    template <class Q = K> std::size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
    std::pair<iterator, bool> insert(K k) { auto i = find(k); if (i != d.cend()) { return {i, false}; } d.push_back(std::move(k)); return {d.cend() - 1, true}; }
    template <class It> void insert(It b, It e) { for (; b != e; ++b) { insert(*b); } }
    template <class... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
    std::size_t erase(const K& k) { auto i = find(k); if (i == d.cend()) { return 0; } d.erase(i); return 1; }
    iterator erase(const_iterator i) { return d.erase(i); }
    std::size_t size() const { return d.size(); }
    bool empty() const { return d.empty(); }
    void clear() { d.clear(); }
    void reserve(std::size_t) {}
    bool operator==(const set& o) const { if (size() != o.size()) { return false; } for (const auto& x : d) { if (!o.contains(x)) { return false; } } return true; }
  private:
    std::vector<K> d;
};
}  // namespace stand_in
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = void> class flat_hash_map : public stand_in::map<K, V> { public: using stand_in::map<K, V>::map; };
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = void, std::size_t N = 4, class M = NullMutex> class parallel_flat_hash_map : public stand_in::map<K, V> { public: using stand_in::map<K, V>::map; };
template <class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = void> class flat_hash_set : public stand_in::set<K> { public: using stand_in::set<K>::set; };
template <class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = void, std::size_t N = 4, class M = NullMutex> class parallel_flat_hash_set : public stand_in::set<K> { public: using stand_in::set<K>::set; };
}  // namespace phmap
