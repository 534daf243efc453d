// Stand-in for the Pubby/flat submodule: sorted-vector containers.
#pragma once
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <utility>
#include <vector>
namespace fc
{
struct delay_sort_t
{
};
constexpr delay_sort_t delay_sort{};

namespace detail
{
struct identity_key
{
  template <typename T>
  const T& operator()(const T& t) const { return t; }
};
struct first_key
{
  template <typename T>
  const auto& operator()(const T& t) const { return t.first; }
};

template <typename Container, typename Key, typename Compare, typename KeyOf, bool Multi>
class flat_base
{
public:
  using container_type = Container;
  using value_type = typename Container::value_type;
  using key_type = Key;
  using key_compare = Compare;
  using iterator = typename Container::iterator;
  using const_iterator = typename Container::const_iterator;
  using size_type = std::size_t;
  using reference = value_type&;
  using const_reference = const value_type&;

  Container container;

  flat_base() = default;
  explicit flat_base(const Compare& c) : m_cmp(c) {}
  template <typename It>
  flat_base(It b, It e)
  {
    insert(b, e);
  }
  flat_base(std::initializer_list<value_type> l) { insert(l.begin(), l.end()); }

  iterator begin() { return container.begin(); }
  iterator end() { return container.end(); }
  const_iterator begin() const { return container.begin(); }
  const_iterator end() const { return container.end(); }
  const_iterator cbegin() const { return container.begin(); }
  const_iterator cend() const { return container.end(); }
  auto rbegin() { return std::make_reverse_iterator(end()); }
  auto rend() { return std::make_reverse_iterator(begin()); }
  auto rbegin() const { return std::make_reverse_iterator(end()); }
  auto rend() const { return std::make_reverse_iterator(begin()); }
  bool empty() const { return container.empty(); }
  size_type size() const { return container.size(); }
  void clear() { container.clear(); }
  void reserve(size_type n) { container.reserve(n); }

  template <typename K = Key>
  iterator lower_bound(const K& k)
  {
    return std::lower_bound(
        container.begin(), container.end(), k,
        [this](const auto& a, const K& b) { return m_cmp(KeyOf{}(a), b); });
  }
  template <typename K = Key>
  const_iterator lower_bound(const K& k) const
  {
    return std::lower_bound(
        container.begin(), container.end(), k,
        [this](const auto& a, const K& b) { return m_cmp(KeyOf{}(a), b); });
  }
  template <typename K = Key>
  iterator upper_bound(const K& k)
  {
    return std::upper_bound(
        container.begin(), container.end(), k,
        [this](const K& a, const auto& b) { return m_cmp(a, KeyOf{}(b)); });
  }
  template <typename K = Key>
  const_iterator upper_bound(const K& k) const
  {
    return std::upper_bound(
        container.begin(), container.end(), k,
        [this](const K& a, const auto& b) { return m_cmp(a, KeyOf{}(b)); });
  }
  template <typename K = Key>
  auto equal_range(const K& k)
  {
    return std::make_pair(lower_bound(k), upper_bound(k));
  }
  template <typename K = Key>
  auto equal_range(const K& k) const
  {
    return std::make_pair(lower_bound(k), upper_bound(k));
  }
  template <typename K = Key>
  iterator find(const K& k)
  {
    auto it = lower_bound(k);
    if (it != container.end() && !m_cmp(k, KeyOf{}(*it)))
      return it;
    return container.end();
  }
  template <typename K = Key>
  const_iterator find(const K& k) const
  {
    auto it = lower_bound(k);
    if (it != container.end() && !m_cmp(k, KeyOf{}(*it)))
      return it;
    return container.end();
  }
  template <typename K = Key>
  size_type count(const K& k) const
  {
    return upper_bound(k) - lower_bound(k);
  }
  template <typename K = Key>
  bool contains(const K& k) const
  {
    return find(k) != end();
  }

  auto insert(value_type v)
  {
    if constexpr (Multi)
    {
      auto it = upper_bound(KeyOf{}(v));
      return container.insert(it, std::move(v));
    }
    else
    {
      auto it = lower_bound(KeyOf{}(v));
      if (it != container.end() && !m_cmp(KeyOf{}(v), KeyOf{}(*it)))
        return std::pair<iterator, bool>{it, false};
      it = container.insert(it, std::move(v));
      return std::pair<iterator, bool>{it, true};
    }
  }
  iterator insert(const_iterator, value_type v)
  {
    if constexpr (Multi)
      return insert(std::move(v));
    else
      return insert(std::move(v)).first;
  }
  template <typename It>
  void insert(It b, It e)
  {
    for (; b != e; ++b)
      insert(value_type(*b));
  }
  template <typename It>
  void insert(It b, It e, delay_sort_t)
  {
    insert(b, e);
  }
  void insert(std::initializer_list<value_type> l) { insert(l.begin(), l.end()); }
  template <typename... A>
  auto emplace(A&&... a)
  {
    return insert(value_type(std::forward<A>(a)...));
  }
  iterator erase(const_iterator it) { return container.erase(it); }
  iterator erase(iterator it) { return container.erase(it); }
  iterator erase(const_iterator a, const_iterator b) { return container.erase(a, b); }
  template <
      typename K, typename = std::enable_if_t<
                      !std::is_convertible_v<K, const_iterator> || std::is_same_v<std::decay_t<K>, Key>>>
  size_type erase(const K& k)
  {
    auto r = equal_range(k);
    size_type n = r.second - r.first;
    container.erase(r.first, r.second);
    return n;
  }
  friend bool operator==(const flat_base& a, const flat_base& b)
  {
    return a.container == b.container;
  }
  friend bool operator!=(const flat_base& a, const flat_base& b)
  {
    return !(a.container == b.container);
  }
  friend bool operator<(const flat_base& a, const flat_base& b)
  {
    return a.container < b.container;
  }

protected:
  [[no_unique_address]] Compare m_cmp;
};
}

template <typename Container, typename Compare = std::less<void>>
class flat_set
    : public detail::flat_base<
          Container, typename Container::value_type, Compare, detail::identity_key, false>
{
  using base = detail::flat_base<
      Container, typename Container::value_type, Compare, detail::identity_key, false>;

public:
  using base::base;
  // libflat's set iterators are constant
  using iterator = typename base::const_iterator;
  template <typename K>
  const typename base::value_type* has(const K& k) const
  {
    auto it = this->find(k);
    return it == this->end() ? nullptr : &*it;
  }
};
template <typename Container, typename Compare = std::less<void>>
class flat_multiset
    : public detail::flat_base<
          Container, typename Container::value_type, Compare, detail::identity_key, true>
{
  using base = detail::flat_base<
      Container, typename Container::value_type, Compare, detail::identity_key, true>;

public:
  using base::base;
};
template <typename Container, typename Compare = std::less<void>>
class flat_map
    : public detail::flat_base<
          Container, decltype(Container::value_type::first), Compare, detail::first_key, false>
{
  using base = detail::flat_base<
      Container, decltype(Container::value_type::first), Compare, detail::first_key, false>;

public:
  using mapped_type = decltype(Container::value_type::second);
  using typename base::value_type;
  using base::base;
  template <typename K>
  mapped_type& operator[](const K& k)
  {
    auto it = this->lower_bound(k);
    if (it == this->end() || this->m_cmp(k, it->first))
      it = this->container.insert(it, value_type{typename base::key_type(k), mapped_type{}});
    return it->second;
  }
  template <typename K>
  mapped_type& at(const K& k)
  {
    auto it = this->find(k);
    if (it == this->end())
      throw std::out_of_range("flat_map::at");
    return it->second;
  }
  template <typename K>
  const mapped_type& at(const K& k) const
  {
    auto it = this->find(k);
    if (it == this->end())
      throw std::out_of_range("flat_map::at");
    return it->second;
  }
  template <typename K>
  mapped_type* has(const K& k)
  {
    auto it = this->find(k);
    return it == this->end() ? nullptr : &it->second;
  }
  template <typename K>
  const mapped_type* has(const K& k) const
  {
    auto it = this->find(k);
    return it == this->end() ? nullptr : &it->second;
  }
  template <typename K, typename V>
  auto insert_or_assign(const K& k, V&& v)
  {
    auto it = this->lower_bound(k);
    if (it != this->end() && !this->m_cmp(k, it->first))
    {
      it->second = std::forward<V>(v);
      return std::make_pair(it, false);
    }
    it = this->container.insert(
        it, value_type{typename base::key_type(k), mapped_type(std::forward<V>(v))});
    return std::make_pair(it, true);
  }
  template <typename K, typename... V>
  auto try_emplace(const K& k, V&&... v)
  {
    auto it = this->lower_bound(k);
    if (it != this->end() && !this->m_cmp(k, it->first))
      return std::make_pair(it, false);
    it = this->container.insert(
        it, value_type{typename base::key_type(k), mapped_type(std::forward<V>(v)...)});
    return std::make_pair(it, true);
  }
};
template <typename Container, typename Compare = std::less<void>>
class flat_multimap
    : public detail::flat_base<
          Container, decltype(Container::value_type::first), Compare, detail::first_key, true>
{
  using base = detail::flat_base<
      Container, decltype(Container::value_type::first), Compare, detail::first_key, true>;

public:
  using mapped_type = decltype(Container::value_type::second);
  using base::base;
};

template <typename K, typename V, typename C = std::less<void>>
using vector_map = flat_map<std::vector<std::pair<K, V>>, C>;
template <typename K, typename V, typename C = std::less<void>>
using vector_multimap = flat_multimap<std::vector<std::pair<K, V>>, C>;
template <typename K, typename C = std::less<void>>
using vector_set = flat_set<std::vector<K>, C>;
template <typename K, typename C = std::less<void>>
using vector_multiset = flat_multiset<std::vector<K>, C>;
}
