// Stand-in for the eggs-cpp/variant submodule (absent in this sandbox):
// the part of its interface that libossia uses, on top of std::variant.
#pragma once
#include <cstddef>
#include <exception>
#include <functional>
#include <type_traits>
#include <utility>
#include <variant>

namespace eggs
{
namespace variants
{
struct bad_variant_access : std::exception
{
  const char* what() const noexcept override { return "bad_variant_access"; }
};

template <typename T>
using in_place_t = std::in_place_type_t<T>;
template <typename T>
inline constexpr std::in_place_type_t<T> in_place{};

template <typename... Ts>
class variant;

template <std::size_t I, typename V>
struct variant_element;
template <std::size_t I, typename... Ts>
struct variant_element<I, variant<Ts...>>
{
  using type = std::variant_alternative_t<I, std::variant<Ts...>>;
};
template <std::size_t I, typename V>
struct variant_element<I, const V>
{
  using type = std::add_const_t<typename variant_element<I, V>::type>;
};

template <typename V>
struct variant_size;
template <typename... Ts>
struct variant_size<variant<Ts...>>
    : std::integral_constant<std::size_t, sizeof...(Ts)>
{
};

namespace detail
{
template <std::size_t I, typename T>
struct ovl_one
{
  std::integral_constant<std::size_t, I> operator()(T) const;
};
template <typename Seq, typename... Ts>
struct ovl_all;
template <std::size_t... Is, typename... Ts>
struct ovl_all<std::index_sequence<Is...>, Ts...> : ovl_one<Is, Ts>...
{
  using ovl_one<Is, Ts>::operator()...;
};
template <typename U, typename... Ts>
using best_match = decltype(
    std::declval<ovl_all<std::index_sequence_for<Ts...>, Ts...>>()(
        std::declval<U>()));

template <typename T, typename... Ts>
constexpr std::size_t index_of()
{
  constexpr bool m[] = {std::is_same_v<T, Ts>...};
  for (std::size_t i = 0; i < sizeof...(Ts); i++)
    if (m[i])
      return i;
  return std::size_t(-1);
}
}

template <typename... Ts>
class variant
{
public:
  using impl_t = std::variant<std::monostate, Ts...>;
  static constexpr std::size_t npos = std::size_t(-1);

  constexpr variant() noexcept = default;
  variant(const variant&) = default;
  variant(variant&&) = default;
  variant& operator=(const variant&) = default;
  variant& operator=(variant&&) = default;

  template <
      typename U, typename D = std::decay_t<U>,
      typename = std::enable_if_t<!std::is_same_v<D, variant>>,
      std::size_t I = detail::best_match<U&&, Ts...>::value>
  variant(U&& u) : m_impl(std::in_place_index<I + 1>, std::forward<U>(u))
  {
  }

  template <typename T, typename... Args>
  explicit variant(std::in_place_type_t<T>, Args&&... args)
      : m_impl(
          std::in_place_index<detail::index_of<T, Ts...>() + 1>,
          std::forward<Args>(args)...)
  {
  }

  template <
      typename U, typename D = std::decay_t<U>,
      typename = std::enable_if_t<!std::is_same_v<D, variant>>,
      std::size_t I = detail::best_match<U&&, Ts...>::value>
  variant& operator=(U&& u)
  {
    if (m_impl.index() == I + 1)
      std::get<I + 1>(m_impl) = std::forward<U>(u);
    else
      m_impl.template emplace<I + 1>(std::forward<U>(u));
    return *this;
  }

  template <typename T, typename... Args>
  T& emplace(Args&&... args)
  {
    return m_impl.template emplace<detail::index_of<T, Ts...>() + 1>(
        std::forward<Args>(args)...);
  }
  template <std::size_t I, typename... Args>
  auto& emplace(Args&&... args)
  {
    return m_impl.template emplace<I + 1>(std::forward<Args>(args)...);
  }

  std::size_t which() const noexcept
  {
    const auto i = m_impl.index();
    return (i == 0 || i == std::variant_npos) ? npos : i - 1;
  }
  explicit operator bool() const noexcept { return which() != npos; }

  const std::type_info& target_type() const noexcept
  {
    return std::visit([](const auto& v) -> const std::type_info& {
      return typeid(v);
    }, m_impl);
  }

  template <typename T>
  T* target() noexcept
  {
    return std::get_if<detail::index_of<T, Ts...>() + 1>(&m_impl);
  }
  template <typename T>
  const T* target() const noexcept
  {
    return std::get_if<
        detail::index_of<std::remove_const_t<T>, Ts...>() + 1>(&m_impl);
  }
  void* target() noexcept
  {
    return std::visit([](auto& v) -> void* { return (void*)&v; }, m_impl);
  }

  const void* target() const noexcept
  {
    return std::visit([](auto& v) -> const void* { return (const void*)&v; }, m_impl);
  }

  void swap(variant& o) { m_impl.swap(o.m_impl); }

  impl_t m_impl;
};

// templates, so that a user-provided non-template operator wins (as upstream)
template <typename... Ts>
bool operator==(const variant<Ts...>& a, const variant<Ts...>& b)
{
  return a.m_impl == b.m_impl;
}
template <typename... Ts>
bool operator!=(const variant<Ts...>& a, const variant<Ts...>& b)
{
  return !(a == b);
}

template <
    typename T, typename... Ts,
    typename = std::enable_if_t<(std::is_same_v<T, Ts> || ...)>>
bool operator==(const variant<Ts...>& a, const T& b)
{
  auto p = a.template target<T>();
  return p && *p == b;
}

template <std::size_t I, typename... Ts>
auto& get(variant<Ts...>& v)
{
  if (auto p = std::get_if<I + 1>(&v.m_impl))
    return *p;
  throw bad_variant_access{};
}
template <std::size_t I, typename... Ts>
const auto& get(const variant<Ts...>& v)
{
  if (auto p = std::get_if<I + 1>(&v.m_impl))
    return *p;
  throw bad_variant_access{};
}
template <std::size_t I, typename... Ts>
auto&& get(variant<Ts...>&& v)
{
  return std::move(get<I>(v));
}
template <typename T, typename... Ts>
T& get(variant<Ts...>& v)
{
  return get<detail::index_of<T, Ts...>()>(v);
}
template <typename T, typename... Ts>
const T& get(const variant<Ts...>& v)
{
  return get<detail::index_of<T, Ts...>()>(v);
}
template <typename T, typename... Ts>
T&& get(variant<Ts...>&& v)
{
  return std::move(get<detail::index_of<T, Ts...>()>(v));
}

namespace detail
{
template <typename V>
struct first_alt;
template <typename T, typename... Ts>
struct first_alt<variant<T, Ts...>>
{
  using type = T;
};
template <typename V>
using alt_ref = std::conditional_t<
    std::is_lvalue_reference_v<V>,
    std::conditional_t<
        std::is_const_v<std::remove_reference_t<V>>,
        const typename first_alt<std::decay_t<V>>::type&,
        typename first_alt<std::decay_t<V>>::type&>,
    typename first_alt<std::decay_t<V>>::type&&>;
}

template <typename F, typename... Vs>
auto apply(F&& f, Vs&&... vs)
    -> decltype(std::forward<F>(f)(std::declval<detail::alt_ref<Vs&&>>()...))
{
  using R
      = decltype(std::forward<F>(f)(std::declval<detail::alt_ref<Vs&&>>()...));
  return std::visit(
      [&](auto&&... x) -> R {
        if constexpr ((std::is_same_v<
                           std::decay_t<decltype(x)>, std::monostate> || ...))
          throw bad_variant_access{};
        else
          return std::forward<F>(f)(std::forward<decltype(x)>(x)...);
      },
      std::forward<Vs>(vs).m_impl...);
}

template <typename R, typename F, typename... Vs>
R apply(F&& f, Vs&&... vs)
{
  return std::visit(
      [&](auto&&... x) -> R {
        if constexpr ((std::is_same_v<
                           std::decay_t<decltype(x)>, std::monostate> || ...))
          throw bad_variant_access{};
        else
          return std::forward<F>(f)(std::forward<decltype(x)>(x)...);
      },
      std::forward<Vs>(vs).m_impl...);
}
}
using variants::variant;
}
