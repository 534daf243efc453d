// Stand-in for the brigand submodule.
#pragma once
#include <cstddef>
#include <type_traits>
#include <utility>
namespace brigand
{
template <typename... Ts>
struct list
{
};
template <std::size_t N>
using size_t = std::integral_constant<std::size_t, N>;
template <typename T>
struct type_
{
  using type = T;
};

namespace detail
{
template <typename L, template <typename...> class W>
struct wrap_impl;
template <template <typename...> class L, typename... Ts, template <typename...> class W>
struct wrap_impl<L<Ts...>, W>
{
  using type = W<Ts...>;
};
}
template <typename L, template <typename...> class W>
using wrap = typename detail::wrap_impl<L, W>::type;

template <template <typename...> class L, typename... Ts, typename F>
F for_each_args_impl(type_<L<Ts...>>, F f)
{
  (f(type_<Ts>{}), ...);
  return f;
}
template <typename L, typename F>
F for_each(F f)
{
  return for_each_args_impl(type_<L>{}, std::move(f));
}

struct _1
{
};
template <template <typename...> class F, typename... Args>
struct bind
{
};
namespace detail
{
template <typename L, typename B>
struct transform_impl;
template <template <typename...> class L, typename... Ts, template <typename...> class F>
struct transform_impl<L<Ts...>, bind<F, _1>>
{
  using type = L<F<Ts>...>;
};
template <typename Start, typename Seq>
struct make_seq;
template <typename Start, std::size_t... Is>
struct make_seq<Start, std::index_sequence<Is...>>
{
  using type = list<size_t<Start::value + Is>...>;
};
}
template <typename L, typename B>
using transform = typename detail::transform_impl<L, B>::type;
template <typename Start, unsigned N>
using make_sequence =
    typename detail::make_seq<Start, std::make_index_sequence<N>>::type;
struct args
{
};
}
