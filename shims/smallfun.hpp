// Stand-in for the SmallFunction submodule.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace smallfun
{
enum Methods
{
  Move,
  Copy,
  Both
};
template <typename Sig, std::size_t Size = 128, std::size_t Align = 16, Methods M = Methods::Both>
class function;
template <typename R, typename... Xs, std::size_t Size, std::size_t Align, Methods M>
class function<R(Xs...), Size, Align, M>
{
  std::function<R(Xs...)> m_f;

public:
  function() = default;
  function(std::nullptr_t) {}
  template <
      typename F, typename D = std::decay_t<F>,
      typename = std::enable_if_t<
          !std::is_same_v<D, function> && std::is_invocable_r_v<R, D&, Xs...>>>
  function(F&& f)
  {
    if constexpr (std::is_copy_constructible_v<D>)
      m_f = std::forward<F>(f);
    else
    {
      auto p = std::make_shared<D>(std::forward<F>(f));
      m_f = [p](Xs... xs) -> R { return (*p)(std::forward<Xs>(xs)...); };
    }
  }
  R operator()(Xs... xs) const { return m_f(std::forward<Xs>(xs)...); }
  explicit operator bool() const { return bool(m_f); }
  bool allocated() const { return bool(m_f); }
  void swap(function& o) { m_f.swap(o.m_f); }
};
}
