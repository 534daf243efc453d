// Stand-in for the nano-signal-slot submodule.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstring>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
namespace Nano
{
class Observer;
struct signal_base
{
  virtual void remove_observer(Observer* o) = 0;
  virtual ~signal_base() = default;
};

class Observer
{
  template <typename>
  friend class Signal;
  std::vector<signal_base*> m_signals;

public:
  Observer() = default;
  Observer(const Observer&) {}
  Observer& operator=(const Observer&) { return *this; }

protected:
  void removeAll()
  {
    auto s = std::move(m_signals);
    m_signals.clear();
    for (auto* p : s)
      p->remove_observer(this);
  }
  ~Observer() { removeAll(); }
};

template <typename Sig>
class Signal;

template <typename R, typename... Args>
class Signal<R(Args...)> : public signal_base
{
  struct key
  {
    void* inst{};
    std::array<unsigned char, 16> fun{};
    const void* tag{};
    bool operator==(const key& o) const
    {
      return inst == o.inst && fun == o.fun && tag == o.tag;
    }
  };
  struct slot
  {
    key k;
    std::function<R(Args...)> f;
    Observer* obs{};
    bool dead{};
  };
  std::vector<std::shared_ptr<slot>> m_slots;

  template <auto F>
  struct tag_holder
  {
    static inline char t{};
  };

  void add(key k, std::function<R(Args...)> f, Observer* o)
  {
    auto s = std::make_shared<slot>();
    s->k = k;
    s->f = std::move(f);
    s->obs = o;
    if (o)
      o->m_signals.push_back(this);
    m_slots.push_back(std::move(s));
  }
  void rem(const key& k)
  {
    for (auto it = m_slots.begin(); it != m_slots.end(); ++it)
      if ((*it)->k == k)
      {
        (*it)->dead = true;
        if (auto o = (*it)->obs)
        {
          auto p = std::find(o->m_signals.begin(), o->m_signals.end(), this);
          if (p != o->m_signals.end())
            o->m_signals.erase(p);
        }
        m_slots.erase(it);
        return;
      }
  }
  template <typename T>
  static Observer* as_obs(T* t)
  {
    if constexpr (std::is_base_of_v<Observer, T>)
      return static_cast<Observer*>(t);
    else
      return nullptr;
  }

public:
  Signal() = default;
  Signal(const Signal&) = delete;
  Signal& operator=(const Signal&) = delete;
  Signal(Signal&&) = delete;
  Signal& operator=(Signal&&) = delete;
  ~Signal() override { removeAll(); }

  template <auto MemFun, typename T>
  void connect(T* inst)
  {
    add(key{(void*)inst, {}, &tag_holder<MemFun>::t},
        [inst](Args... a) -> R {
          return (inst->*MemFun)(std::forward<Args>(a)...);
        },
        as_obs(inst));
  }
  template <auto MemFun, typename T>
  void connect(T& inst)
  {
    connect<MemFun>(&inst);
  }
  template <auto Fun>
  void connect()
  {
    add(key{nullptr, {}, &tag_holder<Fun>::t},
        [](Args... a) -> R { return Fun(std::forward<Args>(a)...); }, nullptr);
  }
  template <typename L>
  void connect(L* inst)
  {
    add(key{(void*)inst, {}, nullptr},
        [inst](Args... a) -> R { return (*inst)(std::forward<Args>(a)...); },
        nullptr);
  }
  template <typename L>
  void connect(L& inst)
  {
    connect(&inst);
  }
  template <auto MemFun, typename T>
  void disconnect(T* inst)
  {
    rem(key{(void*)inst, {}, &tag_holder<MemFun>::t});
  }
  template <auto MemFun, typename T>
  void disconnect(T& inst)
  {
    disconnect<MemFun>(&inst);
  }
  template <auto Fun>
  void disconnect()
  {
    rem(key{nullptr, {}, &tag_holder<Fun>::t});
  }
  template <typename L>
  void disconnect(L* inst)
  {
    rem(key{(void*)inst, {}, nullptr});
  }
  template <typename L>
  void disconnect(L& inst)
  {
    disconnect(&inst);
  }

  void operator()(Args... a) const
  {
    auto copy = m_slots;
    for (auto& s : copy)
      if (!s->dead)
        s->f(a...);
  }
  void emit(Args... a) const { (*this)(a...); }
  bool empty() const { return m_slots.empty(); }
  bool is_empty() const { return m_slots.empty(); }
  void removeAll()
  {
    for (auto& s : m_slots)
    {
      s->dead = true;
      if (auto o = s->obs)
      {
        auto p = std::find(o->m_signals.begin(), o->m_signals.end(), this);
        if (p != o->m_signals.end())
          o->m_signals.erase(p);
      }
    }
    m_slots.clear();
  }
  void remove_observer(Observer* o) override
  {
    for (auto it = m_slots.begin(); it != m_slots.end();)
      if ((*it)->obs == o)
      {
        (*it)->dead = true;
        it = m_slots.erase(it);
      }
      else
        ++it;
  }
};
}
