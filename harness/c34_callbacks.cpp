// C34: callback lists call exactly the callbacks registered, also across threads.
#include "vf.hpp"

#include <ossia/detail/callback_container.hpp>

#include <algorithm>
#include <atomic>
#include <functional>
#include <list>
#include <thread>

// out of line in the library
ossia::invalid_callback_error::~invalid_callback_error() = default;

const char* const vf::rule
    = "histories of adding, removing, replacing, disabling callbacks, clearing, copying "
      "and sending, on one thread and on three; non-trivial: three or more edits";

struct list_t : ossia::callback_container<std::function<void(int, std::string)>>
{
  int first{}, last{};
  std::size_t size_at_last{};
  void on_first_callback_added() override { first++; }
  void on_removing_last_callback() override { last++; }
};

VF_PROP(histories, 40000, 500000)
{
  list_t l;
  struct E
  {
    int id;
    list_t::iterator it;
    bool off{};
  };
  std::list<E> m; // in calling order
  std::vector<int> called;
  int next = 0, first = 0, last = 0, edits = 0;
  auto mk = [&](int id, int want, const std::string& ws) { (void)want, (void)ws; return id; };
  (void)mk;
  int want_arg = 0;
  std::string want_str;
  auto fn = [&](int id) {
    return [&, id](int a, const std::string& s) {
      if (a != want_arg || s != want_str)
        VF_FAIL("callback " << id << " received " << a << " '" << s << "'");
      called.push_back(id);
    };
  };
  auto send = [&](list_t& to, const std::string& what) {
    called.clear();
    want_arg = c.i32();
    want_str = c.str(20);
    if (c.coin())
      to.send(want_arg, want_str);
    else
    {
      // a temporary reaches every callback
      to.send(want_arg, std::string(want_str));
    }
    std::vector<int> w;
    for (auto& e : m)
      if (!e.off)
        w.push_back(e.id);
    std::sort(w.begin(), w.end());
    auto g = called;
    std::sort(g.begin(), g.end());
    if (g != w)
    {
      std::string a, b;
      for (int x : g)
        a += std::to_string(x) + " ";
      for (int x : w)
        b += std::to_string(x) + " ";
      VF_FAIL(what << " called [ " << a << "], registered [ " << b << "]");
    }
  };
  for (int n = 0; c.more(n, 40, 15); n++)
  {
    switch (c.draw(8))
    {
      case 0:
      case 1:
      case 2: {
        const int id = next++;
        VF_NOTE("add " << id);
        if (m.empty())
          first++;
        m.push_front(E{id, l.add_callback(fn(id))});
        edits++;
        break;
      }
      case 3: {
        if (m.empty())
          break;
        auto it = std::next(m.begin(), c.draw(m.size()));
        VF_NOTE("remove " << it->id);
        if (m.size() == 1)
          last++;
        l.remove_callback(it->it);
        m.erase(it);
        edits++;
        break;
      }
      case 4: {
        if (m.empty())
          break;
        auto it = std::next(m.begin(), c.draw(m.size()));
        const int id = next++;
        VF_NOTE("replace " << it->id << " by " << id);
        l.replace_callback(it->it, fn(id));
        it->id = id;
        edits++;
        break;
      }
      case 5: {
        if (m.empty())
          break;
        auto it = std::next(m.begin(), c.draw(m.size()));
        VF_NOTE("disable " << it->id << " for one send");
        {
          auto guard = l.disable_callback(it->it);
          it->off = true;
          send(l, "sending with one callback disabled");
          if (c.chance(1, 3))
          {
            const int id = next++;
            VF_NOTE("  add " << id << " meanwhile");
            auto at = l.add_callback(fn(id));
            m.push_front(E{id, at});
          }
        }
        it->off = false;
        edits++;
        break;
      }
      case 6: {
        bool threw = false;
        try
        {
          l.add_callback({});
        }
        catch (const std::exception&)
        {
          threw = true;
        }
        VF_CHECK(threw, "an empty callback was accepted");
        break;
      }
      default:
        if (c.chance(1, 6))
        {
          VF_NOTE("clear");
          if (!m.empty())
            last++;
          l.callbacks_clear();
          m.clear();
          edits++;
        }
        else if (c.chance(1, 4))
        {
          VF_NOTE("copy");
          list_t cp{l};
          send(cp, "sending through a copy");
          list_t as;
          as.add_callback([](int, const std::string&) { VF_FAIL("replaced callback called"); });
          as = l;
          send(as, "sending through an assigned copy");
          list_t mv{std::move(cp)};
          send(mv, "sending through a moved copy");
          list_t ma;
          ma.add_callback([](int, const std::string&) { VF_FAIL("replaced callback called"); });
          ma = std::move(mv);
          send(ma, "sending through a move-assigned copy");
        }
    }
    VF_CHECK(l.callback_count() == m.size(), l.callback_count() << " callbacks, expected " << m.size());
    VF_CHECK(l.callbacks_empty() == m.empty(), "callbacks_empty");
    VF_CHECK(l.first == first, "on_first_callback_added " << l.first << " times, expected " << first);
    VF_CHECK(l.last == last, "on_removing_last_callback " << l.last << " times, expected " << last);
    send(l, "sending");
  }
  c.nontrivial(edits >= 3);
}

// Several threads: each send sees a list as it was between two edits; a callback is
// never running or called once removing it returned.
VF_PROP_SCHED(threads, 1500, 20000, 50)
{
  ossia::callback_container<std::function<void(int)>> l;
  const int nsend = (int)c.range(5, 60), nedit = (int)c.range(5, 40);
  const int fixed = (int)c.range(0, 3);
  c.nontrivial(nedit >= 3);
  struct S
  {
    std::atomic<int> calls{0};
    std::atomic<bool> live{true};
  };
  std::list<S> st;
  std::atomic<int> bad{0};
  for (int i = 0; i < fixed; i++)
  {
    auto& s = st.emplace_back();
    l.add_callback([&s](int) { s.calls++; });
  }
  std::vector<uint64_t> script[2];
  for (auto& s : script)
    for (int i = 0; i < nedit; i++)
      s.push_back(c.draw(1000));
  std::atomic<int> sent{0};
  std::thread sender([&] {
    for (int i = 0; i < nsend; i++)
    {
      l.send(i);
      sent++;
    }
  });
  auto editor = [&](int k) {
    std::list<S> mine;
    std::vector<std::pair<S*, decltype(l)::iterator>> at;
    for (auto op : script[k])
    {
      if (op % 5 < 3 || at.empty())
      {
        auto& s = mine.emplace_back();
        at.push_back({&s, l.add_callback([&s, &bad](int) {
                        if (!s.live)
                          bad++;
                        s.calls++;
                      })});
      }
      else
      {
        auto& e = at[(op / 5) % at.size()];
        l.remove_callback(e.second);
        e.first->live = false;
        at.erase(at.begin() + (op / 5) % at.size());
      }
    }
    for (auto& e : at)
    {
      l.remove_callback(e.second);
      e.first->live = false;
    }
    std::this_thread::yield();
  };
  std::list<S> keep;
  std::thread e1([&] { editor(0); }), e2([&] { editor(1); });
  e1.join();
  e2.join();
  sender.join();
  VF_CHECK(bad == 0, "a callback ran after it was removed");
  VF_CHECK(l.callback_count() == (std::size_t)fixed, l.callback_count() << " callbacks left of " << fixed);
  for (auto& s : st)
    VF_CHECK(s.calls == nsend, "a callback was called " << s.calls << " times for " << nsend << " events");
}
