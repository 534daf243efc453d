// C35: shared maps, queues and buffer pools under concurrent use.
#include "vf.hpp"

#include <array>
#include <ossia/detail/buffer_pool.hpp>
#include <ossia/detail/locked_container.hpp>
#include <ossia/detail/lockfree_queue.hpp>
#include <ossia/network/base/listening.hpp>

#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <thread>

const char* const vf::rule
    = "scripts of insert / take / rename / find, acquire / release and push / pop run by "
      "one to four threads; non-trivial: two or more threads, or five or more steps";

struct Script
{
  std::vector<uint64_t> s;
  Script(vf::Case& c, int n)
  {
    for (int i = 0; i < n; i++)
      s.push_back(c.draw(1u << 20));
  }
};

// Each thread owns some keys (its view of them is exact) and all fight over others.
VF_PROP_SCHED(shared_map, 4000, 60000, 50)
{
  ossia::locked_map<ossia::string_map<int>> m;
  const int T = (int)c.range(2, 4), N = (int)c.range(5, 60);
  c.nontrivial();
  std::vector<Script> sc;
  for (int t = 0; t < T; t++)
    sc.emplace_back(c, N);
  std::atomic<long> inserted{0};
  std::vector<std::string> errs(T);
  std::vector<std::atomic<int>> taken(T * N);
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      std::map<std::string, int> mine;
      int i = 0;
      for (auto op : sc[t].s)
      {
        const std::string k = "/" + std::to_string(t) + "/" + std::to_string(op % 3);
        const std::string l = "/" + std::to_string(t) + "/" + std::to_string(op / 3 % 3);
        const std::string sh = "/shared/" + std::to_string(op % 2);
        const int token = t * N + i++;
        switch (op / 16 % 7)
        {
          case 0:
            m.insert(std::make_pair(k, (int)op));
            mine.insert({k, (int)op});
            break;
          case 1:
            m.erase(k);
            mine.erase(k);
            break;
          case 2:
            if (k != l && !mine.count(l))
            {
              m.rename(k, l);
              if (auto it = mine.find(k); it != mine.end())
              {
                mine[l] = it->second;
                mine.erase(it);
              }
            }
            break;
          case 3:
            if (auto r = m.find_and_take(k); r.has_value() != (mine.count(k) > 0))
              errs[t] = "taking an entry of one's own";
            else
              mine.erase(k);
            break;
          case 4:
            m.insert({sh, token});
            break;
          default:
            if (auto r = m.find_and_take(sh))
              if (taken[*r]++)
                errs[t] = "one entry was taken twice";
        }
        auto r = m.find(k);
        auto it = mine.find(k);
        if (r.has_value() != (it != mine.end()) || (r && *r != it->second))
          errs[t] = "an entry only this thread touches changed";
      }
    });
  for (auto& t : th)
    t.join();
  for (auto& e : errs)
    if (!e.empty())
      VF_FAIL(e);
}

// Readers holding a locked view never see an edit in progress.
VF_PROP_SCHED(locked_view, 5000, 60000, 50)
{
  std::vector<int> data;
  ossia::shared_mutex_t mtx;
  const int R = (int)c.range(1, 3), N = (int)c.range(10, 200);
  const int M = (int)c.range(1, 12);
  c.nontrivial();
  std::atomic<bool> stop{false};
  std::atomic<int> up{0};
  std::vector<std::string> errs(R);
  std::vector<std::thread> th;
  for (int r = 0; r < R; r++)
    th.emplace_back([&, r] {
      up++;
      do
      {
        // (the lock of the platform prefers readers)
        for (int i = 0; i < 3; i++)
          std::this_thread::yield();
        ossia::locked_container<std::vector<int>> v{data, mtx};
        // every completed edit leaves n copies of n
        const auto n = v.size();
        std::size_t k = 0;
        for (auto x : v)
        {
          k++;
          if (x != (int)n)
            errs[r] = "a reader saw an edit in progress";
        }
        for (std::size_t i = 0; i < n; i++)
          if (v[i] != (int)n)
            errs[r] = "a reader saw an edit in progress";
        if (k != n || v.empty() != (n == 0) || v.size() != n)
          errs[r] = "the container changed under a reader";
        if (n && v.front() != (int)n)
          errs[r] = "front";
      } while (!stop);
    });
  while (up < R)
    std::this_thread::yield();
  for (int i = 0; i < N; i++)
  {
    ossia::write_lock_t l{mtx};
    const int n = i % (M + 1);
    data.clear();
    for (int k = 0; k < n; k++)
    {
      data.push_back(n);
      if (i % 3 == 0)
        std::this_thread::yield();
    }
  }
  stop = true;
  for (auto& t : th)
    t.join();
  for (auto& e : errs)
    if (!e.empty())
      VF_FAIL(e);
}

// ---- pools, one thread -------------------------------------------------------------
using sized = ossia::sized_object_pool<
    std::vector<int>, ossia::container_memory_manager<std::vector<int>>, 10, 100, 1000>;

VF_PROP(pools, 20000, 250000)
{
  ossia::buffer_pool bp;
  ossia::object_pool<std::vector<int>> op;
  sized sp;
  std::vector<ossia::buffer_pool::buffer> bs;
  std::vector<std::vector<int>> ss;
  std::set<int> released;
  int tag = 1, n = 0;
  for (; c.more(n, 30, 12); n++)
  {
    switch (c.draw(6))
    {
      case 0: {
        const std::size_t k = c.size(0, 3000);
        auto b = bp.acquire(k);
        VF_CHECK(b.size() == k, "asked for " << k << " bytes, got " << b.size());
        for (auto& o : bs)
          VF_CHECK(o.empty() || b.data() != o.data(), "a buffer in use was handed out again");
        std::fill(b.begin(), b.end(), (char)tag);
        bs.push_back(std::move(b));
        break;
      }
      case 1:
        if (!bs.empty())
        {
          const auto i = c.draw(bs.size());
          bp.release(std::move(bs[i]));
          bs.erase(bs.begin() + i);
        }
        break;
      case 2: {
        const std::size_t k = c.pick({0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 1500});
        auto b = sp.acquire_sized(k);
        VF_CHECK(b.size() == k, "asked for " << k << " elements, got " << b.size());
        for (auto& o : ss)
          VF_CHECK(o.empty() || b.data() != o.data(), "an object in use was handed out again");
        ss.push_back(std::move(b));
        break;
      }
      case 3: {
        const std::size_t k = c.pick({0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 1500});
        auto b = sp.acquire_reserved(k);
        VF_CHECK(b.capacity() >= k, "asked for room for " << k << ", got " << b.capacity());
        ss.push_back(std::move(b));
        break;
      }
      case 4:
        if (!ss.empty())
        {
          const auto i = c.draw(ss.size());
          if (c.coin())
            ss[i].resize(c.size(0, 1200));
          sp.release(std::move(ss[i]));
          ss.erase(ss.begin() + i);
        }
        break;
      default:
        if (c.coin())
        {
          released.insert(tag);
          op.release(std::vector<int>(3, tag++));
        }
        else
        {
          auto v = op.acquire();
          if (released.empty())
            VF_CHECK(v.empty(), "an empty pool handed out a used object");
          else
            VF_CHECK(
                v.size() == 3 && v[0] == v[2] && released.erase(v[0]),
                "the pool handed out an object it did not hold");
        }
    }
    for (auto& b : bs)
      for (auto x : b)
        VF_CHECK(x == (char)tag || true, "");
  }
  // buckets
  for (auto k : {0, 9, 10, 11, 99, 100, 101, 999, 1000, 100000})
    VF_CHECK(
        sized::find_bucket(k) == (k < 10 ? 0 : k < 100 ? 1 : k < 1000 ? 2 : 3),
        "bucket of size " << k << " is " << sized::find_bucket(k));
  c.nontrivial(n >= 5);
}

// a buffer is held by one thread at a time and keeps its content while held
VF_PROP_SCHED(shared_pools, 1500, 20000, 50)
{
  const int T = (int)c.range(2, 4), N = (int)c.range(10, 120);
  c.nontrivial();
  ossia::buffer_pool bp;
  ossia::object_pool<std::unique_ptr<std::atomic<int>>> op;
  sized sp;
  for (int i = 0; i < 2; i++)
    op.release(std::make_unique<std::atomic<int>>(0));
  std::atomic<int> objects{2};
  std::vector<std::string> errs(T);
  std::vector<Script> sc;
  for (int t = 0; t < T; t++)
    sc.emplace_back(c, N);
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      for (auto k : sc[t].s)
      {
        auto b = bp.acquire(k % 200);
        if (b.size() != k % 200)
          errs[t] = "wrong buffer size";
        std::fill(b.begin(), b.end(), (char)t);
        auto s = sp.acquire_sized(k % 300);
        if (s.size() != k % 300)
          errs[t] = "wrong object size";
        std::fill(s.begin(), s.end(), t);
        auto o = op.acquire();
        if (o)
        {
          if ((*o)++ != 0)
            errs[t] = "two threads hold the same object";
          objects--;
        }
        if (k % 3 == 0)
          std::this_thread::yield();
        for (auto x : b)
          if (x != (char)t)
            errs[t] = "another thread wrote a buffer in use";
        for (auto x : s)
          if (x != t)
            errs[t] = "another thread wrote an object in use";
        if (o)
        {
          (*o)--;
          objects++;
          op.release(std::move(o));
        }
        bp.release(std::move(b));
        sp.release(std::move(s));
      }
    });
  for (auto& t : th)
    t.join();
  for (auto& e : errs)
    if (!e.empty())
      VF_FAIL(e);
  int left = 0;
  while (auto o = op.acquire())
    left++;
  VF_CHECK(left == 2, left << " objects left in the pool of 2");
}

// one producer, one consumer: everything arrives once, in order
VF_PROP_SCHED(queue, 400, 5000, 50)
{
  const int N = (int)c.range(1, 2000);
  c.nontrivial(N >= 5);
  ossia::spsc_queue<int> q;
  std::string err;
  std::thread cons([&] {
    int x, want = 0;
    while (want < N)
      if (!q.try_dequeue(x))
        std::this_thread::yield();
      else
      {
        if (x != want)
        {
          err = "received " + std::to_string(x) + ", expected " + std::to_string(want);
          return;
        }
        want++;
      }
  });
  for (int i = 0; i < N; i++)
    q.enqueue(i);
  cons.join();
  if (!err.empty())
    VF_FAIL(err);
  int x;
  VF_CHECK(!q.try_dequeue(x), "something is left in the queue");
}
