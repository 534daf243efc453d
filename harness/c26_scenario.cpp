// C26: the execution of a scenario.
#include "vf.hpp"
#include "scen_world.hpp"

using namespace ossia;
using ex::ev;
using ex::world;
const char* const vf::rule
    = "scenarios of up to eight triggers, conditions and flexible intervals, run with ticks of any "
      "length; non-trivial: at least two intervals ran and the run has a join, a false condition, a "
      "trigger between min and max, or a tick crossing several triggers";

static const int64_t INF = Infinite.impl;

static token_request tok(int64_t a, int64_t b, int64_t off = 0, double speed = 1.)
{
  token_request t{time_value{a}, time_value{b}, Infinite, time_value{off}, speed, {4, 4}, 120.};
  return t;
}

// The pieces of each interval, without the empty ones
struct piece
{
  int64_t a, b, off, tick;
  bool operator==(const piece& o) const { return a == o.a && b == o.b && off == o.off && tick == o.tick; }
};
static std::string show(const std::vector<piece>& v)
{
  std::ostringstream s;
  for(auto& p : v)
    s << "[" << p.a << "->" << p.b << " off " << p.off << " in tick " << p.tick << "] ";
  return s.str();
}

// A run cut in ticks: where each interval and event must be.
static void generate_rigid(vf::Case& c, world& w, int max_syncs, int unit = 1)
{
  const int n = (int)c.range(2, max_syncs);
  std::vector<int64_t> d{0};
  for(int i = 1; i < n; i++)
    d.push_back(unit * c.range(1, 60));
  std::sort(d.begin() + 1, d.end());
  for(int i = 0; i < n; i++)
  {
    w.add_sync();
    w.syncs[i].date = d[i];
    const int ne = (int)c.range(1, 2);
    for(int k = 0; k < ne; k++)
      w.add_event(i);
  }
  for(auto& e : w.events)
    if(c.chance(1, 4))
      *e.cond = false;
  // every event after the start has a predecessor; then some more intervals
  auto link = [&](int to) {
    const int64_t dt = w.syncs[w.events[to].sync].date;
    std::vector<int> from;
    for(std::size_t k = 0; k < w.events.size(); k++)
      if(w.syncs[w.events[k].sync].date < dt)
        from.push_back((int)k);
    const int f = from[c.draw(from.size())];
    int64_t len = dt - w.syncs[w.events[f].sync].date;
    const double speed = c.chance(3, 4) ? 1. : unit == 1 ? double(c.range(2, 4)) : c.pick({0.5, 1.5, 2.});
    len = int64_t(len * speed);
    const int i = w.add_interval(f, to, len, len, len);
    w.itvs[i].p->set_speed(speed);
  };
  for(std::size_t k = 0; k < w.events.size(); k++)
    if(w.events[k].sync != 0)
      link((int)k);
  for(int i = 0; c.more(i, 4, 1.5); i++)
  {
    std::vector<int> to;
    for(std::size_t k = 0; k < w.events.size(); k++)
      if(w.events[k].sync != 0)
        to.push_back((int)k);
    link(to[c.draw(to.size())]);
  }
}

// with consistent fixed durations, everything happens at its date
VF_PROP(rigid, 30000, 400000)
{
  world w;
  const int unit = c.chance(1, 4) ? 2 : 1;
  generate_rigid(c, w, 6, unit);
  VF_NOTE(w.describe());
  // the expected outcome
  std::vector<bool> live(w.events.size()), happens(w.events.size());
  for(std::size_t s = 0; s < w.syncs.size(); s++)
    for(int e : w.syncs[s].events)
    {
      live[e] = s == 0;
      for(int i : w.events[e].prev)
        live[e] = live[e] || happens[w.itvs[i].from];
      happens[e] = live[e] && *w.events[e].cond;
    }
  const int runs = c.chance(1, 3) ? 2 : 1;
  bool crossing = false;
  std::size_t ran = 0;
  const int64_t last = w.syncs.back().date;
  for(int run = 0; run < runs; run++)
  {
    w.log.clear();
    w.clock = 0;
    w.sc->start();
    int64_t now = 0;
    const int64_t off0 = c.coin() ? c.range(0, 30) : 0;
    if(c.coin())
      w.sc->state(tok(0, 0, off0));
    std::vector<std::vector<piece>> expect(w.itvs.size());
    while(now < last + 5)
    {
      const int64_t next = now + unit * (c.chance(1, 5) ? c.range(1, 60) : c.range(1, 9));
      const int64_t off = c.chance(1, 4) ? c.range(0, 30) : 0;
      w.clock++;
      w.sc->state(tok(now, next, off));
      int crossed = 0;
      for(auto& s : w.syncs)
        crossed += s.date > now && s.date < next;
      crossing = crossing || crossed > 1;
      for(std::size_t k = 0; k < w.itvs.size(); k++)
      {
        auto& it = w.itvs[k];
        const int64_t b = w.syncs[w.events[it.from].sync].date, e = w.syncs[w.events[it.to].sync].date;
        const double sp = it.p->get_internal_speed();
        if(happens[it.from])
        {
          const int64_t from = std::max(now, b), to = std::min(next, e);
          if(from < to)
            expect[k].push_back({int64_t(sp * (from - b)), int64_t(sp * (to - b)), off + from - now, w.clock});
          const bool active = b <= next && e > next;
          VF_CHECK(
              it.p->get_date().impl == (active ? int64_t(sp * (next - b)) : 0) && it.p->running() == active,
              "run " << run << " at " << next << ": interval " << k << " is at " << it.p->get_date().impl
                     << (it.p->running() ? " running" : " stopped") << "; it covers " << b << ".." << e
                     << "  [" << w.status() << "]");
        }
        else
          VF_CHECK(
              !it.p->running() && it.p->get_date().impl == 0,
              "run " << run << " at " << next << ": interval " << k << " runs though its start did not happen  ["
                     << w.status() << "]");
      }
      for(std::size_t k = 0; k < w.events.size(); k++)
      {
        auto& e = w.events[k];
        const int64_t d = w.syncs[e.sync].date;
        if(happens[k])
        {
          if(d <= next)
            VF_CHECK(ex::is_happened(*e.p), "run " << run << " at " << next << ": event " << k << " (at " << d << ") did not happen  [" << w.status() << "]");
          else
            VF_CHECK(ex::is_none(*e.p), "run " << run << " at " << next << ": event " << k << " (at " << d << ") is early  [" << w.status() << "]");
        }
        else if(d <= next)
          VF_CHECK(ex::is_disposed(*e.p), "run " << run << " at " << next << ": event " << k << " (at " << d << ", " << (live[k] ? "condition false" : "all its predecessors disposed") << ") is not disposed  [" << w.status() << "]");
        else
          VF_CHECK(!ex::is_happened(*e.p), "run " << run << " at " << next << ": event " << k << " happened  [" << w.status() << "]");
      }
      now = next;
    }
    for(std::size_t k = 0; k < w.itvs.size(); k++)
    {
      std::vector<piece> got;
      int starts = 0;
      for(auto& e : w.log)
      {
        if(e.who != (int)k)
          continue;
        if(e.k == ev::START)
          starts++;
        if(e.k == ev::STATE)
        {
          if(e.tok.prev_date == e.tok.date)
            VF_CHECK(e.tok.date.impl == 0, "an empty token at " << e.tok.date.impl);
          else
            got.push_back({e.tok.prev_date.impl, e.tok.date.impl, e.tok.offset.impl, e.clock});
          VF_CHECK(e.tok.parent_duration.impl == w.itvs[k].nominal, "the duration in the token");
        }
      }
      VF_CHECK(got == expect[k], "run " << run << ": interval " << k << " got " << show(got) << "\n  expected " << show(expect[k]));
      VF_CHECK(starts == happens[w.itvs[k].from], "run " << run << ": interval " << k << " was started " << starts << " times");
      ran += starts;
    }
    // each event changes once
    for(std::size_t k = 0; k < w.events.size(); k++)
    {
      int h = 0, d = 0;
      for(auto& e : w.log)
        if(e.who == ex::EVENT_BASE + (int)k)
          h += e.a == 2, d += e.a == 3;
      VF_CHECK(h == happens[k] && d == !happens[k], "run " << run << ": event " << k << " was said to happen " << h << " times and to be disposed " << d << " times");
    }
    w.sc->stop();
    for(auto& e : w.events)
      VF_CHECK(ex::is_none(*e.p), "after stop: [" << w.status() << "]");
    for(auto& i : w.itvs)
      VF_CHECK(!i.p->running() && i.p->get_date().impl == 0, "after stop: [" << w.status() << "]");
  }
  bool cond = false, join = false;
  for(auto& e : w.events)
    cond = cond || !*e.cond, join = join || e.prev.size() > 1;
  c.label(cond ? "condition" : "");
  c.nontrivial(ran >= 2 && (cond || join || crossing));
}

// A tree of flexible intervals and triggers: an exact model of each tick.
namespace
{
struct tree_model
{
  world& w;
  struct itv
  {
    bool running{};
    int64_t date{};
    std::vector<piece> pieces;
    int starts{};
  };
  std::vector<itv> I;
  std::vector<int> E; // 0 none 1 pending 2 happened 3 disposed
  std::vector<bool> evaluating, requested, fired;
  std::vector<std::vector<int>> signals;
  int64_t dt{}, off{};
  std::vector<int> queue;
  std::vector<int64_t> over;
  explicit tree_model(world& x)
      : w(x)
      , I(x.itvs.size())
      , E(x.events.size())
      , evaluating(x.syncs.size())
      , requested(x.syncs.size())
      , fired(x.syncs.size())
      , signals(x.syncs.size())
      , over(x.syncs.size(), -1)
  {
  }
  int incoming(int s)
  {
    for(int e : w.syncs[s].events)
      for(int i : w.events[e].prev)
        return i;
    return -1;
  }
  void run(int i, int64_t amount, int64_t offset)
  {
    auto& m = I[i];
    const int s = w.events[w.itvs[i].to].sync;
    const int64_t room = w.itvs[i].max == INF ? INF : w.itvs[i].max - m.date;
    const int64_t step = std::min(room, amount);
    if(step > 0)
      m.pieces.push_back({m.date, m.date + step, offset, w.clock});
    m.date += step;
    if(amount > room)
      over[s] = amount - room;
    if(m.date >= w.itvs[i].min)
      queue.push_back(s);
  }
  void dispose(int e)
  {
    E[e] = 3;
    for(int i : w.events[e].prev)
      I[i].running = false, I[i].date = 0;
    for(int i : w.events[e].next)
      dispose(w.itvs[i].to);
  }
  void process(int s)
  {
    const int in = incoming(s);
    const bool max = in >= 0 && I[in].date >= w.itvs[in].max;
    for(int e : w.syncs[s].events)
      if(E[e] == 0)
        E[e] = 1;
    if(!evaluating[s])
    {
      evaluating[s] = true;
      requested[s] = false;
      signals[s].push_back(ex::ENTERED);
    }
    if(w.syncs[s].interactive && !max && !requested[s] && !*w.syncs[s].trigger)
      return;
    requested[s] = false;
    std::vector<int> next;
    fired[s] = true;
    for(int e : w.syncs[s].events)
    {
      if(E[e] != 1)
        continue;
      if(!*w.events[e].cond)
      {
        dispose(e);
        continue;
      }
      E[e] = 2;
      for(int i : w.events[e].prev)
        I[i].running = false, I[i].date = 0;
      for(int i : w.events[e].next)
      {
        I[i].running = true;
        I[i].date = 0;
        I[i].starts++;
        next.push_back(i);
      }
    }
    evaluating[s] = false;
    signals[s].push_back(ex::TRIGGERED);
    signals[s].push_back(max ? ex::FINISHED_MAX : ex::FINISHED);
    if(max && over[s] >= 0)
      for(int i : next)
        run(i, over[s], off + dt - over[s]);
  }
  void tick(int64_t d, int64_t o)
  {
    dt = d, off = o;
    std::fill(over.begin(), over.end(), -1);
    if(!fired[0])
      process(0);
    queue.clear();
    for(std::size_t i = 0; i < I.size(); i++)
      if(I[i].running)
        run((int)i, dt, off);
    while(!queue.empty())
    {
      const int s = queue.front();
      queue.erase(queue.begin());
      process(s);
    }
  }
};
}

VF_PROP(tree, 30000, 400000)
{
  world w;
  const int n = (int)c.range(2, 8);
  bool flexible = false;
  for(int s = 0; s < n; s++)
  {
    w.add_sync(s == 0 ? c.chance(1, 4) : c.chance(1, 2));
    const int ne = (int)c.range(1, 3);
    const int into = s ? (int)c.draw(ne) : -1;
    std::vector<int> from;
    for(std::size_t k = 0; k < w.events.size(); k++)
      from.push_back((int)k);
    for(int k = 0; k < ne; k++)
    {
      const int e = w.add_event(s);
      *w.events[e].cond = !c.chance(1, 6);
      if(k == into)
      {
        int64_t v[3] = {c.range(0, 30), c.range(0, 30), c.range(1, 40)};
        std::sort(v, v + 3);
        if(c.chance(1, 3))
          v[0] = v[1] = v[2];
        if(c.chance(1, 6))
          v[2] = INF;
        if(v[1] == 0)
          v[1] = 1;
        w.add_interval(from[c.draw(from.size())], e, v[1], v[0], v[2]);
        flexible = flexible || v[0] < v[2];
      }
    }
  }
  VF_NOTE(w.describe());
  tree_model m(w);
  w.sc->start();
  int64_t now = 0;
  int fires = 0, multi = 0;
  const int ticks = (int)c.range(3, 25);
  for(int t = 0; t < ticks; t++)
  {
    while(c.chance(1, 2))
    {
      const int s = (int)c.draw(n);
      switch(c.draw(4))
      {
        case 0:
          *w.syncs[s].trigger = !*w.syncs[s].trigger;
          VF_NOTE("trigger of " << s << " is " << *w.syncs[s].trigger);
          break;
        case 1:
          // one trigger request before the evaluation is forgotten
          w.syncs[s].p->start_trigger_request();
          m.requested[s] = true;
          VF_NOTE("request to " << s);
          break;
        case 2: {
          auto& e = w.events[c.draw(w.events.size())];
          *e.cond = !*e.cond;
          break;
        }
        default: break;
      }
      // requests to a root that already happened restart it: see `restart`
      if(m.fired[0])
      {
        w.syncs[0].p->end_trigger_request();
        m.requested[0] = false;
      }
    }
    const int64_t next = now + (c.chance(1, 8) ? c.range(20, 60) : c.range(0, 12));
    const int64_t off = c.chance(1, 4) ? c.range(0, 30) : 0;
    w.clock++;
    w.log.clear();
    for(auto& i : m.I)
      i.pieces.clear(), i.starts = 0;
    for(auto& s : m.signals)
      s.clear();
    auto before = m.fired;
    m.tick(next - now, off);
    w.sc->state(tok(now, next, off));
    VF_NOTE("tick " << now << " -> " << next << ": " << w.status());
    int f = 0;
    for(int s = 0; s < n; s++)
      f += m.fired[s] && !before[s];
    fires += f;
    multi += f > 1;
    for(std::size_t k = 0; k < w.itvs.size(); k++)
    {
      VF_CHECK(
          w.itvs[k].p->get_date().impl == m.I[k].date && w.itvs[k].p->running() == m.I[k].running,
          "interval " << k << " is at " << w.itvs[k].p->get_date().impl << ", expected " << m.I[k].date
                      << (m.I[k].running ? " running" : " stopped"));
      std::vector<piece> got;
      int starts = 0;
      for(auto& e : w.log)
        if(e.who == (int)k)
        {
          starts += e.k == ev::START;
          if(e.k == ev::STATE && e.tok.prev_date != e.tok.date)
            got.push_back({e.tok.prev_date.impl, e.tok.date.impl, e.tok.offset.impl, w.clock});
        }
      VF_CHECK(got == m.I[k].pieces, "interval " << k << " got " << show(got) << "\n  expected " << show(m.I[k].pieces));
      VF_CHECK(starts == m.I[k].starts, "interval " << k << " started " << starts << " times");
    }
    for(std::size_t k = 0; k < w.events.size(); k++)
    {
      auto& e = *w.events[k].p;
      const int got = ex::plain(e.get_status());
      VF_CHECK(got == m.E[k], "event " << k << " is " << got << ", expected " << m.E[k] << " (0 none, 1 pending, 2 happened, 3 disposed)");
    }
    for(int s = 0; s < n; s++)
    {
      std::vector<int> got;
      for(auto& e : w.log)
        if(e.who == ex::SYNC_BASE + s)
          got.push_back((int)e.a);
      std::ostringstream d;
      for(int x : got)
        d << x << " ";
      VF_CHECK(got == m.signals[s], "sync " << s << " signals " << d.str() << "(0 entered, 1 left, 2 triggered, 3 finished at max, 4 finished)");
      VF_CHECK(w.syncs[s].p->is_evaluating() == m.evaluating[s], "sync " << s << " is_evaluating");
    }
    now = next;
  }
  w.sc->stop();
  for(auto& e : w.events)
    VF_CHECK(ex::is_none(*e.p), "after stop: [" << w.status() << "]");
  for(auto& i : w.itvs)
    VF_CHECK(!i.p->running() && i.p->get_date().impl == 0, "after stop: [" << w.status() << "]");
  for(auto& s : w.syncs)
    VF_CHECK(!s.p->is_evaluating(), "a trigger is still evaluating after stop");
  c.nontrivial(fires >= 3 && (flexible || multi));
}

// Any scenario: what must hold of each tick whatever the durations, joins and
// triggers; and stopping puts everything back.
namespace
{
struct general_run
{
  world& w;
  struct itv
  {
    int starts{};
    int64_t date{}; // of the last token
    bool running{};
    bool max{};
  };
  std::vector<itv> I;
  std::vector<int> H, D;
  std::vector<bool> ready; // at the end of the previous tick
  explicit general_run(world& x)
      : w(x)
      , I(x.itvs.size())
      , H(x.events.size())
      , D(x.events.size())
      , ready(x.syncs.size())
  {
  }
  bool resolved(int e) { return H[e] || D[e]; }
  void check(const std::set<int>& requested)
  {
    std::vector<int> finished(w.syncs.size());
    for(auto& e : w.log)
    {
      if(e.who < ex::EVENT_BASE)
      {
        auto& i = I[e.who];
        auto& wi = w.itvs[e.who];
        switch(e.k)
        {
          case ev::START:
            VF_CHECK(!i.running && !i.starts, "interval " << e.who << " is started again");
            i.running = true;
            i.starts++;
            break;
          case ev::STOP: i.running = false; break;
          case ev::STATE:
            VF_CHECK(i.running, "interval " << e.who << " gets a token without being started");
            VF_CHECK(
                e.tok.prev_date.impl == i.date,
                "interval " << e.who << " jumps from " << i.date << " to " << e.tok.prev_date.impl);
            VF_CHECK(e.tok.date >= e.tok.prev_date, "interval " << e.who << " goes back");
            i.date = e.tok.date.impl;
            VF_CHECK(i.date <= wi.max, "interval " << e.who << " goes past its max, to " << i.date);
            break;
          default: break;
        }
      }
      else if(e.who < ex::SYNC_BASE)
      {
        const int id = e.who - ex::EVENT_BASE;
        auto& we = w.events[id];
        if(e.a == 2)
        {
          VF_CHECK(!resolved(id), "event " << id << " happens after having " << (H[id] ? "happened" : "been disposed"));
          VF_CHECK(*we.cond, "event " << id << " happens though its condition is false");
          bool any = we.prev.empty();
          for(int p : we.prev)
          {
            VF_CHECK(resolved(w.itvs[p].from), "event " << id << " happens before the start of interval " << p);
            if(H[w.itvs[p].from])
            {
              any = true;
              VF_CHECK(I[p].date >= w.itvs[p].min, "event " << id << " happens with interval " << p << " at " << I[p].date << ", before its min");
              VF_CHECK(!I[p].running, "interval " << p << " runs after its end");
            }
          }
          VF_CHECK(any, "event " << id << " happens though all its predecessors were disposed");
          H[id]++;
          for(int nx : we.next)
            VF_CHECK(I[nx].starts == 1, "interval " << nx << " is not started by its event");
        }
        else if(e.a == 3)
        {
          VF_CHECK(!resolved(id), "event " << id << " is disposed after having " << (H[id] ? "happened" : "been disposed"));
          D[id]++;
        }
      }
      else if(e.a == ex::FINISHED || e.a == ex::FINISHED_MAX)
      {
        const int s = e.who - ex::SYNC_BASE;
        finished[s]++;
        VF_CHECK(finished[s] == 1, "sync " << s << " triggers twice in a tick");
        bool max = false;
        for(int x : w.syncs[s].events)
          for(int p : w.events[x].prev)
            max = max || (I[p].starts && I[p].date >= w.itvs[p].max);
        if(e.a == ex::FINISHED_MAX)
          VF_CHECK(max, "sync " << s << " says that a max was reached");
        else
        {
          VF_CHECK(!max, "sync " << s << " does not say that a max was reached");
          VF_CHECK(
              !w.syncs[s].interactive || *w.syncs[s].trigger || requested.count(s),
              "sync " << s << " triggers by itself");
        }
      }
    }
    for(std::size_t k = 0; k < w.itvs.size(); k++)
    {
      auto& p = *w.itvs[k].p;
      VF_CHECK(p.running() == I[k].running, "interval " << k << " running");
      VF_CHECK(I[k].running == (H[w.itvs[k].from] && !resolved(w.itvs[k].to)), "interval " << k << (I[k].running ? " runs" : " does not run") << "; its start " << (H[w.itvs[k].from] ? "happened" : "did not happen") << " and its end " << (resolved(w.itvs[k].to) ? "is resolved" : "is not"));
      VF_CHECK(p.get_date().impl == (I[k].running ? I[k].date : 0), "interval " << k << " is at " << p.get_date().impl);
    }
    for(std::size_t k = 0; k < w.events.size(); k++)
    {
      bool all = !w.events[k].prev.empty();
      for(int p : w.events[k].prev)
        all = all && D[w.itvs[p].from];
      VF_CHECK(!all || D[k], "all the predecessors of event " << k << " were disposed, and it is not");
      auto& e = *w.events[k].p;
      VF_CHECK(ex::is_happened(e) == (H[k] == 1) && ex::is_disposed(e) == (D[k] == 1), "status of event " << k);
    }
    // nothing stalls
    for(std::size_t s = 0; s < w.syncs.size(); s++)
    {
      bool unresolved = false;
      for(int e : w.syncs[s].events)
        unresolved = unresolved || !resolved(e);
      bool ok = false, max = false, all = true;
      for(int e : w.syncs[s].events)
      {
        if(resolved(e))
          continue;
        for(int p : w.events[e].prev)
        {
          const int f = w.itvs[p].from;
          if(!resolved(f))
            all = false;
          if(H[f])
          {
            ok = true;
            all = all && I[p].date >= w.itvs[p].min;
            max = max || I[p].date >= w.itvs[p].max;
          }
        }
      }
      const bool go = !w.syncs[s].interactive || *w.syncs[s].trigger || max;
      VF_CHECK(!(unresolved && ok && all && go && ready[s]), "sync " << s << " is stalled: " << w.status());
      ready[s] = unresolved && ok && all;
    }
  }
};
}

static void generate_general(vf::Case& c, world& w)
{
  const int n = (int)c.range(2, 7);
  for(int s = 0; s < n; s++)
  {
    w.add_sync(s == 0 ? c.chance(1, 5) : c.chance(1, 2));
    const int ne = (int)c.range(1, 3);
    for(int k = 0; k < ne; k++)
      *w.events[w.add_event(s)].cond = !c.chance(1, 6);
  }
  auto link = [&](int to) {
    std::vector<int> from;
    for(std::size_t k = 0; k < w.events.size(); k++)
      if(w.events[k].sync < w.events[to].sync)
        from.push_back((int)k);
    int64_t v[3] = {c.range(0, 30), c.range(1, 30), c.range(1, 40)};
    if(c.chance(1, 3))
      v[0] = v[1] = v[2];
    std::sort(v, v + 3);
    if(c.chance(1, 6))
      v[2] = INF;
    const int i = w.add_interval(from[c.draw(from.size())], to, std::max<int64_t>(v[1], 1), v[0], v[2]);
    if(c.chance(1, 5))
      w.itvs[i].p->set_speed(c.range(1, 12) / 4.);
  };
  std::vector<int> to;
  for(std::size_t k = 0; k < w.events.size(); k++)
    if(w.events[k].sync)
    {
      to.push_back((int)k);
      link((int)k);
    }
  for(int i = 0; c.more(i, 5, 2); i++)
    link(to[c.draw(to.size())]);
}

VF_PROP(general, 30000, 400000)
{
  world w;
  generate_general(c, w);
  VF_NOTE(w.describe());
  struct step
  {
    std::vector<int> flip, cond, req;
    int64_t len, off;
  };
  std::vector<step> steps;
  const int ticks = (int)c.range(3, 25);
  for(int t = 0; t < ticks; t++)
  {
    step s;
    while(c.chance(1, 3))
      s.flip.push_back((int)c.draw(w.syncs.size()));
    while(c.chance(1, 6))
      s.cond.push_back((int)c.draw(w.events.size()));
    while(c.chance(1, 6))
      s.req.push_back((int)c.draw(w.syncs.size()));
    s.len = c.chance(1, 8) ? c.range(20, 60) : c.range(0, 12);
    s.off = c.chance(1, 4) ? c.range(0, 30) : 0;
    steps.push_back(s);
  }
  const int runs = c.chance(1, 3) ? 2 : 1;
  std::vector<bool> cond0;
  for(auto& e : w.events)
    cond0.push_back(*e.cond);
  std::vector<ev> first;
  std::size_t done = 0, disposed = 0;
  for(int run = 0; run < runs; run++)
  {
    for(std::size_t k = 0; k < w.events.size(); k++)
      *w.events[k].cond = cond0[k];
    for(auto& s : w.syncs)
      *s.trigger = false;
    w.log.clear();
    w.clock = 0;
    w.sc->start();
    general_run g(w);
    std::vector<ev> all;
    int64_t now = 0;
    std::set<int> req; // asked for, and not yet triggered
    for(auto& s : steps)
    {
      for(int k : s.flip)
        *w.syncs[k].trigger = !*w.syncs[k].trigger;
      for(int k : s.cond)
        *w.events[k].cond = !*w.events[k].cond;
      for(int k : s.req)
        // the start is only asked for while it did not happen
        if(k != 0 || ex::is_none(*w.events[0].p) || ex::is_pending(*w.events[0].p))
        {
          w.syncs[k].p->start_trigger_request();
          req.insert(k);
        }
      w.clock++;
      w.log.clear();
      w.sc->state(tok(now, now + s.len, s.off));
      now += s.len;
      VF_NOTE("run " << run << " to " << now << ": " << w.status());
      g.check(req);
      for(auto& e : w.log)
        if(e.a == ex::FINISHED || e.a == ex::FINISHED_MAX)
          req.erase(e.who - ex::SYNC_BASE);
      all.insert(all.end(), w.log.begin(), w.log.end());
    }
    for(std::size_t k = 0; k < w.events.size(); k++)
      done += g.H[k], disposed += g.D[k];
    w.sc->stop();
    for(auto& e : w.events)
      VF_CHECK(ex::is_none(*e.p), "after stop: [" << w.status() << "]");
    for(auto& i : w.itvs)
      VF_CHECK(!i.p->running() && i.p->get_date().impl == 0, "after stop: [" << w.status() << "]");
    for(auto& s : w.syncs)
    {
      VF_CHECK(!s.p->is_evaluating() && !s.p->is_observing_expression(), "a trigger is still active after stop");
      VF_CHECK(*s.observers == 0, "a trigger still observes its expression after stop");
    }
    if(run == 0)
      first = all;
    else
    {
      std::size_t k = 0;
      while(k < first.size() && k < all.size() && ex::same(first[k], all[k]))
        k++;
      VF_CHECK(
          k == first.size() && k == all.size(),
          "the second run differs at " << k << ": " << (k < all.size() ? ex::show(all[k]) : "end") << " instead of "
                                       << (k < first.size() ? ex::show(first[k]) : "end"));
    }
  }
  c.nontrivial(done >= 3 && (disposed || w.itvs.size() > w.events.size() - w.syncs[0].events.size()));
}

// Several roots: each is triggered by itself; triggering again one that already
// ran stops what follows it, and restarts it if it is auto-triggered.
VF_PROP(roots, 30000, 400000)
{
  world w;
  const int n = (int)c.range(1, 3);
  struct comp
  {
    int root{};
    bool autot{};
    std::vector<int> itvs;
    bool waiting = true, evaluating = false, requested = false;
    int64_t t0 = -1;
  };
  std::vector<comp> C(n);
  for(int k = 0; k < n; k++)
  {
    auto& m = C[k];
    m.root = w.add_sync(true, true);
    m.autot = c.coin();
    w.syncs[m.root].p->set_autotrigger(m.autot);
    VF_CHECK(w.syncs[m.root].p->is_autotrigger() == m.autot && w.syncs[m.root].p->is_start(), "flags of the root");
    int e = w.add_event(m.root);
    const int len = (int)c.range(1, 3);
    for(int i = 0; i < len; i++)
    {
      const int s = w.add_sync();
      const int e2 = w.add_event(s);
      const int64_t d = c.range(1, 30);
      m.itvs.push_back(w.add_interval(e, e2, d, d, d));
      e = e2;
    }
  }
  VF_NOTE(w.describe());
  VF_CHECK((int)w.sc->get_roots().size() == n, "get_roots()");
  w.sc->start();
  int64_t now = 0;
  int restarts = 0, stops = 0;
  const int ticks = (int)c.range(3, 20);
  for(int t = 0; t < ticks; t++)
  {
    for(int k = 0; k < n; k++)
    {
      auto& m = C[k];
      auto& s = w.syncs[m.root];
      if(c.chance(1, 5))
        *s.trigger = !*s.trigger;
      if(c.chance(1, 4))
      {
        s.p->start_trigger_request();
        m.requested = true;
        VF_NOTE("request to root " << m.root);
      }
    }
    const int64_t next = now + (c.chance(1, 8) ? c.range(20, 60) : c.range(1, 12));
    w.clock++;
    w.sc->state(tok(now, next));
    VF_NOTE("tick " << now << " -> " << next << ": " << w.status());
    for(int k = 0; k < n; k++)
    {
      auto& m = C[k];
      auto& s = w.syncs[m.root];
      if(!m.waiting && m.requested)
      {
        m.waiting = true;
        m.t0 = -1;
        stops++;
        if(m.autot)
          m.evaluating = true, restarts++;
      }
      if(m.waiting)
      {
        if(!m.evaluating)
          m.evaluating = true, m.requested = false;
        if(m.requested || *s.trigger)
        {
          m.waiting = false, m.evaluating = false;
          m.t0 = now;
        }
        m.requested = false;
      }
      int64_t b = m.t0;
      VF_CHECK(s.p->is_evaluating() == m.evaluating, "root " << m.root << " is_evaluating");
      VF_CHECK(ex::is_happened(*w.events[s.events[0]].p) == (m.t0 >= 0), "root " << m.root << (m.t0 >= 0 ? " did not happen" : " happened"));
      for(int i : m.itvs)
      {
        auto& it = w.itvs[i];
        const bool active = m.t0 >= 0 && b <= next && next < b + it.max;
        VF_CHECK(
            it.p->running() == active && it.p->get_date().impl == (active ? next - b : 0),
            "interval " << i << " of root " << m.root << " is at " << it.p->get_date().impl
                        << (it.p->running() ? " running" : "") << "; expected "
                        << (active ? std::to_string(next - b) : "stopped"));
        b += it.max;
        const bool ended = m.t0 >= 0 && b <= next;
        VF_CHECK(ex::is_happened(*w.events[it.to].p) == ended, "the end of interval " << i << (ended ? " did not happen" : " happened"));
      }
    }
    now = next;
  }
  c.label(restarts ? "restart" : stops ? "stop" : "");
  c.nontrivial(stops > 0);
}

// An interval with a max whose speed becomes negative goes back to zero and
// stays there.
VF_PROP(backwards, 10000, 100000)
{
  world w;
  w.add_sync();
  w.add_sync(true);
  const int a = w.add_event(0), b = w.add_event(1);
  const int64_t max = c.range(50, 100);
  const bool infinite = false;
  w.add_interval(a, b, 40, 30, infinite ? INF : max);
  auto& it = *w.itvs[0].p;
  w.sc->start();
  int64_t now = 0, date = 0, speed = 1;
  int back = 0;
  for(int i = 0; c.more(i, 20, 10); i++)
  {
    if(c.chance(1, 3))
    {
      speed = c.range(-3, 2);
      it.set_speed(double(speed));
    }
    const int64_t dt = c.range(0, 25);
    const int64_t next = std::clamp<int64_t>(date + speed * dt, 0, max);
    if(next >= max)
      break;
    w.log.clear();
    w.sc->state(tok(now, now + dt));
    now += dt;
    VF_NOTE("speed " << speed << " tick " << dt << ": " << it.get_date().impl);
    VF_CHECK(it.get_date().impl == next, "at " << it.get_date().impl << " from " << date << " with a tick of " << dt << " at speed " << speed);
    for(auto& e : w.log)
      if(e.k == ev::STATE && e.who == 0 && e.tok.date != e.tok.prev_date)
      {
        VF_CHECK(e.tok.prev_date.impl == date, "token from " << e.tok.prev_date.impl);
        date = e.tok.date.impl;
      }
    VF_CHECK(date == next, "the tokens lead to " << date << ", expected " << next);
    back += speed < 0 && dt > 0;
  }
  c.nontrivial(back > 1);
}

// A loop made with an interval that goes back to an earlier trigger.
VF_PROP(graphal, 20000, 200000)
{
  world w;
  for(int i = 0; i < 3; i++)
  {
    w.add_sync();
    w.add_event(i);
  }
  const int64_t a = c.range(1, 30), b = c.range(1, 30), g = c.range(1, 30);
  w.add_interval(0, 1, a, a, a);
  w.add_interval(1, 2, b, b, b);
  w.add_interval(2, 1, g, g, g);
  w.itvs[2].p->graphal = true;
  w.sc->start();
  int64_t now = 0;
  int wraps = 0;
  for(int i = 0; c.more(i, 15, 8); i++)
  {
    const int64_t next = now + (c.chance(1, 6) ? c.range(1, 200) : c.range(1, 20));
    const int64_t off = c.chance(1, 4) ? c.range(0, 30) : 0;
    w.clock++;
    w.log.clear();
    w.sc->state(tok(now, next, off));
    VF_NOTE("tick " << now << " -> " << next << ": " << w.status());
    // expected pieces, in order
    std::vector<std::pair<int, piece>> expect, got;
    int64_t t = now;
    while(t < next)
    {
      int k = 0;
      int64_t d = t, len = a;
      if(t >= a)
      {
        d = (t - a) % (b + g);
        k = 1, len = b;
        if(d >= b)
          k = 2, d -= b, len = g;
      }
      const int64_t step = std::min(next - t, len - d);
      expect.push_back({k, {d, d + step, off + t - now, w.clock}});
      t += step;
      wraps += k == 2 && d + step == g;
    }
    for(auto& e : w.log)
      if(e.k == ev::STATE && e.tok.date != e.tok.prev_date)
        got.push_back({e.who, {e.tok.prev_date.impl, e.tok.date.impl, e.tok.offset.impl, w.clock}});
    bool same = got.size() == expect.size();
    for(std::size_t k = 0; same && k < got.size(); k++)
      same = got[k].first == expect[k].first && got[k].second == expect[k].second;
    if(!same)
    {
      std::string s = "got ";
      for(auto& [k, p] : got)
        s += std::to_string(k) + show({p});
      s += "\n expected ";
      for(auto& [k, p] : expect)
        s += std::to_string(k) + show({p});
      VF_FAIL(s);
    }
    now = next;
  }
  c.nontrivial(wraps > 1);
}

// A trigger with a quantization rate happens one unit before the next bar or
// division, and the time of the tick is shared around that point.
VF_PROP(quantized, 30000, 400000)
{
  world w;
  w.add_sync();
  w.add_sync(true);
  w.add_sync(true);
  for(int i = 0; i < 3; i++)
    w.add_event(i);
  const int64_t Q = 4 * c.range(1, 8); // a quarter note
  const int rate = c.pick({1, 2, 4, 8, 16});
  const int64_t quantum = 4 * Q / rate;
  const int64_t min = c.coin() ? 0 : c.range(1, 5 * Q);
  w.syncs[1].p->set_sync_rate(rate, double(Q));
  VF_CHECK(w.syncs[1].p->get_sync_rate() == rate && w.syncs[1].p->has_sync_rate(), "get_sync_rate()");
  const int64_t max = c.chance(1, 3) ? min + c.range(1, 8 * Q) : INF;
  w.add_interval(0, 1, std::max<int64_t>(min, 1), min, max);
  w.add_interval(1, 2, 1000, 0, INF);
  const double speed = c.chance(2, 3) ? 1. : c.pick({2., 4., 3., 1.25});
  w.itvs[0].p->set_speed(speed);
  std::vector<int64_t> fixed;
  w.syncs[1].p->trigger_date_fixed.add_callback([&](time_value t) { fixed.push_back(t.impl); });
  w.sc->start();
  // the scenario starts somewhere in the musical time of its parent
  const int64_t base = 4 * Q * c.range(0, 2) + c.range(0, 4 * Q - 1);
  int64_t now = 0;
  w.sc->state(tok(0, 0));
  int64_t d0 = 0, d1 = -1;
  bool armed = false, wasReady = min == 0, crossing = false;
  for(int t = 0, N = (int)c.range(2, 30); t < N; t++)
  {
    if(c.chance(1, 4))
      *w.syncs[1].trigger = !*w.syncs[1].trigger;
    const int64_t len = c.range(1, c.coin() ? 4 * Q : Q), next = now + len;
    const int64_t off = c.chance(1, 4) ? c.range(0, 30) : 0;
    auto tk = tok(now, next, off);
    tk.musical_start_position = double(base + now) / Q;
    tk.musical_end_position = double(base + next) / Q;
    tk.musical_start_last_bar = double((base + now) / (4 * Q) * 4);
    tk.musical_end_last_bar = double((base + next) / (4 * Q) * 4);
    w.clock++;
    w.log.clear();
    fixed.clear();
    w.sc->state(tk);
    VF_NOTE("tick " << now << " -> " << next << " trigger " << *w.syncs[1].trigger << ": " << w.status());
    std::vector<piece> e0, e1, g0, g1;
    if(d1 < 0)
    {
      const int64_t q = ((base + now) / quantum + 1) * quantum - base;
      if(wasReady && *w.syncs[1].trigger)
        armed = true;
      bool quantizes = armed && wasReady && q <= next;
      if(quantizes)
        VF_CHECK(
            fixed.size() == 1 && std::abs(fixed[0] - q) <= 1,
            "the date of the trigger was announced as " << (fixed.empty() ? -1 : fixed[0])
                                                        << ", expected " << q);
      // computed in floating point: it can be one unit before
      const int64_t room = quantizes ? std::max<int64_t>(fixed[0] - now - 1, 0) : 0;
      int64_t part = int64_t(room * speed);
      if(max != INF && d0 + part >= max)
        quantizes = false;
      if(!quantizes)
        part = max - d0;
      if(quantizes || (max != INF && std::ceil(len * speed) >= part))
      {
        if(part > 0)
          e0.push_back({d0, d0 + part, off, w.clock});
        d0 = -1;
        d1 = int64_t((speed * len - part) / speed);
        if(d1 > 0)
          e1.push_back({0, d1, off + (len - d1), w.clock});
        crossing = crossing || quantizes;
      }
      else
      {
        const int64_t part = std::ceil(len * speed);
        e0.push_back({d0, d0 + part, off, w.clock});
        d0 += part;
        wasReady = d0 >= min;
        if(wasReady && *w.syncs[1].trigger)
          armed = true;
        VF_CHECK(fixed.empty(), "a date was announced");
      }
    }
    else
    {
      e1.push_back({d1, d1 + len, off, w.clock});
      d1 += len;
    }
    for(auto& e : w.log)
      if(e.k == ev::STATE && e.tok.date != e.tok.prev_date)
        (e.who ? g1 : g0).push_back({e.tok.prev_date.impl, e.tok.date.impl, e.tok.offset.impl, w.clock});
    VF_CHECK(g0 == e0, "first interval: got " << show(g0) << "\n  expected " << show(e0));
    VF_CHECK(g1 == e1, "second interval: got " << show(g1) << "\n  expected " << show(e1));
    VF_CHECK(ex::is_happened(*w.events[1].p) == (d1 >= 0), "the trigger " << (d1 >= 0 ? "did not happen" : "happened"));
    now = next;
  }
  c.nontrivial(crossing);
}
