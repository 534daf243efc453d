// C27: playing a scenario from any date, and in a loop.
#include "vf.hpp"
#include "scen_world.hpp"

using namespace ossia;
using ex::ev;
using ex::world;
const char* const vf::rule
    = "scenarios of up to six dates with joins and conditions, whose durations agree, played from a date or "
      "looped with ticks of any length; non-trivial: something runs at the date, and then something else starts";

static token_request tok(int64_t a, int64_t b, int64_t off = 0, double speed = 1.)
{
  token_request t{time_value{a}, time_value{b}, Infinite, time_value{off}, speed, {4, 4}, 120.};
  return t;
}
namespace
{
// A scenario whose durations agree, of which as many copies as needed can be made
struct spec
{
  std::vector<int64_t> date;
  std::vector<std::pair<int, bool>> events; // sync, condition
  struct itv
  {
    int from, to;
  };
  std::vector<itv> itvs;
  int64_t last() const { return date.back(); }
  int64_t at(int e) const { return date[events[e].first]; }
  void build(world& w) const
  {
    for(auto d : date)
    {
      const int s = w.add_sync();
      w.syncs[s].date = d;
    }
    for(auto& e : events)
    {
      const int k = w.add_event(e.first);
      *w.events[k].cond = e.second;
      w.events[k].p->set_offset_behavior(time_event::offset_behavior::EXPRESSION);
    }
    for(auto& i : itvs)
    {
      const int64_t len = at(i.to) - at(i.from);
      w.add_interval(i.from, i.to, len, len, len);
    }
  }
};
spec gen(vf::Case& c)
{
  spec s;
  const int n = (int)c.range(2, 6);
  s.date.push_back(0);
  for(int i = 1; i < n; i++)
    s.date.push_back(c.range(1, 60));
  std::sort(s.date.begin() + 1, s.date.end());
  for(int i = 0; i < n; i++)
    for(int k = (int)c.range(1, 2); k-- > 0;)
      s.events.push_back({i, !c.chance(1, 5)});
  auto link = [&](int to) {
    std::vector<int> from;
    for(std::size_t k = 0; k < s.events.size(); k++)
      if(s.at((int)k) < s.at(to))
        from.push_back((int)k);
    s.itvs.push_back({from[c.draw(from.size())], to});
  };
  std::vector<int> later;
  for(std::size_t k = 0; k < s.events.size(); k++)
    if(s.events[k].first != 0)
      later.push_back((int)k), link((int)k);
  for(int i = 0; c.more(i, 4, 1.5); i++)
    link(later[c.draw(later.size())]);
  return s;
}
struct piece
{
  int64_t a, b, off;
  bool operator==(const piece& o) const { return a == o.a && b == o.b && off == o.off; }
};
std::string show(const std::vector<piece>& v)
{
  std::ostringstream s;
  for(auto& p : v)
    s << "[" << p.a << "->" << p.b << " off " << p.off << "] ";
  return s.str();
}
// what an interval played since the log was cleared
std::vector<piece> played(const world& w, int k)
{
  std::vector<piece> r;
  for(auto& e : w.log)
    if(e.who == k && e.k == ev::STATE && e.tok.prev_date != e.tok.date)
      r.push_back({e.tok.prev_date.impl, e.tok.date.impl, e.tok.offset.impl});
  return r;
}
// what should happen, from the dates
struct reference
{
  const spec& s;
  std::vector<bool> happens;
  explicit reference(const spec& s)
      : s{s}
      , happens(s.events.size())
  {
    for(std::size_t e = 0; e < s.events.size(); e++)
    {
      bool live = s.events[e].first == 0;
      for(auto& i : s.itvs)
        if(i.to == (int)e)
          live = live || happens[i.from];
      happens[e] = live && s.events[e].second;
    }
  }
  // between two dates in a tick which starts at this place of the buffer
  void play(std::vector<std::vector<piece>>& out, int64_t now, int64_t next, int64_t off) const
  {
    for(std::size_t k = 0; k < s.itvs.size(); k++)
      if(happens[s.itvs[k].from])
      {
        const int64_t b = s.at(s.itvs[k].from), e = s.at(s.itvs[k].to);
        const int64_t from = std::max(now, b), to = std::min(next, e);
        if(from < to)
          out[k].push_back({from - b, to - b, off + from - now});
      }
  }
};
}

VF_PROP(from_a_date, 30000, 400000)
{
  const spec s = gen(c);
  const reference ref{s};
  world w;
  s.build(w);
  VF_NOTE(w.describe());
  int ran = 0, started = 0;
  for(int run = 0, runs = (int)c.range(1, 3); run < runs; run++)
  {
    int64_t T = c.coin() ? s.date[c.draw(s.date.size())] : c.range(0, s.last());
    int64_t now = T;
    VF_NOTE("from " << T);
    w.sc->offset(time_value{T});
    w.sc->start();
    for(int i = 0; now < s.last() + 5 && i < 40; i++)
    {
      if(c.chance(1, 12))
      {
        now = c.coin() ? s.date[c.draw(s.date.size())] : c.range(0, s.last());
        VF_NOTE("to " << now);
        w.sc->transport(time_value{now});
      }
      const int64_t next = now + (c.chance(1, 5) ? c.range(1, 60) : c.range(1, 9));
      const int64_t off = c.chance(1, 4) ? c.range(0, 30) : 0;
      std::vector<std::vector<piece>> want(s.itvs.size());
      ref.play(want, now, next, off);
      w.log.clear();
      VF_NOTE(now << "->" << next << " +" << off);
      w.sc->state(tok(now, next, off));
      for(std::size_t k = 0; k < s.itvs.size(); k++)
      {
        auto got = played(w, (int)k);
        const int64_t b = s.at(s.itvs[k].from), e = s.at(s.itvs[k].to);
        VF_CHECK(got == want[k], "interval " << k << " (" << b << ".." << e << ") played " << show(got) << " instead of " << show(want[k]) << " [" << w.status() << "]");
        ran += b < T && e > T && !got.empty();
        started += b > T && !got.empty();
        const bool active = ref.happens[s.itvs[k].from] && b <= next && e > next;
        VF_CHECK(
            w.itvs[k].p->running() == active && (!active || w.itvs[k].p->get_date().impl == next - b),
            "at " << next << ": interval " << k << " (" << b << ".." << e << ") is at " << w.itvs[k].p->get_date().impl
                  << (w.itvs[k].p->running() ? " running" : " stopped") << " [" << w.status() << "]");
      }
      for(std::size_t k = 0; k < s.events.size(); k++)
        VF_CHECK(
            s.at((int)k) > next ? !ex::is_happened(*w.events[k].p) : ex::is_happened(*w.events[k].p) == ref.happens[k],
            "at " << next << ": event " << k << " (at " << s.at((int)k) << ") " << (ref.happens[k] ? "did not happen" : "happened") << " [" << w.status() << "]");
      now = next;
    }
    w.sc->stop();
    for(auto& i : w.itvs)
      VF_CHECK(!i.p->running(), "running after a stop [" << w.status() << "]");
  }
  c.nontrivial(ran && started);
}

VF_PROP(looped, 20000, 200000)
{
  const spec s = gen(c);
  const reference ref{s};
  world w;
  s.build(w);
  VF_NOTE(w.describe());
  const int64_t L = c.coin() ? c.range(1, s.last() + 20) : s.last() + c.range(1, 5);
  const int64_t from = c.chance(2, 3) ? 0 : c.range(0, s.last() - 1);
  w.sc->set_loops(true);
  w.sc->set_loop_duration(time_value{L});
  w.sc->set_start_offset(time_value{from});
  VF_NOTE("loop of " << L << " from " << from);
  if(from > 0)
    w.sc->offset(time_value{from});
  w.sc->start();
  int64_t now = 0;
  int n = 0;
  for(int i = 0; i < 25 && now < 6 * L; i++)
  {
    const int64_t next = now + (c.chance(1, 5) ? c.range(1, 60) : c.chance(1, 4) ? L - now % L : c.range(1, 9));
    const int64_t off = c.chance(1, 4) ? c.range(0, 30) : 0;
    std::vector<std::vector<piece>> want(s.itvs.size());
    for(int64_t a = now; a < next;)
    {
      const int64_t b = std::min(next, (a / L + 1) * L);
      ref.play(want, a % L + from, a % L + from + (b - a), off + a - now);
      a = b;
    }
    w.log.clear();
    VF_NOTE(now << "->" << next << " +" << off);
    w.sc->state(tok(now, next, off));
    for(std::size_t k = 0; k < s.itvs.size(); k++)
    {
      auto got = played(w, (int)k);
      VF_CHECK(
          got == want[k], "interval " << k << " (" << s.at(s.itvs[k].from) << ".." << s.at(s.itvs[k].to) << ") played " << show(got)
                                      << " instead of " << show(want[k]) << " [" << w.status() << "]");
      const int64_t b = s.at(s.itvs[k].from), e = s.at(s.itvs[k].to), at = next % L + from;
      if(next % L != 0)
        VF_CHECK(
            w.itvs[k].p->running() == (ref.happens[s.itvs[k].from] && b <= at && e > at),
            "at " << at << ": interval " << k << " (" << b << ".." << e << ") is " << (w.itvs[k].p->running() ? "running" : "stopped") << " [" << w.status() << "]");
    }
    n += now / L != next / L;
    now = next;
  }
  w.sc->stop();
  c.nontrivial(n >= 2);
}
