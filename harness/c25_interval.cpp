// C25: a time interval: its date, its limits, what its processes are asked.
#include "vf.hpp"
#include "exec_common.hpp"

#include <ossia/dataflow/nodes/forward_node.hpp>
#include <ossia/editor/curve/curve.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>

#include <algorithm>

using namespace ossia;
using ex::ev;
const char* const vf::rule
    = "histories of an interval with up to three recording processes: start / stop / ticks / "
      "offset / transport / limits / speed / tempo / signatures / mute / enable; non-trivial: at "
      "least two ticks that moved the date, and a change of speed, of limits or of processes";

static const int64_t INF = Infinite.impl;

namespace
{
struct model
{
  int64_t date{}, offset{}, nominal{}, min{}, max{};
  double speed{1.}, parent{1.};
  bool running{}, muted{};
  std::vector<int> procs;
  std::vector<bool> enabled;
  bool sig{};
  std::map<int64_t, time_signature> sigs;
  double quarter{};
  bool hasTempo{};
  tempo_curve tempo;
  std::vector<ev> log;

  void put(ev::kind k, int who, int64_t a = 0, int64_t b = 0) { log.push_back({k, who, a, b, {}, 0}); }
  double tempo_at(int64_t d) { return tempo.value_at(d); }
  double speed_at(int64_t d) { return hasTempo ? speed * tempo_at(d) / 120. : speed; }
  std::pair<int64_t, time_signature> sig_at(int64_t d)
  {
    auto it = sigs.upper_bound(d);
    if(it != sigs.begin())
      --it;
    return *it;
  }
  double bar_start(int64_t d)
  {
    auto [t, s] = sig_at(d);
    const double len = 4. * s.upper / s.lower;
    double b = t / quarter;
    while(b + len <= d / quarter)
      b += len;
    return b;
  }
  void tick(int64_t to, int64_t off, const token_request& up)
  {
    const int64_t from = date;
    date = to;
    if(from < 0 || to < 0)
      return;
    token_request t{};
    t.prev_date = time_value{from};
    t.date = time_value{to};
    t.parent_duration = time_value{nominal};
    t.offset = time_value{std::max<int64_t>(off, 0)};
    t.speed = hasTempo ? speed_at(from) : parent * speed;
    t.tempo = speed * (hasTempo ? tempo_at(from) : up.tempo);
    t.signature = up.signature;
    t.musical_start_last_signature = up.musical_start_last_signature;
    t.musical_start_last_bar = up.musical_start_last_bar;
    t.musical_start_position = up.musical_start_position;
    t.musical_end_last_bar = up.musical_end_last_bar;
    t.musical_end_position = up.musical_end_position;
    if(sig)
    {
      t.signature = sig_at(from).second;
      t.musical_start_last_signature = sig_at(from).first / quarter;
      t.musical_start_last_bar = bar_start(from);
      t.musical_start_position = from / quarter;
      t.musical_end_last_bar = bar_start(to);
      t.musical_end_position = to / quarter;
    }
    for(int p : procs)
      if(enabled[p])
        log.push_back({ev::STATE, p, 0, 0, t, 0});
    put(ev::CALLBACK, -1, 1, to);
  }
  void stop()
  {
    for(int p : procs)
      put(ev::STOP, p);
    date = 0;
    running = false;
    put(ev::CALLBACK, -1, 0, 0);
  }
  void start()
  {
    if(nominal <= offset)
      return stop();
    for(int p : procs)
      if(enabled[p])
        put(ev::START, p);
    running = true;
    date = offset;
    put(ev::CALLBACK, -1, 1, date);
  }
  void set_nominal(int64_t n)
  {
    nominal = n;
    min = std::min(min, n);
    max = std::max(max, n);
    if(max != INF)
      date = std::min(date, max);
  }
  void set_min(int64_t n)
  {
    min = n;
    if(nominal < n)
      set_nominal(n);
  }
  void set_max(int64_t n)
  {
    max = n;
    if(nominal > n)
      set_nominal(n);
  }
};
}

VF_PROP(history, 20000, 300000)
{
  ex::lone a, b;
  model m;
  std::vector<ev> log;
  {
    int64_t v[3] = {c.range(0, 200), c.range(0, 200), c.range(0, 200)};
    std::sort(v, v + 3);
    m.min = v[0], m.nominal = v[1], m.max = v[2];
    if(c.chance(1, 3))
      m.max = INF;
    if(m.max == INF && c.chance(1, 6))
      m.nominal = INF;
  }
  auto itv = time_interval::create(
      {}, *a.event, *b.event, time_value{m.nominal}, time_value{m.min}, time_value{m.max});
  VF_CHECK(&itv->get_start_event() == a.event.get() && &itv->get_end_event() == b.event.get(), "events");
  VF_CHECK(
      a.event->next_time_intervals().size() == 1 && b.event->previous_time_intervals().size() == 1
          && a.event->next_time_intervals()[0] == itv && b.event->previous_time_intervals()[0] == itv,
      "the events know their interval");
  {
    auto f = [&log](bool r, time_value t) { log.push_back({ev::CALLBACK, -1, r, t.impl, {}, 0}); };
    switch(c.draw(3))
    {
      case 0: itv->set_callback(smallfun::function<void(bool, time_value), 32>{f}); break;
      case 1: itv->set_callback(time_interval::exec_callback{f}); break;
      case 2: itv->set_stateless_callback(time_interval::exec_callback{f}); break;
    }
  }
  std::vector<std::shared_ptr<ex::recorder>> procs;
  for(int i = 0; i < 3; i++)
    procs.push_back(std::make_shared<ex::recorder>(log, i));
  m.enabled.assign(3, true);

  if(c.chance(1, 3))
  {
    m.sig = true;
    m.quarter = double(c.pick({4, 8, 16, 32}));
    time_signature_map map;
    const std::size_t n = c.size(1, 3);
    int64_t at = 0;
    for(std::size_t i = 0; i < n; i++)
    {
      time_signature s{(uint16_t)c.range(1, 7), (uint16_t)c.pick({1, 2, 4, 8, 16})};
      map.insert({time_value{at}, s});
      m.sigs[at] = s;
      at += c.range(1, 100);
    }
    itv->set_time_signature_map(map);
    itv->set_quarter_duration(m.quarter);
    c.label("signatures");
  }
  const bool musicalRoot = c.coin();
  int moved = 0, changes = 0;
  std::size_t lastTokens = 0;

  auto upstream = [&] {
    token_request t{};
    t.tempo = double(c.range(1, 300));
    t.speed = c.pick({1., 0.5, 2., 0.25});
    t.signature = {(uint16_t)c.range(1, 7), (uint16_t)c.pick({2, 4, 8})};
    t.musical_start_last_signature = double(c.range(0, 8));
    t.musical_start_last_bar = double(c.range(0, 20));
    t.musical_start_position = c.range(0, 400) / 8.;
    t.musical_end_last_bar = double(c.range(0, 20));
    t.musical_end_position = c.range(0, 400) / 8.;
    return t;
  };

  for(int i = 0; c.more(i, 24, 12); i++)
  {
    log.clear();
    m.log.clear();
    const int64_t before = m.date;
    bool token = false;
    std::string what;
    switch(c.weighted({10, 6, 2, 2, 3, 2, 2, 2, 2, 3, 2, 2, 2, 2, 1, 1, 2}))
    {
      case 0: {
        auto up = upstream();
        const int64_t dt = c.range(0, 80);
        if(musicalRoot)
        {
          const double ratio = c.pick({1., 2., 0.5, 4.});
          const double d = std::ceil(dt * m.speed_at(m.date) / ratio);
          what = "tick " + std::to_string(dt) + " ratio " + std::to_string(ratio);
          itv->tick(time_value{dt}, up, ratio);
          m.tick(m.date + int64_t(d), 0, up);
        }
        else
        {
          const int64_t off = c.range(-5, 60);
          double sp = m.speed;
          if(m.hasTempo)
            sp = m.speed_at(m.date) / up.speed;
          what = "tick_offset " + std::to_string(dt) + " at " + std::to_string(off);
          itv->tick_offset(time_value{dt}, time_value{off}, up);
          m.tick(m.date + int64_t(std::ceil(dt * sp)), off, up);
        }
        token = true;
        break;
      }
      case 1: {
        auto up = upstream();
        const int64_t dt = c.range(-20, 80);
        const int64_t off = musicalRoot ? 0 : c.range(0, 60);
        what = "tick of exactly " + std::to_string(dt);
        itv->tick_offset_speed_precomputed(time_value{dt}, time_value{off}, up);
        m.tick(m.date + dt, off, up);
        token = true;
        break;
      }
      case 2: {
        auto up = upstream();
        const int64_t off = musicalRoot ? 0 : c.range(0, 60);
        what = "tick_current";
        itv->tick_current(time_value{off}, up);
        m.tick(m.date, off, up);
        token = true;
        break;
      }
      case 3:
        what = "stop";
        itv->stop();
        m.stop();
        break;
      case 4:
        if(c.coin())
        {
          what = "start";
          itv->start();
          m.start();
        }
        else
        {
          what = "start_and_tick";
          itv->start_and_tick();
          m.start();
          m.tick(m.date, 0, token_request{});
        }
        break;
      case 5:
        if(c.coin())
        {
          what = "pause";
          itv->pause();
          for(int p : m.procs)
            m.put(ev::PAUSE, p);
        }
        else
        {
          what = "resume";
          itv->resume();
          for(int p : m.procs)
            m.put(ev::RESUME, p);
        }
        break;
      case 6: {
        const int64_t d = c.range(0, 150);
        const bool tr = c.coin();
        what = (tr ? "transport " : "offset ") + std::to_string(d);
        tr ? itv->transport(time_value{d}) : itv->offset(time_value{d});
        m.offset = m.date = d;
        for(int p : m.procs)
          if(m.enabled[p])
            m.put(tr ? ev::TRANSPORT : ev::OFFSET, p, d);
        m.put(ev::CALLBACK, -1, m.running, d);
        break;
      }
      case 7: {
        const int64_t d = c.range(0, 150);
        what = "set_offset " + std::to_string(d);
        itv->set_offset(time_value{d});
        m.offset = d;
        break;
      }
      case 8: {
        m.speed = c.range(-4, 24) / 8.;
        what = "set_speed " + std::to_string(m.speed);
        itv->set_speed(m.speed);
        changes++;
        break;
      }
      case 9: {
        const int64_t d = c.chance(1, 10) ? INF : c.range(0, 250);
        switch(c.draw(3))
        {
          case 0:
            what = "nominal " + std::to_string(d);
            itv->set_nominal_duration(time_value{d});
            m.set_nominal(d);
            break;
          case 1:
            what = "min " + std::to_string(d);
            itv->set_min_duration(time_value{d});
            m.set_min(d);
            break;
          case 2:
            what = "max " + std::to_string(d);
            itv->set_max_duration(time_value{d});
            m.set_max(d);
            break;
        }
        changes++;
        break;
      }
      case 10: {
        const int p = (int)c.draw(3);
        if(std::find(m.procs.begin(), m.procs.end(), p) != m.procs.end())
          break;
        what = "add process " + std::to_string(p);
        itv->add_time_process(procs[p]);
        if(m.running)
          m.put(ev::START, p);
        if(m.muted)
          m.put(ev::MUTE, p, 1);
        m.procs.push_back(p);
        changes++;
        break;
      }
      case 11: {
        const int p = (int)c.draw(3);
        what = "remove process " + std::to_string(p);
        itv->remove_time_process(procs[p].get());
        m.procs.erase(std::remove(m.procs.begin(), m.procs.end(), p), m.procs.end());
        changes++;
        break;
      }
      case 12: {
        const int p = (int)c.draw(3);
        m.enabled[p] = c.coin();
        what = "enable " + std::to_string(p) + " " + std::to_string(m.enabled[p]);
        procs[p]->enable(m.enabled[p]);
        VF_CHECK(procs[p]->enabled() == m.enabled[p], "enabled()");
        break;
      }
      case 13:
        m.muted = c.coin();
        what = "mute " + std::to_string(m.muted);
        itv->mute(m.muted);
        for(int p : m.procs)
          m.put(ev::MUTE, p, m.muted);
        break;
      case 14: {
        if(m.hasTempo && c.coin())
        {
          what = "no tempo";
          itv->set_tempo_curve(std::nullopt);
          m.hasTempo = false;
        }
        else
        {
          m.tempo.reset();
          m.tempo.set_x0(0);
          m.tempo.set_y0(double(c.pick({60, 120, 30, 240})));
          const std::size_t n = c.size(0, 2);
          int64_t at = 0;
          for(std::size_t k = 0; k < n; k++)
          {
            at += c.pick({16, 32, 64});
            m.tempo.add_point(curve_segment_linear<double>{}, at, double(c.pick({60, 120, 240})));
          }
          what = "tempo curve of " + std::to_string(n) + " segments";
          itv->set_tempo_curve(m.tempo);
          m.hasTempo = true;
          c.label("tempo");
        }
        changes++;
        break;
      }
      case 15:
        m.parent = c.range(1, 16) / 8.;
        what = "parent speed " + std::to_string(m.parent);
        itv->set_parent_speed(m.parent);
        break;
      case 16: {
        // the processes ask nothing while removed; nothing else changes
        what = "nothing";
        break;
      }
    }
    VF_NOTE(what << " : date " << before << " -> " << itv->get_date().impl << "  " << ex::show(log));
    VF_CHECK(
        itv->get_date().impl == m.date, what << ": the date is " << itv->get_date().impl << ", expected " << m.date);
    VF_CHECK(itv->running() == m.running, what << ": running() is " << itv->running());
    VF_CHECK(itv->get_offset().impl == m.offset, what << ": the offset");
    VF_CHECK(
        itv->get_nominal_duration().impl == m.nominal && itv->get_min_duration().impl == m.min
            && itv->get_max_duration().impl == m.max,
        what << ": the limits are " << itv->get_min_duration().impl << " / "
             << itv->get_nominal_duration().impl << " / " << itv->get_max_duration().impl << ", expected "
             << m.min << " / " << m.nominal << " / " << m.max);
    VF_CHECK(m.min <= m.nominal && m.nominal <= m.max, "limits out of order");
    bool ok = log.size() == m.log.size();
    for(std::size_t k = 0; ok && k < log.size(); k++)
      ok = ex::same(log[k], m.log[k]);
    VF_CHECK(ok, what << ": got " << ex::show(log) << "\n  expected " << ex::show(m.log));
    for(int p = 0; p < 3; p++)
      if(std::find(m.procs.begin(), m.procs.end(), p) != m.procs.end())
        VF_CHECK(procs[p]->unmuted() == !m.muted || what.compare(0, 4, "mute"), "mute reaches the process");
    VF_CHECK(itv->get_time_processes().size() == m.procs.size(), "the processes");
    if(token)
    {
      if(m.date != before)
        moved++;
      // the interval's own node gets the same token as its processes
      std::size_t n = itv->node->requested_tokens.size();
      const bool expect = before >= 0 && m.date >= 0 && !m.procs.empty();
      VF_CHECK((n > lastTokens) == expect, what << ": " << n - lastTokens << " tokens for the node of the interval");
      if(expect)
      {
        auto& t = itv->node->requested_tokens.back();
        VF_CHECK(t.prev_date.impl == before && t.date.impl == m.date, "the token of the interval's node");
        auto info = itv->current_transport_info();
        VF_CHECK(
            info.date.impl == m.date && info.signature == t.signature && info.current_tempo == t.tempo
                && info.musical_start_last_signature == t.musical_start_last_signature
                && info.musical_start_last_bar == t.musical_start_last_bar
                && info.musical_start_position == t.musical_start_position
                && info.musical_end_last_bar == t.musical_end_last_bar
                && info.musical_end_position == t.musical_end_position,
            "current_transport_info() disagrees with the last token");
      }
    }
    lastTokens = itv->node->requested_tokens.size();
  }
  c.nontrivial(moved >= 2 && changes > 0);
}

// However a duration is cut in ticks, the processes see contiguous tokens that
// cover it once.
VF_PROP(contiguous, 10000, 200000)
{
  ex::lone a, b;
  std::vector<ev> log;
  auto itv = time_interval::create({}, *a.event, *b.event, Infinite, 0_tv, Infinite);
  auto p = std::make_shared<ex::recorder>(log, 0);
  itv->add_time_process(p);
  const int64_t from = c.chance(1, 3) ? c.range(0, 1000) : 0;
  if(from)
    itv->offset(time_value{from});
  const int speed = (int)c.range(1, 4);
  itv->set_speed(speed);
  itv->start();
  itv->tick_current(0_tv, {});
  int64_t total = 0;
  int n = 0;
  for(int i = 0; c.more(i, 30, 10); i++, n++)
  {
    const int64_t dt = c.range(0, 100);
    total += dt;
    if(c.coin())
      itv->tick(time_value{dt}, {});
    else
      itv->tick_offset(time_value{dt}, 0_tv, {});
  }
  int64_t at = from;
  for(auto& e : log)
  {
    if(e.k != ev::STATE)
      continue;
    VF_CHECK(e.tok.prev_date.impl == at, "a token starts at " << e.tok.prev_date.impl << " after " << at);
    at = e.tok.date.impl;
  }
  VF_CHECK(at == from + speed * total, "the tokens end at " << at << ", expected " << from + speed * total);
  VF_CHECK(itv->get_date().impl == at, "the date of the interval");
  c.nontrivial(n >= 3);
}
