// A generated scenario with recording processes.
#pragma once
#include "exec_common.hpp"

#include <algorithm>
#include <map>

namespace ex
{
// A condition or trigger whose value the check sets.
struct flag final : ossia::expressions::expression_generic_base
{
  bool& value;
  int& observers;
  flag(bool& v, int& o)
      : value(v)
      , observers(o)
  {
  }
  void update() override { }
  bool evaluate() const override { return value; }
  void on_first_callback_added(ossia::expressions::expression_generic&) override { observers++; }
  void on_removing_last_callback(ossia::expressions::expression_generic&) override { observers--; }
};

enum signal
{
  ENTERED,
  LEFT,
  TRIGGERED,
  FINISHED_MAX,
  FINISHED
};
enum
{
  EVENT_BASE = 1000,
  SYNC_BASE = 2000
};

inline uint8_t plain(ossia::time_event::status s)
{
  return uint8_t(s) & 0x7f;
}
inline bool is_none(const ossia::time_event& e)
{
  return plain(e.get_status()) == 0 && !(uint8_t(e.get_status()) & 0x80);
}
inline bool is_pending(const ossia::time_event& e) { return plain(e.get_status()) == 1; }
inline bool is_happened(const ossia::time_event& e) { return plain(e.get_status()) == 2; }
inline bool is_disposed(const ossia::time_event& e) { return plain(e.get_status()) == 3; }

struct world
{
  struct sync_t
  {
    std::shared_ptr<ossia::time_sync> p;
    bool interactive{};
    std::unique_ptr<bool> trigger = std::make_unique<bool>(false);
    std::unique_ptr<int> observers = std::make_unique<int>(0);
    std::vector<int> events;
    int64_t date{};
  };
  struct event_t
  {
    std::shared_ptr<ossia::time_event> p;
    int sync{};
    std::unique_ptr<bool> cond = std::make_unique<bool>(true);
    std::unique_ptr<int> observers = std::make_unique<int>(0);
    std::vector<int> prev, next;
  };
  struct itv_t
  {
    std::shared_ptr<ossia::time_interval> p;
    std::shared_ptr<recorder> proc;
    int from{}, to{};
    int64_t min{}, nominal{}, max{};
  };
  std::shared_ptr<ossia::scenario> sc = std::make_shared<ossia::scenario>();
  std::vector<ev> log;
  int64_t clock{};
  std::vector<sync_t> syncs;
  std::vector<event_t> events;
  std::vector<itv_t> itvs;

  ~world()
  {
    for(auto& s : syncs)
    {
      s.p->triggered.callbacks_clear();
      s.p->entered_evaluation.callbacks_clear();
      s.p->left_evaluation.callbacks_clear();
      s.p->finished_evaluation.callbacks_clear();
      s.p->observe_expression(false);
      s.p->cleanup();
    }
  }
  int add_sync(bool interactive = false, bool root = false)
  {
    const int id = (int)syncs.size();
    sync_t s;
    s.p = syncs.empty() ? sc->get_start_time_sync() : std::make_shared<ossia::time_sync>();
    if(root)
      s.p->set_start(true);
    if(!syncs.empty())
      sc->add_time_sync(s.p);
    s.interactive = interactive;
    if(interactive)
      s.p->set_expression(
          ossia::expressions::make_expression_generic<flag>(*s.trigger, *s.observers));
    auto put = [this, id](int64_t a) { log.push_back({ev::CALLBACK, SYNC_BASE + id, a, 0, {}, clock}); };
    s.p->triggered.add_callback([=] { put(TRIGGERED); });
    s.p->entered_evaluation.add_callback([=] { put(ENTERED); });
    s.p->left_evaluation.add_callback([=] { put(LEFT); });
    s.p->finished_evaluation.add_callback([=](bool b) { put(b ? FINISHED_MAX : FINISHED); });
    syncs.push_back(std::move(s));
    return id;
  }
  int add_event(int s)
  {
    const int id = (int)events.size();
    event_t e;
    e.sync = s;
    e.p = std::make_shared<ossia::time_event>(
        [this, id](ossia::time_event::status st) {
          log.push_back({ev::CALLBACK, EVENT_BASE + id, plain(st), 0, {}, clock});
        },
        *syncs[s].p, ossia::expressions::make_expression_generic<flag>(*e.cond, *e.observers));
    auto& v = syncs[s].p->get_time_events();
    syncs[s].p->insert(v.end(), e.p);
    syncs[s].events.push_back(id);
    events.push_back(std::move(e));
    return id;
  }
  int add_interval(int a, int b, int64_t nominal, int64_t min, int64_t max)
  {
    const int id = (int)itvs.size();
    itv_t i;
    i.from = a, i.to = b, i.min = min, i.nominal = nominal, i.max = max;
    i.p = ossia::time_interval::create(
        {}, *events[a].p, *events[b].p, ossia::time_value{nominal}, ossia::time_value{min},
        ossia::time_value{max});
    i.proc = std::make_shared<recorder>(log, id);
    i.proc->clock = &clock;
    i.p->add_time_process(i.proc);
    sc->add_time_interval(i.p);
    events[a].next.push_back(id);
    events[b].prev.push_back(id);
    itvs.push_back(std::move(i));
    return id;
  }
  std::string describe() const
  {
    std::ostringstream o;
    for(auto& i : itvs)
      o << "itv " << (&i - itvs.data()) << ": event " << i.from << " (sync " << events[i.from].sync
        << ") -> event " << i.to << " (sync " << events[i.to].sync << ") " << i.min << "/" << i.nominal
        << "/" << i.max << "; ";
    return o.str();
  }
  std::string status() const
  {
    std::ostringstream o;
    static const char* n[] = {"none", "pending", "happened", "disposed"};
    for(auto& e : events)
      o << n[plain(e.p->get_status()) & 3] << (uint8_t(e.p->get_status()) & 0x80 ? "! " : " ");
    for(auto& i : itvs)
      o << (i.p->running() ? "*" : "") << i.p->get_date().impl << " ";
    return o.str();
  }
};
}
