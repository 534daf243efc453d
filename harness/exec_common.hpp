// What a process of an interval sees, recorded.
#pragma once
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/token_request.hpp>
#include <ossia/editor/scenario/scenario.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_process.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
#include <ossia/editor/expression/expression.hpp>

#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace ex
{
struct ev
{
  enum kind
  {
    START,
    STOP,
    PAUSE,
    RESUME,
    STATE,
    OFFSET,
    TRANSPORT,
    MUTE,
    CALLBACK
  } k{};
  int who{};
  int64_t a{}, b{};
  ossia::token_request tok{};
  int64_t clock{};
};
inline std::string show(const ev& e)
{
  static const char* n[]
      = {"start", "stop", "pause", "resume", "state", "offset", "transport", "mute", "callback"};
  std::ostringstream s;
  s << n[e.k] << "(" << e.who;
  if(e.k == ev::STATE)
    s << ", " << e.tok.prev_date.impl << "->" << e.tok.date.impl << " off " << e.tok.offset.impl
      << " of " << e.tok.parent_duration.impl << " speed " << e.tok.speed << " tempo " << e.tok.tempo
      << " sig " << e.tok.signature.upper << "/" << e.tok.signature.lower << " q "
      << e.tok.musical_start_last_signature << " " << e.tok.musical_start_last_bar << " "
      << e.tok.musical_start_position << " " << e.tok.musical_end_last_bar << " "
      << e.tok.musical_end_position;
  else
    s << ", " << e.a << ", " << e.b;
  s << ")";
  return s.str();
}
inline std::string show(const std::vector<ev>& v)
{
  std::string s;
  for(auto& e : v)
    s += show(e) + " ";
  return s;
}
inline bool same(const ev& x, const ev& y)
{
  if(x.k != y.k || x.who != y.who)
    return false;
  if(x.k != ev::STATE)
    return x.a == y.a && x.b == y.b;
  auto near = [](double p, double q) { return p == q || std::abs(p - q) <= 1e-9 * (1 + std::abs(p)); };
  auto &s = x.tok, &t = y.tok;
  return s.prev_date.impl == t.prev_date.impl && s.date.impl == t.date.impl
         && s.offset.impl == t.offset.impl && s.parent_duration.impl == t.parent_duration.impl
         && near(s.speed, t.speed) && near(s.tempo, t.tempo) && s.signature == t.signature
         && near(s.musical_start_last_signature, t.musical_start_last_signature)
         && near(s.musical_start_last_bar, t.musical_start_last_bar)
         && near(s.musical_start_position, t.musical_start_position)
         && near(s.musical_end_last_bar, t.musical_end_last_bar)
         && near(s.musical_end_position, t.musical_end_position);
}

struct recorder final : ossia::time_process
{
  std::vector<ev>& log;
  int id;
  int64_t* clock{};
  recorder(std::vector<ev>& l, int i)
      : log(l)
      , id(i)
  {
  }
  void add(ev::kind k, int64_t a = 0, int64_t b = 0)
  {
    log.push_back({k, id, a, b, {}, clock ? *clock : 0});
  }
  void state(const ossia::token_request& t) override
  {
    log.push_back({ev::STATE, id, 0, 0, t, clock ? *clock : 0});
  }
  void start() override { add(ev::START); }
  void stop() override { add(ev::STOP); }
  void pause() override { add(ev::PAUSE); }
  void resume() override { add(ev::RESUME); }
  void mute_impl(bool m) override { add(ev::MUTE, m); }
  void offset_impl(ossia::time_value v) override { add(ev::OFFSET, v.impl); }
  void transport_impl(ossia::time_value v) override { add(ev::TRANSPORT, v.impl); }
};

// An event without interesting surroundings
struct lone
{
  std::shared_ptr<ossia::time_sync> sync = std::make_shared<ossia::time_sync>();
  std::shared_ptr<ossia::time_event> event;
  explicit lone(ossia::expression_ptr e = {})
  {
    event = std::make_shared<ossia::time_event>(
        ossia::time_event::exec_callback{}, *sync, std::move(e));
    sync->insert(sync->get_time_events().end(), event);
  }
  ~lone() { sync->cleanup(); }
};
}
