// C18: a Minuit device mirrors the remote one, exchanges values with it, and survives anything it receives.
#include "vf.hpp"
#include "osc_ref.hpp"

#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_parse.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/minuit/detail/minuit_common.hpp>
#include <ossia/network/minuit/minuit.hpp>
#include <ossia/network/osc/detail/osc.hpp>
#include <ossia/network/osc/detail/sender.hpp>

#include <oscpack/ip/UdpSocket.h>

#include <atomic>
#include <thread>

using namespace ossia;
using namespace ossia::net;
const char* const vf::rule
    = "trees of up to ten nodes mirrored, values exchanged and pulled, requests and answers changed in any way; non-trivial: three "
      "parameters or more, or a changed message which is still Minuit";

// The pauses between the answers are not needed here
extern "C" int nanosleep(const struct timespec*, struct timespec*)
{
  std::this_thread::yield();
  return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*)
{
  std::this_thread::yield();
  return 0;
}
namespace
{
oscpack::memnet& wire() { return oscpack::memnet::instance(); }
void quiet()
{
  wire().pump();
}
// Delivers packets while someone waits for them
struct deliver
{
  std::atomic_bool stop{false};
  std::thread t{[this] {
    while(!stop)
      if(!wire().pump_one())
        std::this_thread::yield();
  }};
  ~deliver()
  {
    stop = true;
    t.join();
  }
};
struct world
{
  int port;
  std::unique_ptr<generic_device> server, client;
  world()
  {
    {
      std::lock_guard _{wire().mtx};
      wire().queue.clear();
    }
    static int p = 1000;
    port = p = p > 30000 ? 1000 : p + 2;
    server = std::make_unique<generic_device>(std::make_unique<minuit_protocol>("srv", "127.0.0.1", port, port + 1), "srv");
    client = std::make_unique<generic_device>(std::make_unique<minuit_protocol>("cli", "127.0.0.1", port + 1, port), "cli");
  }
};
val_type seen_as(val_type t)
{
  switch(t)
  {
    case val_type::VEC2F:
    case val_type::VEC3F:
    case val_type::VEC4F:
      return val_type::LIST;
    default:
      return t;
  }
}
float number(vf::Case& c) { return (float)c.range(-200, 200) / 4.f; }
ossia::value content(vf::Case& c, val_type t)
{
  switch(t)
  {
    case val_type::INT:
      return (int32_t)c.i32();
    case val_type::FLOAT:
      return number(c);
    case val_type::BOOL:
      return c.coin();
    case val_type::STRING:
    {
      auto s = c.str(8);
      s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
      return s;
    }
    case val_type::VEC2F:
      return make_vec(number(c), number(c));
    case val_type::VEC3F:
      return make_vec(number(c), number(c), number(c));
    case val_type::VEC4F:
      return make_vec(number(c), number(c), number(c), number(c));
    case val_type::LIST:
    {
      std::vector<ossia::value> l;
      for(int n = (int)c.range(2, 5); n-- > 0;)
        l.push_back(c.chance(1, 3) ? ossia::value{(int32_t)c.range(-9, 9)} : c.chance(1, 3) ? ossia::value{std::string{"w"}} : ossia::value{number(c)});
      return l;
    }
    default:
      return impulse{};
  }
}
ossia::value received(const ossia::value& v)
{
  switch(v.get_type())
  {
    case val_type::VEC2F:
    case val_type::VEC3F:
    case val_type::VEC4F:
      return ossia::convert<std::vector<ossia::value>>(v);
    default:
      return v;
  }
}
const char* const units[] = {"gain.linear", "gain.db", "gain.midigain", "time.second", "time.ms", "time.bpm", "angle.degree", "distance.m", "distance.cm", "speed.m/s"};
struct added
{
  std::string addr;
  parameter_base* p;
};
std::vector<added> grow(vf::Case& c, generic_device& d, bool attributes, int most = 10)
{
  std::vector<node_base*> all{&d.get_root_node()};
  std::vector<added> r;
  const val_type types[] = {val_type::INT, val_type::FLOAT, val_type::BOOL, val_type::STRING, val_type::IMPULSE, val_type::LIST, val_type::VEC2F, val_type::VEC3F, val_type::VEC4F};
  for(int i = 0; c.more(i, most, 4); i++)
  {
    auto& parent = *all[c.draw(all.size())];
    static const char* names[] = {"a", "b", "foo", "foo.1", "x_y", "z-1", "Node"};
    auto n = parent.create_child(names[c.draw(7)]);
    all.push_back(n);
    if(c.chance(3, 4))
    {
      auto t = types[c.draw(9)];
      auto p = n->create_parameter(t);
      if(attributes)
      {
        if(t == val_type::FLOAT && c.chance(1, 3))
          p->set_unit(parse_pretty_unit(units[c.draw(std::size(units))]));
        p->set_access(c.pick({access_mode::BI, access_mode::GET, access_mode::SET}));
        if(t == val_type::INT || t == val_type::FLOAT)
        {
          if(c.coin())
          {
            const int lo = (int)c.range(-50, 50), hi = lo + (int)c.range(1, 50);
            p->set_domain(t == val_type::INT ? make_domain(lo, hi) : make_domain((float)lo / 2, (float)hi / 2));
          }
        }
        p->set_bounding(c.pick({bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD, bounding_mode::LOW, bounding_mode::HIGH}));
        p->set_repetition_filter(c.coin() ? repetition_filter::ON : repetition_filter::OFF);
        if(c.chance(1, 3))
          set_priority(*n, (int)c.range(-9, 9));
      }
      auto v = content(c, t);
      if(auto d = p->get_domain(); d && d.get_min().valid())
        v = c.coin() || p->get_bounding() == bounding_mode::WRAP ? d.get_min() : d.get_max();
      p->set_value(v);
      r.push_back({n->osc_address(), p});
    }
  }
  return r;
}
void describe(std::ostream& s, node_base& n)
{
  s << n.osc_address();
  if(auto p = n.get_parameter())
    s << " " << value_to_pretty_string(p->value()) << " access " << (int)p->get_access() << " bounding " << (int)p->get_bounding() << " filter "
      << (int)p->get_repetition_filter() << " unit " << get_pretty_unit_text(p->get_unit()) << " domain " << p->get_domain().to_pretty_string();
  s << "; ";
  for(auto& k : n.children())
    describe(s, *k);
}
std::string describe(generic_device& d)
{
  std::ostringstream s;
  describe(s, d.get_root_node());
  return s.str();
}
std::set<std::string> addresses(node_base& n)
{
  std::set<std::string> r{n.osc_address()};
  for(auto& k : n.children())
    r.merge(addresses(*k));
  return r;
}
bool close(const ossia::value& a, const ossia::value& b)
{
  if(a.get_type() == val_type::FLOAT && b.get_type() == val_type::FLOAT)
    return std::abs(a.get<float>() - b.get<float>()) <= 1e-4f * std::max(1.f, std::abs(a.get<float>()));
  return a.get_type() == b.get_type() && a == b;
}
void mirrors(vf::Case& c, world& w)
{
  VF_CHECK(addresses(w.server->get_root_node()) == addresses(w.client->get_root_node()), "tree: " << describe(*w.server) << " seen as " << describe(*w.client));
  for(auto& a : addresses(w.server->get_root_node()))
  {
    auto s = find_node(w.server->get_root_node(), a);
    auto k = find_node(w.client->get_root_node(), a);
    auto p = s->get_parameter(), q = k->get_parameter();
    VF_CHECK(!p == !q, a << ": parameter " << !!p << " seen as " << !!q);
    if(!p)
      continue;
    VF_CHECK(q->get_value_type() == seen_as(p->get_value_type()), a << ": type " << (int)p->get_value_type() << " seen as " << (int)q->get_value_type());
    VF_CHECK(close(received(p->value()), q->value()), a << ": value " << value_to_pretty_string(p->value()) << " seen as " << value_to_pretty_string(q->value()));
    VF_CHECK(q->get_access() == p->get_access(), a << ": access " << (int)p->get_access() << " seen as " << (int)q->get_access());
    VF_CHECK(q->get_bounding() == p->get_bounding(), a << ": bounding " << (int)p->get_bounding() << " seen as " << (int)q->get_bounding());
    VF_CHECK(q->get_repetition_filter() == p->get_repetition_filter(), a << ": filter " << (int)p->get_repetition_filter() << " seen as " << (int)q->get_repetition_filter());
    VF_CHECK(q->get_unit() == p->get_unit(), a << ": unit " << get_pretty_unit_text(p->get_unit()) << " seen as " << get_pretty_unit_text(q->get_unit()));
    VF_CHECK(get_priority(*s).value_or(0) == get_priority(*k).value_or(0), a << ": priority " << get_priority(*s).value_or(0) << " seen as " << get_priority(*k).value_or(0));
    auto d = p->get_domain(), e = q->get_domain();
    if(d.get_min().valid())
      VF_CHECK(
          close(d.get_min(), e.get_min()) && close(d.get_max(), e.get_max()),
          a << ": domain " << d.to_pretty_string() << " seen as " << e.to_pretty_string());
  }
}
}

VF_PROP(mirror, 400, 6000)
{
  world w;
  auto params = grow(c, *w.server, true);
  VF_NOTE(describe(*w.server));
  bool ok{};
  for(int i = 0; i < (c.chance(1, 4) ? 2 : 1); i++)
  {
    {
      deliver d;
      ok = w.client->get_protocol().update(w.client->get_root_node());
    }
    quiet();
    VF_CHECK(ok, "the update failed");
    mirrors(c, w);
    if(i)
    {
      grow(c, *w.server, true, 2);
    }
  }
  c.nontrivial(params.size() >= 3);
}

VF_PROP(exchange, 2000, 20000)
{
  world w;
  auto params = grow(c, *w.server, false);
  VF_NOTE(describe(*w.server));
  {
    deliver d;
    VF_CHECK(w.client->get_protocol().update(w.client->get_root_node()), "the update failed");
  }
  quiet();
  int n = 0;
  for(int i = 0; !params.empty() && c.more(i, 12, 5); i++)
  {
    auto& a = params[c.draw(params.size())];
    auto k = find_node(w.client->get_root_node(), a.addr);
    VF_CHECK(k && k->get_parameter(), a.addr << " is not there");
    auto q = k->get_parameter();
    auto v = content(c, a.p->get_value_type());
    n += v != a.p->value();
    switch(c.draw(4))
    {
      case 0:
        VF_NOTE("server: " << a.addr << " := " << value_to_pretty_string(v));
        a.p->push_value(v);
        quiet();
        break;
      case 1:
        VF_NOTE("client: " << a.addr << " := " << value_to_pretty_string(v));
        q->push_value(received(v));
        quiet();
        VF_CHECK(close(a.p->value(), v), a.addr << ": sent " << value_to_pretty_string(v) << ", the server has " << value_to_pretty_string(a.p->value()));
        break;
      case 3:
      {
        VF_NOTE("get: " << a.addr << " := " << value_to_pretty_string(v));
        a.p->set_value(v);
        auto& m = static_cast<minuit_protocol&>(w.client->get_protocol());
        m.sender().send(m.name_table.get_action(ossia::minuit::minuit_action::GetRequest), string_view(a.addr));
        quiet();
        break;
      }
      case 2:
      {
        VF_NOTE("pull: " << a.addr << " := " << value_to_pretty_string(v));
        a.p->set_value(v);
        auto f = w.client->get_protocol().pull_async(*q);
        const bool twice = c.chance(1, 4);
        if(twice)
          w.client->get_protocol().request(*q);
        VF_CHECK(f.wait_for(std::chrono::seconds(0)) != std::future_status::ready, "pulled before the answer");
        quiet();
        VF_CHECK(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "not pulled after the answer");
        break;
      }
    }
    VF_CHECK(
        close(received(a.p->value()), q->value()), a.addr << ": the server has " << value_to_pretty_string(a.p->value()) << ", the client "
                                                          << value_to_pretty_string(q->value()));
  }
  c.nontrivial(n >= 3);
}

VF_PROP(any_message, 8000, 200000)
{
  world w;
  auto params = grow(c, *w.server, true, 6);
  const bool mirror = c.coin();
  if(mirror)
  {
    deliver d;
    w.client->get_protocol().update(w.client->get_root_node());
  }
  quiet();
  const auto before = describe(*w.server);
  const char* attributes[] = {"value", "type", "service", "priority", "rangeBounds", "rangeClipmode", "description", "repetitionsFilter", "tags", "dataspace", "dataspaceUnit", "valueStepsize", "unknown", ""};
  auto address = [&]() -> std::string {
    if(params.empty() || c.chance(1, 5))
      return c.pick({std::string{"/"}, std::string{""}, std::string{"/none"}, std::string{"//"}, std::string{"a"}, std::string{":"}, std::string{"/a:"}, std::string{"/a/"}});
    return params[c.draw(params.size())].addr;
  };
  bool minuit = false;
  for(int i = 0; c.more(i, 6, 2); i++)
  {
    const bool to_server = c.coin();
    ref::Args args;
    std::string what;
    switch(c.draw(5))
    {
      case 0:
        what = "?get";
        args.push_back(ref::S(address() + (c.chance(1, 5) ? "" : std::string(":") + attributes[c.draw(14)])));
        break;
      case 1:
        what = "?namespace";
        args.push_back(ref::S(address()));
        break;
      case 2:
      case 3:
        what = c.pick({":get", ":listen"});
        args.push_back(ref::S(address() + (c.chance(1, 5) ? "" : std::string(":") + attributes[c.draw(14)])));
        for(int k = 0; c.more(k, 4, 1); k++)
          args.push_back(
              c.chance(1, 3) ? ref::S(c.pick({std::string{"integer"}, std::string{"array"}, std::string{"message"}, std::string{"wrap"}, std::string{"gain"}, std::string{"db"}, std::string{}}))
                             : c.coin() ? ref::I((int)c.range(-2, 300)) : ref::F(number(c)));
        break;
      default:
        what = ":namespace";
        args.push_back(ref::S(address()));
        args.push_back(ref::S(c.pick({std::string{"Data"}, std::string{"Container"}, std::string{"Application"}, std::string{"none"}, std::string{}})));
        for(auto t : {"nodes={", "attributes={"})
          if(!c.chance(1, 4))
          {
            args.push_back(ref::S(t));
            for(int k = 0; c.more(k, 4, 1); k++)
              args.push_back(ref::S(t[0] == 'n' ? c.pick({std::string{"a"}, std::string{"b.1"}, std::string{"new"}, std::string{}}) : std::string{attributes[c.draw(14)]}));
            if(!c.chance(1, 5))
              args.push_back(ref::S("}"));
          }
    }
    for(int k = 0; k < 4 && c.chance(1, 4) && !args.empty(); k++)
    {
      auto at = args.begin() + c.draw(args.size());
      switch(c.draw(4))
      {
        case 0:
          args.erase(at);
          break;
        case 1:
          args.insert(at, *at);
          break;
        case 2:
          *at = c.chance(1, 3) ? ref::B(c.bytes(6)) : c.coin() ? ref::I(c.i32()) : ref::F(c.f32());
          break;
        default:
          *at = ref::T(c.pick({'N', 'T', 'F', 'I', '[', ']'}));
          break;
      }
    }
    if(c.chance(1, 20))
      what = c.pick({std::string{"!get"}, std::string{"?"}, std::string{":"}, std::string{"!"}, std::string{"?x"}, std::string{"get"}});
    auto m = ref::message((to_server ? "cli" : "srv") + what, args);
    minuit = minuit || what.size() > 2;
    if(c.chance(1, 5))
      m.resize(c.range(0, (int)m.size()) & ~3);
    else if(c.chance(1, 6) && !m.empty())
      m[c.draw(m.size())] = (char)c.draw(256);
    std::ostringstream s;
    s << (to_server ? "server" : "client") << " receives " << what << " " << ref::hex(m);
    VF_NOTE(s.str());
    // in a buffer of its size
    auto l = wire().listeners.at(to_server ? w.port + 1 : w.port);
    std::vector<char> exactly(m.begin(), m.end());
    l->ProcessPacket(exactly.data(), (int)exactly.size(), oscpack::IpEndpointName(0x7F000001, 9));
    wire().pump(2000);
  }
  // both still work
  auto n = w.server->get_root_node().create_child("afterwards");
  auto p = n->create_parameter(val_type::INT);
  p->set_value(12);
  auto q = w.client->get_root_node().create_child("afterwards")->create_parameter(val_type::INT);
  auto f = w.client->get_protocol().pull_async(*q);
  wire().pump(2000);
  VF_CHECK(q->value() == ossia::value{12}, "nothing is pulled anymore");
  (void)before;
  c.nontrivial(minuit);
}
