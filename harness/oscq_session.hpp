// A real OSCQuery server and its real mirrors over an in-memory network, whose messages move one by one.
#pragma once
#include "oscq_gen.hpp"

#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/oscquery/oscquery_mirror.hpp>
#include <ossia/network/oscquery/oscquery_server.hpp>

#include <oscpack/ip/UdpSocket.h>
#include <time.h>

#include <memweb.hpp>
#include <set>

// The OSC receivers sleep for 50 ms each time one is closed
extern "C" int nanosleep(const struct timespec* t, struct timespec*)
{
  struct timespec s = *t;
  if(s.tv_nsec >= 40'000'000)
    s.tv_nsec = 1000;
  return clock_nanosleep(CLOCK_MONOTONIC, 0, &s, nullptr);
}

namespace
{
// one message on one of the connections which have some; false when there is none
bool deliver(vf::Case* c)
{
  auto& web = memweb::network::instance();
  auto& udp = oscpack::memnet::instance();
  std::vector<std::function<void()>> ready;
  for(auto con : web.connections)
  {
    if(!con->to_server.empty())
      ready.push_back([con, &web] {
        auto m = std::move(con->to_server.front());
        con->to_server.pop_front();
        if(m.text && web.in_transit)
          web.in_transit(m.data);
        con->server->receive(con, m);
      });
    if(!con->to_client.empty())
      ready.push_back([con, &web] {
        auto m = std::move(con->to_client.front());
        con->to_client.pop_front();
        if(m.text && web.in_transit)
          web.in_transit(m.data);
        auto op = m.text ? websocketpp::frame::opcode::TEXT : websocketpp::frame::opcode::BINARY;
        con->client->handler(con, op, m.data);
      });
  }
  if(!web.http.empty())
    ready.push_back([&] {
      auto f = std::move(web.http.front());
      web.http.pop_front();
      f();
    });
  if(!udp.queue.empty())
    ready.push_back([&] { udp.pump_one(); });
  if(ready.empty())
    return false;
  ready[c ? c->draw(ready.size()) : 0]();
  return true;
}

struct peer
{
  oq::oscquery_mirror_protocol* proto{};
  std::unique_ptr<generic_device> dev;
};
struct session
{
  vf::Case& c;
  oq::oscquery_server_protocol* server{};
  std::unique_ptr<generic_device> a;
  std::vector<peer> mirrors;
  int next_port = 20000, delivered = 0;
  std::vector<std::string> requests;

  session(vf::Case& c) : c{c}
  {
    auto& web = memweb::network::instance();
    web.connections.clear();
    web.http.clear();
    oscpack::memnet::instance().queue.clear();
    auto p = std::make_unique<oq::oscquery_server_protocol>(1234, 5678);
    server = p.get();
    a = std::make_unique<generic_device>(std::move(p), "srv");
    a->on_add_node_requested.connect<&session::add>(*this);
    a->on_remove_node_requested.connect<&session::remove>(*this);
    a->on_rename_node_requested.connect<&session::rename>(*this);
  }
  ~session()
  {
    auto& web = memweb::network::instance();
    mirrors.clear();
    web.http.clear();
    oscpack::memnet::instance().queue.clear();
    a.reset();
    web.connections.clear();
    web.http.clear();
  }
  // what an application does of the requests of its clients
  void add(std::string parent, const parameter_data& dat)
  {
    VF_NOTE("requested: " << dat.name << " in " << parent);
    if(auto n = find_node(a->get_root_node(), parent))
      if(!n->find_child(dat.name))
        if(auto cld = n->create_child(dat.name))
        {
          if(dat.type)
            setup_parameter(dat.type, *cld);
        }
  }
  void remove(std::string parent, std::string name)
  {
    VF_NOTE("requested: no " << name << " in " << parent);
    if(auto n = find_node(a->get_root_node(), parent))
      n->remove_child(name);
  }
  void rename(std::string node, std::string name)
  {
    VF_NOTE("requested: " << node << " renamed to " << name);
    if(auto n = find_node(a->get_root_node(), node))
      n->set_name(name);
  }

  void connect()
  {
    peer m;
    auto p = std::make_unique<oq::oscquery_mirror_protocol>("ws://127.0.0.1:5678", next_port++);
    p->set_zombie_on_remove(false);
    m.proto = p.get();
    m.dev = std::make_unique<generic_device>(std::move(p), "mirror");
    mirrors.push_back(std::move(m));
    auto& last = mirrors.back();
    settle();
    auto f = last.proto->update_async(last.dev->get_root_node());
    settle();
    VF_CHECK(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the namespace was not received");
  }
  void run_commands()
  {
    server->run_commands();
    for(auto& m : mirrors)
      m.proto->run_commands();
  }
  void settle()
  {
    for(int quiet = 0, n = 0; quiet < 3; quiet++)
    {
      while(deliver(&c))
      {
        quiet = 0;
        delivered++;
        VF_CHECK(n++ < 20000, "messages are exchanged for ever");
      }
      run_commands();
    }
  }
  // A change message does not carry the value, which is asked for separately: some of them cannot be told in JSON
  // without their type
  void told_apart(bool all)
  {
    std::vector<node_base*> nodes;
    collect(a->get_root_node(), nodes);
    for(auto n : nodes)
      if(auto p = n->get_parameter())
      {
        auto t = p->get_value_type();
        if(all || t == val_type::BOOL || t == val_type::LIST || colour8(*p))
          for(auto& m : mirrors)
            if(auto k = find_node(m.dev->get_root_node(), n->osc_address()))
              if(auto q = k->get_parameter())
                q->set_value(p->value());
      }
  }
  void agree(const std::string& when)
  {
    for(std::size_t i = 0; i < mirrors.size(); i++)
      compare_rec(a->get_root_node(), mirrors[i].dev->get_root_node(), "(mirror " + std::to_string(i) + " " + when + ")");
  }
  std::vector<node_base*> nodes()
  {
    std::vector<node_base*> v;
    collect(a->get_root_node(), v);
    return v;
  }
};
std::string safe_name(vf::Case& c) { return c.pick({"a", "b", "c", "foo", "bar.1", "foo.bar", "x y"}); }

// a value which OSC tells exactly to a parameter of this type
ossia::value wire(vf::Case& c, const parameter_base& p)
{
  if(colour8(p))
    return gen_for(c, p);
  auto clean = [](std::string s) {
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    return s;
  };
  auto one = [&](val_type t) -> ossia::value {
    if(t == val_type::STRING)
      return clean(text(c));
    return gen(c, t);
  };
  if(p.get_value_type() == val_type::LIST)
  {
    std::vector<ossia::value> l;
    // a list of one element, or of a few floats, is not told from them in a description
    l.push_back(one(c.pick({val_type::INT, val_type::BOOL, val_type::STRING})));
    int n = (int)c.range(1, 5);
    for(int i = 0; i < n; i++)
      l.push_back(one(c.pick({val_type::INT, val_type::FLOAT, val_type::BOOL, val_type::CHAR, val_type::STRING})));
    return l;
  }
  return one(p.get_value_type());
}
}
