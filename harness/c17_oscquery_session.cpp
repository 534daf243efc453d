// C17: sessions between an OSCQuery server and its mirrors: whatever is edited, sent and asked for on
// either side, and however the messages on the various connections interleave, everyone ends up agreeing.
#include "oscq_session.hpp"

const char* const vf::rule
    = "histories of up to 30 steps of an OSCQuery server with 1 to 3 mirrors over an in-memory network: creations, "
      "removals, renamings, parameters, settings and attributes on the server, values pushed by any of them, requests "
      "of nodes by the mirrors, listening, mirrors which come and go, with deliveries on each connection in between; "
      "non-trivial: at least 2 parameters and 4 messages delivered";

namespace
{
// messages which wait: over UDP, and over the websockets
struct waiting
{
  std::size_t udp = oscpack::memnet::instance().queue.size(), web = 0;
  waiting()
  {
    for(auto con : memweb::network::instance().connections)
      web += con->to_server.size() + con->to_client.size();
  }
};
void sent(const waiting& b, const parameter_base& p, std::size_t peers)
{
  waiting a;
  const auto udp = a.udp - b.udp, web = a.web - b.web;
  VF_CHECK(udp + web == peers || udp + web == 0, "a push is sent " << udp + web << " times to " << peers << " peers");
  if(p.get_critical())
    VF_CHECK(udp == 0, "the value of a critical parameter is sent by UDP");
  else
    VF_CHECK(web == 0, "the value of a parameter which is not critical is sent by websocket");
}
}

VF_PROP(session, 8000, 80000)
{
  signed_zeros = false;
  ::session s{c};
  int params = 0;
  if(c.coin())
  {
    build(c, s.a->get_root_node(), params);
    // how the default value of a list or a boolean is told depends on its current value
    for(auto n : s.nodes())
      if(auto p = n->get_parameter(); p && (p->get_value_type() == val_type::LIST || p->get_value_type() == val_type::BOOL))
        ossia::net::set_default_value(*n, std::nullopt);
  }
  const bool echo = c.coin();
  s.a->set_echo(echo);
  s.connect();
  s.agree("after the connection");
  for(std::size_t step = 0; c.more(step, 30, 12); step++)
  {
    switch(c.weighted({6, 5, 1, 1}))
    {
      case 0: {
        // structure
        bool renamed = false;
        for(std::size_t i = 0; c.more(i, 6, 3); i++)
        {
          auto all = s.nodes();
          auto n = all[c.draw(all.size())];
          switch(c.draw(8))
          {
            case 7: {
              // somebody listens to it, here or there
              auto k = c.draw(s.mirrors.size() + 1);
              auto at = k ? find_node(s.mirrors[k - 1].dev->get_root_node(), n->osc_address()) : n;
              if(at && at->get_parameter())
              {
                VF_NOTE((k ? "a mirror" : "the server") << " listens to " << n->osc_address());
                at->get_parameter()->add_callback([](const ossia::value&) {});
              }
              break;
            }
            case 0: {
              auto m = n->create_child(gen_name(c));
              VF_NOTE("created " << m->osc_address());
              if(c.coin())
                parametrize(c, *m, true), params++;
              break;
            }
            case 1:
              if(n->get_parent() && c.coin())
              {
                VF_NOTE("removed " << n->osc_address());
                n->get_parent()->remove_child(*n);
              }
              break;
            case 2:
              if(n->get_parent())
              {
                auto name = gen_name(c);
                VF_NOTE("renaming " << n->osc_address() << " to " << name);
                n->set_name(name);
                renamed = true;
              }
              break;
            case 3:
              if(n->get_parent() && !n->get_parameter())
              {
                VF_NOTE("parameter on " << n->osc_address());
                parametrize(c, *n, true);
                params++;
              }
              break;
            case 4:
              if(auto p = n->get_parameter())
              {
                VF_NOTE("settings of " << n->osc_address());
                settings(c, *p, true);
              }
              break;
            default:
              VF_NOTE("attributes of " << n->osc_address());
              decorate(c, *n, true);
          }
          for(std::size_t k = 0; c.more(k, 5, 1); k++)
          {
            if(c.chance(1, 4))
              s.run_commands();
            else if(deliver(&c))
              s.delivered++;
          }
        }
        s.settle();
        // the value of a node may be asked for by the name which it has not anymore
        s.told_apart(renamed);
        s.agree("after changes");
        break;
      }
      case 1: {
        // values: each parameter by one of the peers
        std::map<parameter_base*, int> who;
        std::set<parameter_base*> by_mirror;
        for(std::size_t i = 0; c.more(i, 8, 4); i++)
        {
          auto all = s.nodes();
          auto p = all[c.draw(all.size())]->get_parameter();
          if(!p)
            continue;
          if(!who.count(p))
            who[p] = (int)c.draw(s.mirrors.size() + 1);
          if(p->get_disabled())
            continue;
          auto v = wire(c, *p);
          if(p->get_domain())
          {
            v = ossia::apply_domain(p->get_domain(), p->get_bounding(), v);
            // bounding is done again by those who receive the value: an end of a range which wraps may be the other
            // one then
            if(!v.valid() || show(v).find("nan") != std::string::npos
               || !same(v, ossia::apply_domain(p->get_domain(), p->get_bounding(), v)))
              continue;
            if(auto k = v.target<ossia::vec4f>(); k && colour8(*p)
               && std::any_of(k->begin(), k->end(), [](float f) { return !(f >= 0 && f <= 255 && f == std::floor(f)); }))
              continue;
          }
          // anything is a repetition of an impulse
          if(p->get_repetition_filter() == repetition_filter::ON && holds_impulse(p->value()))
            continue;
          const int k = who[p];
          if(k == 0)
          {
            VF_NOTE("server: " << p->get_node().osc_address() << " = " << show(v));
            waiting before;
            p->push_value(v);
            sent(before, *p, s.mirrors.size());
          }
          else
          {
            auto n = find_node(s.mirrors[k - 1].dev->get_root_node(), p->get_node().osc_address());
            auto q = n->get_parameter();
            VF_NOTE("mirror " << k - 1 << ": " << p->get_node().osc_address() << " = " << show(v));
            waiting before;
            q->push_value(v);
            sent(before, *q, 1);
            if(p->get_access() == access_mode::GET)
            {
              waiting after;
              VF_CHECK(after.udp == before.udp && after.web == before.web, "a value is sent to a parameter which can only be read");
              q->set_value(p->value());
              continue;
            }
            by_mirror.insert(p);
          }
          while(c.coin() && deliver(&c))
            s.delivered++;
        }
        s.settle();
        for(auto& [p, k] : who)
        {
          auto address = p->get_node().osc_address();
          for(std::size_t m = 0; m < s.mirrors.size(); m++)
          {
            auto q = find_node(s.mirrors[m].dev->get_root_node(), address)->get_parameter();
            // without echo, the server does not tell the others
            if(k != 0 && (int)m != k - 1 && !echo)
              q->set_value(p->value());
          }
        }
        s.agree("after values");
        break;
      }
      case 2:
        if(s.mirrors.size() < 3)
        {
          VF_NOTE("one more mirror");
          s.connect();
        }
        else
        {
          VF_NOTE("a mirror leaves");
          s.mirrors.erase(s.mirrors.begin() + c.draw(s.mirrors.size()));
          s.settle();
        }
        break;
      default: {
        auto& m = s.mirrors[c.draw(s.mirrors.size())];
        auto all = s.nodes();
        auto n = all[c.draw(all.size())];
        auto in = find_node(m.dev->get_root_node(), n->osc_address());
        VF_CHECK(in, n->osc_address() << " not found");
        const auto address = n->osc_address();
        auto name = safe_name(c);
        switch(c.draw(3))
        {
          case 0: {
            parameter_data d{name};
                m.proto->request_add_node(*in, d);
            s.settle();
            VF_CHECK(find_node(s.a->get_root_node(), address)->find_child(name), "a node " << name << " was requested in " << address);
            break;
          }
          case 1:
            if(n->get_parent())
            {
              m.proto->request_remove_node(*in);
              s.settle();
              VF_CHECK(!find_node(s.a->get_root_node(), address), "the removal of " << address << " was requested");
            }
            break;
          default:
            if(n->get_parent())
            {
              auto twin = n->get_parent()->find_child(name);
              const bool taken = twin && twin != n;
              m.proto->request_rename_node(*in, name);
              s.settle();
              auto stem = name.substr(0, name.find('.'));
              VF_CHECK(
                  taken ? n->get_name().substr(0, stem.size()) == stem : n->get_name() == name, "was to be renamed to " << name << ", is " << n->get_name());
            }
        }
        s.told_apart(false);
        s.agree("after a request");
      }
    }
  }
  c.nontrivial(params >= 2 && s.delivered >= 4);
}
