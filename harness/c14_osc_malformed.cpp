// C14: any bytes can be received by an OSC device, and what is well-formed is delivered in order.
#include "osc_pair.hpp"

using namespace pairs;
using gv::MV;
using ref::Args;
const char* const vf::rule
    = "well-formed packets with nested bundles, packets damaged by cuts, overwritten lengths and bytes, and random bytes, "
      "received by devices with parameters of every type; non-trivial: a bundle of several messages, or a damaged packet";

struct target
{
  struct P
  {
    parameter_base* real{};
    MV cur;
  };
  network_context_ptr ctx = std::make_shared<network_context>();
  std::unique_ptr<generic_device> dev;
  std::map<std::string, P> ps;
  std::vector<std::pair<std::string, MV>> seen, want;
  ossia::net::can_learn<protocol_base>* learner{};
  int unhandled = 0;
  void on_unhandled(ossia::string_view, const ossia::value& v)
  {
    unhandled++;
    (void)gv::show(v);
  }

  target(vf::Case& c, kind k)
  {
    auto proto = make(k, ctx, 1, 2);
    dev = std::make_unique<generic_device>(std::move(proto), "dev");
    dev->on_unhandled_message.connect<&target::on_unhandled>(*this);
    static const MV::T types[] = {MV::FLOAT, MV::INT, MV::VEC2, MV::VEC3, MV::VEC4, MV::IMPULSE, MV::BOOL, MV::STRING, MV::LIST, MV::CHAR};
    static const char* names[] = {"/f", "/i", "/v/2", "/v/3", "/v/4", "/imp", "/b", "/s", "/l", "/c"};
    for (int i = 0; i < 10; i++)
    {
      std::string path = names[i];
      auto& n = create_node(*dev, path);
      auto& p = ps[path];
      p.real = n.create_parameter(gv::vt(types[i]));
      p.cur = gv::from_value(p.real->value());
      if (c.coin())
        p.real->add_callback([this, path](const ossia::value& v) { seen.emplace_back(path, gv::from_value(v)); });
      else
        untold.insert(path);
    }
  }
  std::set<std::string> untold;
  void take(const std::string& a, const Args& args)
  {
    auto& p = ps.at(a);
    p.cur = ref::taken(p.cur, args);
    if (!untold.count(a))
      want.emplace_back(a, p.cur);
  }
  void resync()
  {
    for (auto& [a, p] : ps)
      p.cur = gv::from_value(p.real->value());
    seen.clear();
    want.clear();
  }
  void check()
  {
    for (auto& [a, p] : ps)
      if (!gv::matches(p.real->value(), p.cur))
        VF_FAIL(a << " holds " << gv::show(p.real->value()) << " instead of " << gv::show(p.cur));
    if (seen.size() != want.size())
      VF_FAIL("observers were told " << seen.size() << " values instead of " << want.size());
    for (std::size_t i = 0; i < seen.size(); i++)
      if (seen[i].first != want[i].first || gv::show(seen[i].second) != gv::show(want[i].second))
        VF_FAIL("observers were told, at " << i << ", " << seen[i].first << " " << gv::show(seen[i].second) << " instead of " << want[i].first << " "
                                           << gv::show(want[i].second));
    seen.clear();
    want.clear();
  }
};

static std::string gen_message(vf::Case& c, target& t, std::vector<std::pair<std::string, Args>>& out)
{
  auto it = t.ps.begin();
  std::advance(it, c.draw(t.ps.size()));
  Args a = ref::gen_args_for(c, it->second.cur);
  out.emplace_back(it->first, a);
  return ref::message(it->first, a);
}
static std::string gen_packet(vf::Case& c, target& t, std::vector<std::pair<std::string, Args>>& out, int depth)
{
  if (depth >= 4 || c.chance(depth ? 2 : 1, 3))
    return gen_message(c, t, out);
  std::vector<std::string> el;
  for (std::size_t n = 0; c.more(n, 6, 3); n++)
    el.push_back(gen_packet(c, t, out, depth + 1));
  return ref::bundle(el, c.coin() ? 1 : c.draw(0));
}

static std::string damage(vf::Case& c, std::string s)
{
  for (int k = 0, n = (int)c.range(1, 3); k < n; k++)
    switch (c.draw(8))
    {
      case 0:
        s.resize(c.draw(s.size() + 1));
        break;
      case 1:
        s.resize(c.draw(s.size() + 1) & ~3u);
        break;
      case 2:
        if (!s.empty())
          s[c.draw(s.size())] = (char)c.draw(256);
        break;
      case 3:
        if (s.size() >= 4)
        {
          const auto at = c.draw(s.size() / 4) * 4;
          const uint32_t v = c.pick<uint32_t>({0u, 1u, 4u, 8u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffcu, 0x7ffffffcu, 100u, 64u});
          std::string b;
          ref::be32(b, v);
          s.replace(at, 4, b);
        }
        break;
      case 4:
        if (!s.empty())
        {
          const auto at = c.draw(s.size());
          s.insert(at, std::string(4 * c.range(1, 3), c.coin() ? '\0' : 'i'));
        }
        break;
      case 5:
        if (s.size() > 4)
        {
          const auto at = c.draw(s.size() / 4) * 4;
          s.erase(at, 4);
        }
        break;
      case 6:
      {
        // more or other type tags
        auto at = s.find(',');
        if (at != s.npos && at + 1 < s.size())
          s[at + 1 + c.draw(std::min<std::size_t>(4, s.size() - at - 1))] = c.pick<char>({'s', 'b', 'i', 'd', 'h', '[', ']', 'q', ',', '\0', 'r', 'S', 't'});
        break;
      }
      default:
        s += c.coin() ? s : c.bytes(8);
        if (s.size() > 4000)
          s.resize(4000);
        break;
    }
  return s;
}

static void deliver(const std::string& s)
{
  pipes[2].q.push_back(s);
  pump(2);
}

VF_PROP(packets, 8000, 100000)
{
  pipes.clear();
  target t{c, c.pick<kind>({C10, C11, CEXT, S10, SEXT})};
  for (std::size_t step = 0; c.more(step, 12, 4); step++)
  {
    std::vector<std::pair<std::string, Args>> msgs;
    auto s = gen_packet(c, t, msgs, 0);
    if (s.size() > 60000)
      continue;
    if (c.coin())
    {
      for (auto& [a, args] : msgs)
      {
        VF_NOTE(a << " " << ref::show(args));
        t.take(a, args);
      }
      VF_NOTE("packet of " << msgs.size());
      if (msgs.size() > 2)
        c.nontrivial();
      deliver(s);
      t.check();
    }
    else
    {
      s = c.chance(1, 8) ? c.bytes(64) : damage(c, s);
      c.nontrivial();
      VF_NOTE("damaged " << ref::hex(s));
      deliver(s);
      // whatever it did, every parameter still has a value of its type, and the next packets are received
      for (auto& [a, p] : t.ps)
        if (p.real->value().get_type() != gv::vt(p.cur.t))
          VF_FAIL(a << " became " << gv::show(p.real->value()) << " after a damaged packet");
      t.resync();
    }
  }
}

// the same while the device learns: nodes are created for what is received, and nothing breaks
VF_PROP(learning, 4000, 40000)
{
  pipes.clear();
  network_context_ptr ctx = std::make_shared<network_context>();
  auto proto = make(c.pick<kind>({C10, C11, CEXT}), ctx, 1, 2);
  proto->start_execution();
  auto p = proto.get();
  generic_device dev{std::move(proto), "dev"};
  if (auto l = dynamic_cast<ossia::net::can_learn<protocol_base>*>(p))
    l->set_learning(true);
  else
    VF_FAIL("cannot learn");
  for (std::size_t step = 0; c.more(step, 10, 4); step++)
  {
    Args a;
    ref::gen_args(c, a, 0, 6);
    std::string addr;
    for (int i = 0, n = (int)c.range(1, 3); i < n; i++)
      addr += "/" + c.str(4, "abc.*{}[]/ #:!?,");
    auto s = ref::message(addr, a);
    if (c.coin())
      s = ref::bundle({s, s});
    if (c.coin())
      s = damage(c, s);
    c.nontrivial();
    VF_NOTE(ref::hex(s));
    deliver(s);
  }
  // what was created is a tree whose nodes can be found by their address
  std::function<void(node_base&)> walk = [&](node_base& n) {
    for (auto ch : n.children_copy())
    {
      VF_CHECK(ch->get_parent() == &n, "a learned node has another parent");
      if (auto q = ch->get_parameter())
        (void)gv::show(q->value());
      walk(*ch);
    }
  };
  walk(dev);
}
