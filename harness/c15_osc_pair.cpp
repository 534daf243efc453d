// C15: two devices connected by OSC: what is pushed on one arrives on the other, in order, once.
#include "osc_pair.hpp"

#include <ossia/network/local/local.hpp>

#include <list>

using namespace pairs;
using gv::MV;
using ref::Args;
const char* const vf::rule
    = "histories on two or three devices with the same parameters, connected by each kind of OSC protocol: pushes, raw pushes, bundles, "
      "attribute changes, observers, deliveries one packet at a time; non-trivial: both sides push and a packet is delivered";

struct Obs
{
  int n{};
};
struct P
{
  std::string path;
  parameter_base* real{};
  MV cur, prev;
  bool prev_known{};
  access_mode access{access_mode::BI};
  bool muted{}, disabled{}, critical{}, rep{}, blob{}, rgba{};
  bool clip{};
  int lo{}, hi{};
  std::vector<parameter_base::callback_index> cbs;
  std::vector<ossia::value> seen;
  std::vector<MV> want;
};
struct Dev
{
  kind k;
  std::unique_ptr<generic_device> dev;
  std::deque<P> ps;
  std::deque<std::vector<std::pair<int, Args>>> out; // packets on their way: messages (parameter, arguments)
  int in_port, out_port;
};

static MV bounded(const P& p, MV m)
{
  if (p.clip && m.t == MV::INT)
    m.i = std::min(p.hi, std::max(p.lo, m.i));
  if (p.clip && m.t == MV::FLOAT)
    m.f = std::min((float)p.hi, std::max((float)p.lo, m.f));
  return m;
}
static bool equal(const MV& a, const MV& b)
{
  return gv::to_value(a) == gv::to_value(b);
}
static void set(P& p, const MV& m)
{
  p.prev = p.cur;
  p.prev_known = true;
  p.cur = m;
  if (!p.cbs.empty())
    p.want.push_back(m);
}
static bool filtered(const P& p, const MV& m)
{
  return p.muted || p.disabled || (p.rep && equal(m, p.prev));
}

static const MV::T TYPES[] = {MV::FLOAT, MV::INT, MV::VEC2, MV::VEC3, MV::VEC4, MV::IMPULSE, MV::BOOL, MV::STRING, MV::LIST, MV::CHAR};

static MV gen_of(vf::Case& c, const P& p)
{
  if (p.blob)
  {
    MV m = ref::mv(MV::STRING);
    m.s = c.bytes(12);
    return m;
  }
  gv::Opts o;
  o.maxdepth = 3;
  for (int tries = 0; tries < 200; tries++)
  {
    MV m = gv::gen(c, o);
    if (m.t != p.cur.t)
    {
      m = ref::mv(p.cur.t);
      switch (m.t)
      {
        case MV::FLOAT:
          m.f = c.f32();
          break;
        case MV::INT:
          m.i = c.coin() ? (int)c.range(-8, 8) : c.i32();
          break;
        case MV::CHAR:
          m.i = (int)c.range(-128, 127);
          break;
        case MV::BOOL:
          m.i = c.coin();
          break;
        case MV::STRING:
          m.s = c.str(12, "ab \"/z");
          break;
        case MV::VEC2:
        case MV::VEC3:
        case MV::VEC4:
          for (int k = 0; k < (m.t == MV::VEC2 ? 2 : m.t == MV::VEC3 ? 3 : 4); k++)
            m.v[k] = c.f32();
          break;
        case MV::LIST:
          continue;
        default:
          break;
      }
    }
    if (p.rgba)
      for (auto& f : m.v)
        f = (float)c.range(0, 255);
    return m;
  }
  return p.cur;
}

VF_PROP(devices, 6000, 80000)
{
  pipes.clear();
  auto& net = oscpack::memnet::instance();
  while (net.pump_one())
    ;
  auto ctx = std::make_shared<network_context>();
  // the legacy protocol starts and stops a thread, and sleeps: keep it rare
  const kind k = c.chance(1, 60) ? LEGACY : c.pick<kind>({C10, C11, CEXT, S10, SEXT});
  const auto fl = flavour(k);
  Dev devs[2];
  for (int i = 0; i < 2; i++)
  {
    auto& d = devs[i];
    d.k = k;
    d.in_port = 9000 + i;
    d.out_port = 9000 + (1 - i);
    d.dev = std::make_unique<generic_device>(make(k, ctx, d.out_port, d.in_port), i ? "B" : "A");
  }
  const int np = (int)c.range(1, 8);
  for (int j = 0; j < np; j++)
  {
    const auto t = TYPES[c.draw(10)];
    const bool blob = t == MV::STRING && k != LEGACY && c.chance(1, 3);
    const bool rgba = t == MV::VEC4 && c.chance(1, 3);
    const std::string path = (c.coin() ? "/p" : "/q/r.") + std::to_string(j);
    for (auto& d : devs)
    {
      d.ps.emplace_back();
      auto& p = d.ps.back();
      p.path = path;
      p.cur = ref::mv(t);
      p.blob = blob;
      p.rgba = rgba;
      auto& n = create_node(*d.dev, path);
      p.real = n.create_parameter(gv::vt(t));
      if (rgba)
        p.real->set_unit(ossia::rgba8_u{});
      if (blob)
        set_extended_type(n, generic_buffer_type());
      p.cur = gv::from_value(p.real->value());
      p.prev = MV{};
      if ((t == MV::INT || t == MV::FLOAT) && c.chance(1, 3))
      {
        p.clip = true;
        p.lo = (int)c.range(-5, 0);
        p.hi = (int)c.range(0, 5);
        p.real->set_bounding(bounding_mode::CLIP);
        if (t == MV::INT)
          p.real->set_domain(make_domain(p.lo, p.hi));
        else
          p.real->set_domain(make_domain((float)p.lo, (float)p.hi));
      }
    }
  }
  const std::size_t net0 = net.queue.size();
  auto in_flight = [&](int to) -> std::size_t {
    if (k != LEGACY)
      return pipes[9000 + to].q.size();
    std::size_t n = 0;
    for (auto& p : net.queue)
      n += p.to == 9000 + to;
    return n;
  };
  (void)net0;
  bool pushed[2]{}, delivered = false;
  // deliver the oldest packet going to i
  auto deliver = [&](int i) {
    auto& from = devs[1 - i];
    auto& to = devs[i];
    if (from.out.empty())
      return false;
    for (auto& [j, args] : from.out.front())
    {
      auto& p = to.ps[j];
      set(p, bounded(p, ref::taken(p.cur, args)));
    }
    from.out.pop_front();
    delivered = true;
    if (k != LEGACY)
    {
      if (!pump(9000 + i))
        VF_FAIL("a packet to device " << i << " was not sent");
    }
    else
    {
      // the in-memory network is one queue: find the packet
      std::string data;
      oscpack::PacketListener* l{};
      {
        std::lock_guard _{net.mtx};
        auto it = std::find_if(net.queue.begin(), net.queue.end(), [&](auto& p) { return p.to == 9000 + i; });
        VF_CHECK(it != net.queue.end(), "a packet to device " << i << " was not sent");
        data = it->data;
        net.queue.erase(it);
        l = net.listeners[9000 + i];
      }
      std::vector<char> exactly(data.begin(), data.end());
      l->ProcessPacket(exactly.data(), (int)exactly.size(), oscpack::IpEndpointName(0x7F000001, 1));
    }
    return true;
  };
  auto check = [&](const std::string& what) {
    for (int i = 0; i < 2; i++)
    {
      if (in_flight(1 - i) != devs[i].out.size())
        VF_FAIL("device " << i << " has sent " << in_flight(1 - i) << " packets instead of " << devs[i].out.size() << " after " << what << " (kind " << k << ")");
      for (auto& p : devs[i].ps)
      {
        if (!gv::matches(p.real->value(), p.cur))
          VF_FAIL("device " << i << ", " << p.path << " holds " << gv::show(p.real->value()) << " instead of " << gv::show(p.cur) << " after " << what << " (kind "
                            << k << ")");
        bool ok = p.seen.size() == p.want.size() * p.cbs.size();
        for (std::size_t x = 0; ok && x < p.seen.size(); x++)
          ok = gv::matches(p.seen[x], p.want[x / p.cbs.size()]);
        if (!ok)
          VF_FAIL("device " << i << ", the " << p.cbs.size() << " observers of " << p.path << " were told " << p.seen.size() << " values, not as expected, after "
                            << what << " (kind " << k << ")");
        p.seen.clear();
        p.want.clear();
      }
    }
  };
  for (std::size_t step = 0; c.more(step, 40, 15); step++)
  {
    const int i = (int)c.draw(2);
    auto& d = devs[i];
    const int j = (int)c.draw(np);
    auto& p = d.ps[j];
    std::ostringstream what;
    what << "device " << i << " " << p.path << ": ";
    switch (c.weighted({8, 1, 2, 2, 8, 2, 3}))
    {
      case 0: // push a value
      {
        MV m = c.chance(1, 4) ? p.cur : gen_of(c, p);
        what << "push " << gv::show(m);
        pushed[i] = true;
        set(p, m);
        const MV s = bounded(p, m);
        if (!(is_client(k) && p.access == access_mode::GET) && !filtered(p, s))
          d.out.push_back({{j, ref::sent(fl, s, p.rgba, p.blob)}});
        if (c.coin())
          p.real->push_value(gv::to_value(m));
        else
        {
          const auto v = gv::to_value(m);
          p.real->push_value(v);
        }
        break;
      }
      case 1: // push again what it has
      {
        what << "push";
        const MV s = bounded(p, p.cur);
        if (!(is_client(k) && p.access == access_mode::GET) && !filtered(p, s))
          d.out.push_back({{j, ref::sent(fl, s, p.rgba, p.blob)}});
        p.real->push_value();
        break;
      }
      case 2: // push something described
      {
        MV m = gen_of(c, p);
        what << "raw " << gv::show(m);
        full_parameter_data f{p.path, gv::to_value(m)};
        f.type = gv::vt(m.t);
        f.access = c.chance(1, 4) ? access_mode::GET : access_mode::BI;
        f.muted = c.chance(1, 6);
        if (p.rgba)
          f.unit = ossia::rgba8_u{};
        if (p.blob)
          set_extended_type(f.extended, generic_buffer_type());
        const bool sent = !(is_client(k) && f.access == access_mode::GET) && !f.muted;
        if (sent)
          d.out.push_back({{j, ref::sent(fl, m, p.rgba, p.blob)}});
        const bool r = d.dev->get_protocol().push_raw(f);
        VF_CHECK(r == sent, "push_raw returns " << r);
        break;
      }
      case 3: // push several at once
      {
        std::vector<const parameter_base*> v;
        std::vector<std::pair<int, Args>> msgs;
        for (int n = (int)c.range(1, 4); n > 0; n--)
        {
          const int x = (int)c.draw(np);
          auto& q = d.ps[x];
          if (q.cur.t == MV::IMPULSE && fl == ref::V10)
            continue;
          if (k == LEGACY && q.access == access_mode::GET)
            continue;
          v.push_back(q.real);
          const MV s = bounded(q, q.cur);
          if (!(is_client(k) && q.access == access_mode::GET) && !filtered(q, s))
            msgs.emplace_back(x, ref::sent(fl, s, q.rgba, q.blob));
        }
        what << "bundle of " << v.size();
        d.out.push_back(msgs);
        VF_CHECK(d.dev->get_protocol().push_bundle(v), "push_bundle returns false");
        break;
      }
      case 4:
        what << "delivery";
        deliver(i);
        break;
      case 5: // observers
        if (p.cbs.empty() || c.coin())
        {
          what << "add observer";
          auto pp = &p;
          p.cbs.push_back(p.real->add_callback([pp](const ossia::value& v) { pp->seen.push_back(v); }));
        }
        else
        {
          what << "remove observer";
          const auto x = c.draw(p.cbs.size());
          p.real->remove_callback(p.cbs[x]);
          p.cbs.erase(p.cbs.begin() + x);
        }
        break;
      default: // attributes
        switch (c.draw(4))
        {
          case 0:
            what << "mute";
            p.real->set_muted(p.muted = !p.muted);
            break;
          case 1:
            what << "disable";
            p.real->set_disabled(p.disabled = !p.disabled);
            break;
          case 2:
            p.access = c.pick<access_mode>({access_mode::GET, access_mode::SET, access_mode::BI});
            what << "access " << (int)p.access;
            p.real->set_access(p.access);
            break;
          default:
            p.rep = !p.rep;
            what << "repetition filter " << p.rep;
            p.real->set_repetition_filter(p.rep ? repetition_filter::ON : repetition_filter::OFF);
            break;
        }
        break;
    }
    VF_NOTE(what.str());
    check(what.str());
  }
  if (pushed[0] && pushed[1] && delivered)
    c.nontrivial();
  // in the end everything is delivered
  for (int i = 0; i < 2; i++)
    while (deliver(i))
      check("the last deliveries");
}

// Messages received by one protocol of a device are forwarded to its other protocols when it echoes, and only then
VF_PROP(relays, 4000, 50000)
{
  pipes.clear();
  auto ctx = std::make_shared<network_context>();
  auto mux = std::make_unique<multiplex_protocol>();
  auto& m = *mux;
  generic_device dev{std::move(mux), "relay"};
  const int n = (int)c.range(1, 3);
  std::vector<kind> kinds;
  std::vector<protocol_base*> protos;
  auto in = [](int i) { return 9100 + 2 * i; };
  auto out = [](int i) { return 9101 + 2 * i; };
  for (int i = 0; i < n; i++)
  {
    kinds.push_back(c.pick<kind>({C10, C11, CEXT, S10, SEXT}));
    auto p = make(kinds[i], ctx, out(i), in(i));
    protos.push_back(p.get());
    m.expose_to(std::move(p));
  }
  std::deque<P> ps;
  for (int j = 0, np = (int)c.range(1, 5); j < np; j++)
  {
    ps.emplace_back();
    auto& p = ps.back();
    p.path = "/p." + std::to_string(j);
    p.cur = ref::mv(TYPES[c.draw(10)]);
    p.real = create_node(dev, p.path).create_parameter(gv::vt(p.cur.t));
    p.cur = gv::from_value(p.real->value());
  }
  for (std::size_t step = 0; c.more(step, 25, 8); step++)
  {
    auto& p = ps[c.draw(ps.size())];
    const int i = (int)c.draw(n);
    std::vector<std::vector<std::string>> want(n);
    std::ostringstream what;
    switch (c.draw(6))
    {
      case 0:
        dev.set_echo(!dev.has_echo());
        what << "echo " << dev.has_echo();
        break;
      case 1:
      {
        auto pp = &p;
        if (p.cbs.empty())
          p.cbs.push_back(p.real->add_callback([pp](const ossia::value& v) { pp->seen.push_back(v); }));
        what << "observer";
        break;
      }
      case 2:
      {
        MV v = gen_of(c, p);
        what << "push " << gv::show(v);
        set(p, v);
        for (int x = 0; x < n; x++)
          want[x].push_back(ref::message(p.path, ref::sent(flavour(kinds[x]), v)));
        p.real->push_value(gv::to_value(v));
        break;
      }
      default:
      {
        Args a = ref::gen_args_for(c, p.cur);
        what << "protocol " << i << " receives " << ref::show(a);
        set(p, ref::taken(p.cur, a));
        if (dev.has_echo())
          for (int x = 0; x < n; x++)
            if (x != i)
            {
              want[x].push_back(ref::message(p.path, ref::sent(flavour(kinds[x]), p.cur)));
              c.nontrivial();
            }
        pipes[in(i)].q.push_back(ref::message(p.path, a));
        VF_CHECK(pump(in(i)), "nothing received");
        break;
      }
    }
    VF_NOTE(p.path << ": " << what.str());
    for (int x = 0; x < n; x++)
    {
      auto& q = pipes[out(x)].q;
      // strings with null characters (which only a buffer can carry) cannot be compared as texts
      if (q.size() != want[x].size())
        VF_FAIL("protocol " << x << " sent " << q.size() << " messages instead of " << want[x].size() << " after " << what.str());
      for (std::size_t y = 0; y < q.size(); y++)
        if (q[y] != want[x][y])
          VF_FAIL("protocol " << x << " sent " << ref::hex(q[y]) << " instead of " << ref::hex(want[x][y]) << " after " << what.str());
      q.clear();
    }
    for (auto& r : ps)
    {
      if (!gv::matches(r.real->value(), r.cur))
        VF_FAIL(r.path << " holds " << gv::show(r.real->value()) << " instead of " << gv::show(r.cur) << " after " << what.str());
      if (r.seen.size() != r.want.size())
        VF_FAIL("the observer of " << r.path << " was told " << r.seen.size() << " values instead of " << r.want.size() << " after " << what.str());
      r.seen.clear();
      r.want.clear();
    }
  }
}

// Messages go to the parameter which is at the address when they are received, however the tree was edited
VF_PROP(edits, 4000, 50000)
{
  pipes.clear();
  auto ctx = std::make_shared<network_context>();
  const kind k = c.pick<kind>({C10, C11, CEXT, S10, SEXT});
  generic_device dev{make(k, ctx, 9201, 9200), "edited"};
  struct item
  {
    node_base* node{};
    parameter_base* p{};
    MV cur;
    bool observed{};
    int told{}, want{};
  };
  std::list<item> items;
  int unhandled = 0, want_unhandled = 0, edits = 0, messages = 0;
  struct counter
  {
    int& n;
    void operator()(ossia::string_view, const ossia::value&) { n++; }
  } cnt{unhandled};
  dev.on_unhandled_message.connect<&counter::operator()>(cnt);
  const std::vector<std::string> names{"a", "b", "c"};
  std::vector<std::string> paths;
  for (auto& x : names)
  {
    paths.push_back("/" + x);
    for (auto& y : names)
      paths.push_back("/" + x + "/" + y);
  }
  std::function<void(node_base&)> forget = [&](node_base& n) {
    for (auto ch : n.children_copy())
      forget(*ch);
    items.remove_if([&](item& i) { return i.node == &n; });
  };
  for (std::size_t step = 0; c.more(step, 40, 15); step++)
  {
    const auto& path = paths[c.draw(paths.size())];
    auto n = find_node(dev.get_root_node(), path);
    item* it{};
    for (auto& i : items)
      if (i.node == n)
        it = &i;
    std::ostringstream what;
    switch (c.weighted({4, 2, 2, 3, 1, 6}))
    {
      case 0:
        if (!it)
        {
          what << "parameter " << path;
          auto& node = n ? *n : create_node(dev, path);
          items.push_back({&node, node.create_parameter(val_type::INT), {}, false, 0, 0});
          items.back().cur = gv::from_value(items.back().p->value());
        }
        break;
      case 1:
        if (n)
        {
          const auto name = names[c.draw(3)];
          // keep to the names above
          if (!n->get_parent()->find_child(name))
          {
            what << "rename " << path << " to " << name;
            n->set_name(name);
            edits++;
          }
        }
        break;
      case 2:
        if (n)
        {
          what << "remove " << path;
          forget(*n);
          n->get_parent()->remove_child(*n);
          edits++;
        }
        break;
      case 3:
        if (it && !it->observed)
        {
          what << "observe " << path;
          it->observed = true;
          it->p->add_callback([it](const ossia::value&) { it->told++; });
        }
        break;
      case 4:
        if (it)
        {
          what << "no parameter at " << path;
          n->remove_parameter();
          items.remove_if([&](item& i) { return i.node == n; });
          edits++;
        }
        break;
      default: {
        Args a{ref::Arg{}};
        a = ref::gen_args_for(c, ref::mv(MV::INT));
        what << "message to " << path << " " << ref::show(a);
        messages++;
        if (it)
        {
          it->cur = ref::taken(it->cur, a);
          it->want += it->observed;
        }
        else if (!n)
          want_unhandled++;
        pipes[9200].q.push_back(ref::message(path, a));
        VF_CHECK(pump(9200), "nothing received");
      }
    }
    if (what.str().empty())
      continue;
    VF_NOTE(what.str());
    for (auto& i : items)
    {
      if (!gv::matches(i.p->value(), i.cur))
        VF_FAIL(i.node->osc_address() << " holds " << gv::show(i.p->value()) << " instead of " << gv::show(i.cur) << " after " << what.str());
      if (i.told != i.want)
        VF_FAIL("the observer of " << i.node->osc_address() << " was told " << i.told << " values instead of " << i.want << " after " << what.str());
    }
    VF_CHECK(unhandled == want_unhandled, "there were " << unhandled << " unhandled messages instead of " << want_unhandled << " after " << what.str());
  }
  c.nontrivial(edits >= 1 && messages >= 2);
}
