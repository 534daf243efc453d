// C13: what is sent over OSC for a parameter, and what a parameter takes from an OSC message.
#include "osc_ref.hpp"

#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/osc/detail/osc_1_1_extended_policy.hpp>
#include <ossia/network/osc/detail/osc_1_1_policy.hpp>
#include <ossia/network/osc/detail/osc_protocol_common.hpp>

using namespace ossia;
using namespace ossia::net;
using gv::MV;
using ref::Args;
const char* const vf::rule
    = "values, parameters and OSC messages of every type, nested lists and arrays, colours, buffers, bundles of parameters, "
      "addresses and patterns; non-trivial: a list, a buffer, a colour, a bundle, or a message that changes a value";

struct silent : protocol_base
{
  silent() : protocol_base{flags{SupportsMultiplex}} { }
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return false; }
};

template <class P>
struct flavour_of;
template <>
struct flavour_of<osc_1_0_policy>
{
  static constexpr auto v = ref::V10;
};
template <>
struct flavour_of<osc_1_1_policy>
{
  static constexpr auto v = ref::V11;
};
template <>
struct flavour_of<osc_extended_policy>
{
  static constexpr auto v = ref::EXT;
};

static bool zeros(const std::string& s)
{
  return s.find('\0') != s.npos;
}
// a value that OSC can carry: no strings with a null character
static MV gen_sendable(vf::Case& c, bool rgba)
{
  gv::Opts o;
  o.maxdepth = 4;
  MV m = gv::gen(c, o);
  if (rgba)
  {
    std::function<void(MV&)> fix = [&](MV& x) {
      if (x.t == MV::VEC4)
        for (auto& f : x.v)
          f = (float)c.range(0, 255) + (c.coin() ? 0.f : 0.5f);
      for (auto& y : x.l)
        fix(y);
    };
    if (c.coin())
    {
      m = MV{};
      m.t = MV::VEC4;
    }
    fix(m);
  }
  if (c.chance(1, 12))
  {
    // long
    m = MV{};
    const std::size_t n = c.pick<std::size_t>({500, 1000, 1017, 1018, 1019, 2040, 4000, 8000, 16370, 16384, 20000, 33000, 60000});
    const std::size_t k = n + c.draw(40);
    if (c.coin())
    {
      m.t = MV::STRING;
      m.s = std::string(k, 'x');
    }
    else
    {
      m.t = MV::LIST;
      MV s;
      if (c.coin())
      {
        s.t = MV::STRING;
        s.s = std::string(k, 'y');
        m.l.push_back(s);
      }
      else
      {
        s.t = MV::INT;
        for (std::size_t i = 0; i < k / 5; i++)
        {
          s.i = (int)i;
          m.l.push_back(s);
        }
      }
    }
  }
  return m;
}

struct sink
{
  std::vector<std::string>* out;
  void operator()(const char* d, std::size_t n) const { out->emplace_back(d, n); }
};

template <class Policy, class Param>
static void check_sent(vf::Case& c, const Param& p, const std::string& addr, const MV& m, bool rgba, bool blob)
{
  constexpr auto fl = flavour_of<Policy>::v;
  const auto want = ref::message(addr, ref::sent(fl, m, rgba, blob));
  const auto v = gv::to_value(m);
  std::vector<std::string> got;
  v.apply(osc_value_send_visitor<Param, Policy, sink>{p, addr, sink{&got}});
  if (got.size() != 1)
    VF_FAIL("sending " << gv::show(m).substr(0, 300) << " in OSC flavour " << fl << " (" << want.size() << " bytes) sent " << got.size() << " messages");
  if (got[0] != want)
    VF_FAIL("sending " << gv::show(m).substr(0, 300) << " in OSC flavour " << fl << (rgba ? " as a colour" : "") << (blob ? " as a buffer" : "") << " gives "
                       << got[0].size() << ": " << ref::hex(got[0]) << " instead of " << want.size() << ": " << ref::hex(want));

  // the same, written in a buffer which was used for something else
  ossia::buffer_pool::buffer buf = ossia::buffer_pool::instance().acquire();
  if (c.coin())
    buf.resize(c.draw(3000));
  for (auto& ch : buf)
    ch = 'Z';
  v.apply(osc_value_write_visitor<Param, Policy>{p, addr, buf});
  if (std::string(buf.data(), buf.size()) != want)
    VF_FAIL("writing " << gv::show(m).substr(0, 300) << " in OSC flavour " << fl << " gives " << buf.size() << ": "
                       << ref::hex(std::string(buf.data(), buf.size())) << " instead of " << ref::hex(want));
  ossia::buffer_pool::instance().release(std::move(buf));
}

static std::string gen_name(vf::Case& c)
{
  static const char* n[] = {"a", "foo", "bar", "baz.1", "level", "x_y", "long-name-here", "abc", "abcd"};
  return n[c.draw(9)];
}

VF_PROP(sent_messages, 25000, 300000)
{
  const bool rgba = c.chance(1, 5), blob = c.chance(1, 5);
  MV m = gen_sendable(c, rgba);
  if (blob && c.coin())
  {
    m = MV{};
    m.t = MV::STRING;
    m.s = c.bytes(40);
  }
  if (m.t == MV::LIST || blob || rgba || m.s.size() > 400)
    c.nontrivial();
  VF_NOTE((rgba ? "colour " : "") << (blob ? "buffer " : "") << gv::show(m).substr(0, 200));

  generic_device dev{std::make_unique<silent>(), "dev"};
  std::string path;
  for (int i = 0, n = (int)c.range(1, 3); i < n; i++)
    path += "/" + gen_name(c);
  auto& node = create_node(dev, path);
  auto p = node.create_parameter(gv::vt(m.t));
  VF_CHECK(p, "no parameter");
  if (rgba)
    p->set_unit(ossia::rgba8_u{});
  if (blob)
    set_extended_type(node, generic_buffer_type());
  if (rgba && p->get_value_type() != gv::vt(m.t))
    return; // setting a unit changes the type of the parameter: checked by C12

  full_parameter_data full{path, gv::to_value(m)};
  full.type = gv::vt(m.t);
  if (rgba)
    full.unit = ossia::rgba8_u{};
  if (blob)
    set_extended_type(full.extended, generic_buffer_type());

  auto run = [&](auto policy) {
    using P = decltype(policy);
    check_sent<P>(c, *p, std::string(p->get_node().osc_address()), m, rgba, blob);
    check_sent<P>(c, full, full.address, m, rgba, blob);
  };
  VF_CHECK(p->get_node().osc_address() == path, "address " << p->get_node().osc_address() << " of " << path);
  switch (c.draw(3))
  {
    case 0:
      run(osc_1_0_policy{});
      break;
    case 1:
      run(osc_1_1_policy{});
      break;
    default:
      run(osc_extended_policy{});
      break;
  }
}

// A bundle holds the messages of those parameters that may be sent, in order
template <class Policy, class Net>
static void check_bundle(vf::Case& c, Net net, bool client)
{
  constexpr auto fl = flavour_of<Policy>::v;
  generic_device dev{std::make_unique<silent>(), "dev"};
  std::vector<const parameter_base*> ps;
  std::vector<full_parameter_data> fs;
  std::vector<std::vector<std::string>> want; // acceptable elements
  bool critical = false;
  const bool raw = c.coin();
  std::size_t total = 16;
  for (std::size_t i = 0; c.more(i, 12, 5); i++)
  {
    const bool rgba = c.chance(1, 6), blob = c.chance(1, 6);
    MV m = gen_sendable(c, rgba);
    if (m.t == MV::LIST && m.l.size() > 1000)
      m.l.resize(1000);
    if (m.s.size() > 1000)
      m.s.resize(1000);
    if (blob && c.coin())
    {
      m = MV{};
      m.t = MV::STRING;
      m.s = c.bytes(20);
    }
    const auto access = c.pick<access_mode>({access_mode::BI, access_mode::BI, access_mode::GET, access_mode::SET});
    const bool muted = c.chance(1, 8), disabled = c.chance(1, 8), crit = c.chance(1, 6);
    const std::string path = "/" + gen_name(c) + std::to_string(i);
    ossia::domain dom;
    auto bound = bounding_mode::FREE;
    MV sent = m;
    if (m.t == MV::INT && c.coin())
    {
      bound = bounding_mode::CLIP;
      dom = make_domain(-10, 10);
      sent.i = std::max(-10, std::min(10, m.i));
    }
    if (raw)
    {
      full_parameter_data f{path, gv::to_value(m)};
      f.type = gv::vt(m.t);
      f.access = access;
      f.muted = muted;
      f.disabled = disabled;
      f.critical = crit;
      f.domain = dom;
      f.bounding = bound;
      if (rgba)
        f.unit = ossia::rgba8_u{};
      if (blob)
        set_extended_type(f.extended, generic_buffer_type());
      fs.push_back(std::move(f));
    }
    else
    {
      auto& node = create_node(dev, path);
      auto p = node.create_parameter(gv::vt(m.t));
      if (rgba)
        p->set_unit(ossia::rgba8_u{});
      if (p->get_value_type() != gv::vt(m.t))
        continue;
      p->set_access(access);
      p->set_muted(muted);
      p->set_disabled(disabled);
      p->set_critical(crit);
      p->set_domain(dom);
      p->set_bounding(bound);
      if (blob)
        set_extended_type(node, generic_buffer_type());
      p->set_value(gv::to_value(m));
      ps.push_back(p);
    }
    critical |= crit;
    if (client && access == access_mode::GET)
      continue;
    if (muted || disabled)
      continue;
    Args in_bundle;
    if (blob && m.t == MV::STRING)
      in_bundle = ref::sent(fl, sent, rgba, true);
    else
      ref::put(in_bundle, fl, sent, rgba, 0);
    want.push_back({ref::message(path, ref::sent(fl, sent, rgba, blob)), ref::message(path, in_bundle)});
    total += want.back()[1].size() + 4;
  }
  if (want.size() >= 2)
    c.nontrivial();
  if (total > 65000)
    return;
  auto b = raw ? make_bundle(net, fs) : make_bundle(net, ps);
  VF_CHECK(b, "no bundle for " << want.size() << " messages of " << total << " bytes");
  const std::string got(b->data.data(), b->data.size());
  ossia::buffer_pool::instance().release(std::move(b->data));
  VF_CHECK(b->critical == critical, "the bundle is " << (critical ? "not " : "") << "critical");
  if (got.substr(0, 16) != ref::bundle({}))
    VF_FAIL("header of a bundle: " << ref::hex(got.substr(0, 16)));
  std::size_t at = 16;
  for (auto& w : want)
  {
    bool ok = false;
    for (auto& x : w)
    {
      std::string e;
      ref::be32(e, (uint32_t)x.size());
      e += x;
      if (got.compare(at, e.size(), e) == 0)
      {
        ok = true;
        at += e.size();
        break;
      }
    }
    if (!ok)
      VF_FAIL("in a bundle of OSC flavour " << fl << ", " << ref::hex(w[0]) << " was expected instead of " << ref::hex(got.substr(at)));
  }
  VF_CHECK(at == got.size(), "a bundle has more than it should: " << ref::hex(got.substr(at)));
}
VF_PROP(bundles, 8000, 80000)
{
  switch (c.draw(6))
  {
    case 0:
      return check_bundle<osc_1_0_policy>(c, bundle_client_policy<osc_1_0_policy>{}, true);
    case 1:
      return check_bundle<osc_1_1_policy>(c, bundle_client_policy<osc_1_1_policy>{}, true);
    case 2:
      return check_bundle<osc_extended_policy>(c, bundle_client_policy<osc_extended_policy>{}, true);
    case 3:
      return check_bundle<osc_1_0_policy>(c, bundle_server_policy<osc_1_0_policy>{}, false);
    case 4:
      return check_bundle<osc_1_1_policy>(c, bundle_server_policy<osc_1_1_policy>{}, false);
    default:
      return check_bundle<osc_extended_policy>(c, bundle_server_policy<osc_extended_policy>{}, false);
  }
}

static const MV::T TYPES[] = {MV::FLOAT, MV::INT, MV::VEC2, MV::VEC3, MV::VEC4, MV::IMPULSE, MV::BOOL, MV::STRING, MV::LIST, MV::CHAR};

struct receiver_dev
{
  generic_device dev;
  listened_parameters listening;
  network_logger logger;
  message_origin_identifier id;
  std::vector<std::pair<std::string, ossia::value>> unhandled;
  struct P
  {
    std::string path;
    parameter_base* real{};
    MV cur;
    bool listened{}, quiet{};
    std::vector<MV> want_seen;
    std::vector<ossia::value> seen;
    int lo{}, hi{};
    bool clip{};
  };
  std::deque<P> ps;

  receiver_dev() : dev{std::make_unique<silent>(), "dev"}, id{dev.get_protocol(), 0}
  {
    dev.on_unhandled_message.connect<&receiver_dev::on_unhandled>(*this);
  }
  void on_unhandled(ossia::string_view a, const ossia::value& v) { unhandled.emplace_back(std::string(a), v); }

  void fill(vf::Case& c)
  {
    static const char* paths[] = {"/a", "/b", "/a/x", "/a/y", "/b/x", "/b/yy", "/ab/x", "/ab/zz/t", "/a/zz/t", "/c.1", "/c.2/x"};
    for (auto path : paths)
    {
      if (c.coin())
        continue;
      ps.emplace_back();
      auto& p = ps.back();
      p.path = path;
      p.cur = ref::mv(TYPES[c.draw(10)]);
      auto& n = create_node(dev, path);
      p.real = n.create_parameter(gv::vt(p.cur.t));
      p.real->set_value(gv::to_value(p.cur));
      p.cur = gv::from_value(p.real->value());
      if ((p.cur.t == MV::INT || p.cur.t == MV::FLOAT) && c.coin())
      {
        p.clip = true;
        p.lo = (int)c.range(-5, 0);
        p.hi = (int)c.range(0, 5);
        p.real->set_bounding(bounding_mode::CLIP);
        if (p.cur.t == MV::INT)
          p.real->set_domain(make_domain(p.lo, p.hi));
        else
          p.real->set_domain(make_domain((float)p.lo, (float)p.hi));
      }
      p.real->add_callback([&p](const ossia::value& v) { p.seen.push_back(v); });
      if (c.coin())
      {
        p.listened = true;
        listening.insert(std::make_pair(p.path, p.real));
      }
    }
  }
  void take(P& p, const Args& args)
  {
    p.cur = ref::taken(p.cur, args);
    if (p.clip && p.cur.t == MV::INT)
      p.cur.i = std::min(p.hi, std::max(p.lo, p.cur.i));
    if (p.clip && p.cur.t == MV::FLOAT)
      p.cur.f = std::min((float)p.hi, std::max((float)p.lo, p.cur.f));
    p.want_seen.push_back(p.cur);
  }
  void check(const std::string& what)
  {
    for (auto& p : ps)
    {
      if (!gv::matches(p.real->value(), p.cur))
        VF_FAIL(p.path << " holds " << gv::show(p.real->value()) << " instead of " << gv::show(p.cur) << " after " << what);
      if (p.seen.size() != p.want_seen.size())
        VF_FAIL("the observer of " << p.path << " was told " << p.seen.size() << " values instead of " << p.want_seen.size() << " after " << what);
      for (std::size_t i = 0; i < p.seen.size(); i++)
        if (!gv::matches(p.seen[i], p.want_seen[i]))
          VF_FAIL("the observer of " << p.path << " was told " << gv::show(p.seen[i]) << " instead of " << gv::show(p.want_seen[i]) << " after " << what);
      p.seen.clear();
      p.want_seen.clear();
    }
  }
};

// patterns of the form the model understands: one alternative per level
struct level
{
  std::string text;
  std::function<bool(const std::string&)> ok;
};
static level gen_level(vf::Case& c)
{
  static const char* names[] = {"a", "b", "ab", "x", "y", "yy", "zz", "t", "c.1", "c.2", "q"};
  switch (c.draw(6))
  {
    case 0:
      return {"*", [](const std::string&) { return true; }};
    case 1:
      return {"?", [](const std::string& s) { return s.size() == 1; }};
    case 2:
    {
      std::string p = names[c.draw(11)], q = names[c.draw(11)];
      return {"{" + p + "," + q + "}", [=](const std::string& s) { return s == p || s == q; }};
    }
    case 3:
    {
      std::string p(1, *names[c.draw(11)]);
      return {p + "*", [=](const std::string& s) { return s.substr(0, 1) == p; }};
    }
    default:
    {
      std::string p = names[c.draw(11)];
      return {p, [=](const std::string& s) { return s == p; }};
    }
  }
}
static std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> r;
  std::stringstream ss(s.substr(1));
  std::string x;
  while (std::getline(ss, x, '/'))
    r.push_back(x);
  return r;
}

VF_PROP(received_messages, 12000, 150000)
{
  receiver_dev d;
  d.fill(c);
  std::set<std::string> nodes;
  for (auto& p : d.ps)
  {
    std::string a;
    for (auto& s : split(p.path))
      nodes.insert(a += "/" + s);
  }
  for (std::size_t step = 0; c.more(step, 12, 5); step++)
  {
    const bool quietly = c.chance(1, 5);
    std::string addr;
    Args args;
    std::vector<level> levels;
    if (!d.ps.empty() && c.chance(2, 3))
    {
      auto& p = d.ps[c.draw(d.ps.size())];
      addr = p.path;
      args = ref::gen_args_for(c, p.cur);
    }
    else
    {
      for (int i = 0, n = (int)c.range(1, 3); i < n; i++)
      {
        levels.push_back(gen_level(c));
        addr += "/" + levels.back().text;
      }
      if (!d.ps.empty() && c.coin())
        args = ref::gen_args_for(c, d.ps[c.draw(d.ps.size())].cur);
      else
        ref::gen_args(c, args, 0, 6);
    }
    const auto bytes = ref::message(addr, args);
    const std::string what = addr + " " + ref::show(args);
    VF_NOTE((quietly ? "quietly " : "") << what);

    // what should happen
    std::vector<std::pair<std::string, MV>> unhandled;
    auto exact = [&](const std::string& a) {
      return nodes.count(a) > 0;
    };
    auto to = [&](receiver_dev::P& p, bool pattern) {
      d.take(p, args);
      c.nontrivial();
      if (quietly && !p.listened)
        p.want_seen.pop_back();
    };
    if (exact(addr))
    {
      for (auto& p : d.ps)
        if (p.path == addr)
          to(p, false);
    }
    else
    {
      std::set<std::string> hit;
      for (auto& n : nodes)
      {
        auto s = split(n);
        if (levels.empty() || s.size() != levels.size())
          continue;
        bool ok = true;
        for (std::size_t i = 0; i < s.size(); i++)
          ok &= levels[i].ok(s[i]);
        if (ok)
          hit.insert(n);
      }
      for (auto& p : d.ps)
        if (hit.count(p.path))
          to(p, true);
      if (hit.empty())
        unhandled.emplace_back(addr, ref::anything(args));
    }

    // what happens
    d.unhandled.clear();
    int messages = 0;
    auto on_message = [&](const oscpack::ReceivedMessage& m) {
      messages++;
      if (quietly)
        on_input_message<true>(m.AddressPattern(), osc_message_applier{d.id, m}, d.listening, d.dev, d.logger);
      else
        on_input_message<false>(m.AddressPattern(), osc_message_applier{d.id, m}, d.listening, d.dev, d.logger);
    };
    std::vector<char> exactly(bytes.begin(), bytes.end());
    osc_packet_processor<decltype(on_message)>{on_message}(exactly.data(), exactly.size());
    VF_CHECK(messages == 1, messages << " messages processed for " << what);

    d.check(what);
    if (d.unhandled.size() != unhandled.size())
      VF_FAIL(d.unhandled.size() << " unhandled messages instead of " << unhandled.size() << " after " << what);
    for (std::size_t i = 0; i < unhandled.size(); i++)
      if (d.unhandled[i].first != unhandled[i].first || !gv::matches(d.unhandled[i].second, unhandled[i].second))
        VF_FAIL("the unhandled message " << what << " is told as " << d.unhandled[i].first << " " << gv::show(d.unhandled[i].second) << " instead of "
                                         << gv::show(unhandled[i].second));
  }
}

// Learning creates the nodes of a message, with a parameter of the type and value of its arguments
VF_PROP(learning, 10000, 100000)
{
  generic_device dev{std::make_unique<silent>(), "dev"};
  std::map<std::string, MV> want; // parameters
  std::set<std::string> nodes;
  std::map<std::string, bool> has;
  for (std::size_t step = 0; c.more(step, 10, 4); step++)
  {
    std::string addr;
    for (int i = 0, n = (int)c.range(1, 3); i < n; i++)
      addr += "/" + gen_name(c);
    Args args;
    if (c.coin())
    {
      for (int i = 0, n = (int)c.range(0, 5); i < n; i++)
        args.push_back(ref::F((float)c.range(-40, 40) / 8));
      if (!args.empty() && c.chance(1, 4))
        args[c.draw(args.size())] = ref::gen_arg(c);
    }
    else
      ref::gen_args(c, args, 0, 6);
    VF_NOTE(addr << " " << ref::show(args));
    const auto bytes = ref::message(addr, args);
    std::vector<char> exactly(bytes.begin(), bytes.end());
    osc_learn(&dev.get_root_node(), oscpack::ReceivedMessage{oscpack::ReceivedPacket{exactly.data(), exactly.size()}});

    const bool is_new = !nodes.count(addr);
    std::string a;
    for (auto& s : split(addr))
      nodes.insert(a += "/" + s);
    if (is_new)
    {
      c.nontrivial();
      MV m = ref::anything(args);
      if (m.t == MV::LIST && args.size() >= 2 && args.size() <= 4
          && std::all_of(args.begin(), args.end(), [](auto& x) { return x.tag == 'f' || x.tag == 'd'; }))
      {
        MV v = ref::mv(args.size() == 2 ? MV::VEC2 : args.size() == 3 ? MV::VEC3 : MV::VEC4);
        for (std::size_t i = 0; i < args.size(); i++)
          v.v[i] = m.l[i].f;
        m = v;
      }
      want[addr] = m;
    }
    for (auto& n : nodes)
    {
      auto node = find_node(dev, n);
      VF_CHECK(node, "no node " << n);
      auto it = want.find(n);
      if (it == want.end())
        VF_CHECK(!node->get_parameter(), "a parameter at " << n);
      else
      {
        auto p = node->get_parameter();
        VF_CHECK(p, "no parameter at " << n);
        if (!gv::matches(p->value(), it->second) || p->get_value_type() != gv::vt(it->second.t))
          VF_FAIL(n << " learned " << gv::show(p->value()) << " of type " << (int)p->get_value_type() << " instead of " << gv::show(it->second));
      }
    }
  }
}
