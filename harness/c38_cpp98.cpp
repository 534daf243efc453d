// C38: the C++98 API: handles on the nodes of a device against the C++ library on a twin.
#include "gen_value.hpp"

#include <ossia-cpp/ossia-cpp98.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/network/value/value_conversion.hpp>

#include <iostream>
#include <memweb.hpp>
#include <oscpack/ip/UdpSocket.h>

using namespace ossia::net;
using gv::MV;
const char* const vf::rule
    = "values, and histories over handles (copied, assigned, moved, dead) on the nodes of an opp::oscquery_server, and the "
      "same through the C++ library on a twin device; non-trivial: a value that is a list or text, or a history with at "
      "least four operations that change the tree";

static bool same(const ossia::value& a, const ossia::value& b) { return gv::matches(a, gv::from_value(b)); }
static const ossia::value& raw(const opp::value& v) { return *const_cast<opp::value&>(v).get_raw_value_pointer(); }

static opp::value make(vf::Case& c, const MV& m)
{
  const bool set = c.coin(); // by construction or by assignment
  opp::value v;
  if (c.chance(1, 3))
    v = opp::value{std::string("before")};
  switch (m.t)
  {
    case MV::FLOAT:
      if (set)
        return opp::value{m.f};
      c.coin() ? v.set_float(m.f) : void(v = m.f);
      return v;
    case MV::INT:
      if (set)
        return opp::value{m.i};
      c.coin() ? v.set_int(m.i) : void(v = m.i);
      return v;
    case MV::BOOL:
      if (set)
        return opp::value{(bool)m.i};
      c.coin() ? v.set_bool(m.i) : void(v = (bool)m.i);
      return v;
    case MV::CHAR:
      if (set)
        return opp::value{(char)m.i};
      c.coin() ? v.set_char((char)m.i) : void(v = (char)m.i);
      return v;
    case MV::STRING:
      if (set)
        return m.s.find('\0') == std::string::npos && c.coin() ? opp::value{m.s.c_str()} : opp::value{m.s};
      c.coin() ? v.set_string(m.s) : void(v = m.s);
      return v;
    case MV::IMPULSE:
      if (set)
        return opp::value{opp::value::impulse{}};
      v.set_impulse();
      return v;
    case MV::VEC2:
    {
      opp::value::vec2f x{m.v[0], m.v[1]};
      if (set)
        return opp::value{x};
      c.coin() ? v.set_vec2f(x) : void(v = x);
      return v;
    }
    case MV::VEC3:
    {
      opp::value::vec3f x{m.v[0], m.v[1], m.v[2]};
      if (set)
        return opp::value{x};
      c.coin() ? v.set_vec3f(x) : void(v = x);
      return v;
    }
    case MV::VEC4:
    {
      opp::value::vec4f x{m.v[0], m.v[1], m.v[2], m.v[3]};
      if (set)
        return opp::value{x};
      c.coin() ? v.set_vec4f(x) : void(v = x);
      return v;
    }
    case MV::LIST:
    {
      std::vector<opp::value> l;
      for (auto& x : m.l)
        l.push_back(make(c, x));
      if (set)
        return opp::value{l};
      c.coin() ? v.set_list(l) : void(v = l);
      return v;
    }
    default:
      return opp::value{};
  }
}

VF_PROP(values, 30000, 400000)
{
  const auto m = gv::gen(c);
  VF_NOTE("value " << gv::show(m));
  if (m.t == MV::LIST || m.t == MV::STRING)
    c.nontrivial();
  auto v = make(c, m);
  const auto x = gv::to_value(m);
  VF_CHECK(gv::matches(raw(v), m), gv::show(raw(v)) << " for " << gv::show(m));
  opp::value w = v, u{3};
  u = v;
  const opp::value t{opp::value{v}};
  VF_CHECK(same(raw(w), x) && same(raw(u), x) && same(raw(t), x), "a copy of " << gv::show(m));
  u = opp::value{7}; // v does not change with its copies
  VF_CHECK(same(raw(v), x), "an assignment to a copy changed the value");
  VF_CHECK((v == w) == (x == x) && (v != w) == !(x == x), "comparison of " << gv::show(m) << " to itself");
  VF_CHECK((v == u) == (x == ossia::value{7}), "comparison of " << gv::show(m) << " to 7");
  VF_CHECK(v.is_impulse() == (m.t == MV::IMPULSE) && v.is_int() == (m.t == MV::INT) && v.is_float() == (m.t == MV::FLOAT)
               && v.is_bool() == (m.t == MV::BOOL) && v.is_char() == (m.t == MV::CHAR) && v.is_string() == (m.t == MV::STRING)
               && v.is_vec2f() == (m.t == MV::VEC2) && v.is_vec3f() == (m.t == MV::VEC3) && v.is_vec4f() == (m.t == MV::VEC4)
               && v.is_list() == (m.t == MV::LIST || m.t == MV::VEC2 || m.t == MV::VEC3 || m.t == MV::VEC4),
           "type of " << gv::show(m));
  VF_CHECK(v.to_int() == ossia::convert<int>(x), "to_int of " << gv::show(m));
  VF_CHECK(gv::same_float(v.to_float(), ossia::convert<float>(x)), "to_float of " << gv::show(m));
  VF_CHECK(v.to_bool() == ossia::convert<bool>(x), "to_bool of " << gv::show(m));
  VF_CHECK(v.to_char() == ossia::convert<char>(x), "to_char of " << gv::show(m));
  VF_CHECK(v.to_string() == ossia::convert<std::string>(x), "to_string of " << gv::show(m));
  auto a = v.to_vec2f();
  auto a_ = ossia::convert<ossia::vec2f>(x);
  auto b = v.to_vec3f();
  auto b_ = ossia::convert<ossia::vec3f>(x);
  auto d = v.to_vec4f();
  auto d_ = ossia::convert<ossia::vec4f>(x);
  VF_CHECK(!memcmp(a.data, a_.data(), 8) && !memcmp(b.data, b_.data(), 12) && !memcmp(d.data, d_.data(), 16),
           "to_vec of " << gv::show(m));
  auto l = v.to_list();
  auto l_ = ossia::convert<std::vector<ossia::value>>(x);
  VF_CHECK(l.size() == l_.size(), "to_list of " << gv::show(m));
  for (size_t i = 0; i < l.size(); i++)
    VF_CHECK(same(raw(l[i]), l_[i]), "to_list of " << gv::show(m));
  VF_CHECK(gv::matches(raw(v), m), "reading changed the value");
}

// ---------------------------------------------------------------- nodes
struct kind
{
  const char* name;
  opp::node (opp::node::*create)(std::string);
  void (opp::node::*set)();
  parameter_base* (*twin)(node_base&);
};
#define BASIC(N, T)                                                                              \
  kind{#N, &opp::node::create_##N, &opp::node::set_##N,                                          \
       [](node_base& n) -> parameter_base* { return n.create_parameter(ossia::val_type::T); }}
#define UNIT(N, U)                                                                               \
  kind{#N, &opp::node::create_##N, &opp::node::set_##N,                                          \
       [](node_base& n) -> parameter_base* { return ossia::setup_parameter(ossia::U, n); }}
static const kind KINDS[] = {
    BASIC(impulse, IMPULSE), BASIC(char, CHAR), BASIC(int, INT), BASIC(float, FLOAT), BASIC(bool, BOOL), BASIC(vec2f, VEC2F),
    BASIC(vec3f, VEC3F), BASIC(vec4f, VEC4F), BASIC(list, LIST), BASIC(string, STRING), UNIT(buffer, generic_buffer_type()),
    UNIT(filepath, filesystem_path_type()), UNIT(rgb, rgb_u{}), UNIT(rgba, rgba_u{}), UNIT(argb, argb_u{}),
    UNIT(argb8, argb8_u{}), UNIT(rgba8, rgba8_u{}), UNIT(hsv, hsv_u{}), UNIT(cart2D, cartesian_2d_u{}),
    UNIT(cart3D, cartesian_3d_u{}), UNIT(opengl, opengl_u{}), UNIT(polar, polar_u{}), UNIT(spherical, spherical_u{}),
    UNIT(cylindrical, cylindrical_u{}), UNIT(angle_radian, radian_u{}), UNIT(angle_degree, degree_u{}),
    UNIT(quaternion, quaternion_u{}), UNIT(euler, euler_u{}), UNIT(axis, axis_u{}), UNIT(decibel, decibel_u{}),
    UNIT(midigain, midigain_u{}), UNIT(linear, linear_u{}), UNIT(frequency, frequency_u{}), UNIT(midi_pitch, midi_pitch_u{}),
    UNIT(bpm, bpm_u{})};

struct handle
{
  std::unique_ptr<opp::node> h;
  node_base* w{};   // the node of the twin; null for a dead or empty handle
  bool stale{};     // the parameter was replaced through another handle
};

struct world
{
  std::vector<std::string> logc, logw;
  struct sub
  {
    std::vector<std::string>* log;
    int id;
    static void on(void* p, const opp::value& v)
    {
      auto s = (sub*)p;
      s->log->push_back(std::to_string(s->id) + " " + gv::show(raw(v)));
    }
  };
  std::vector<std::unique_ptr<sub>> subs;
  struct CB
  {
    node_base* w;
    opp::callback_index i;
    parameter_base::callback_index j;
  };
  std::vector<CB> cbs;
  std::unique_ptr<opp::oscquery_server> srv;
  std::unique_ptr<generic_device> twin;
  std::vector<handle> hs; // destroyed first
  int ids{};

  void add(opp::node n, node_base* w)
  {
    VF_CHECK(bool(n) == bool(w), "a handle is " << (n ? "on a node" : "empty"));
    if (hs.size() < 10)
      hs.push_back({std::make_unique<opp::node>(n), w, false});
  }
  void param_gone(node_base* w, handle* except)
  {
    for (auto& h : hs)
      if (h.w == w && &h != except)
        h.stale = true;
    std::erase_if(cbs, [&](auto& x) { return x.w == w; });
  }
  void gone(node_base& w)
  {
    param_gone(&w, nullptr);
    for (auto& h : hs)
      if (h.w == &w)
        h.w = nullptr;
    for (auto x : w.children_copy())
      gone(*x);
  }
  void logs(const char* when)
  {
    std::string a, b;
    for (auto& x : logc)
      a += x + " | ";
    for (auto& x : logw)
      b += x + " | ";
    VF_CHECK(a == b, when << ": callbacks " << a << " instead of " << b);
    logc.clear();
    logw.clear();
  }
};

static std::string addr(node_base& n) { return osc_parameter_string(n); }

static void check_handle(const handle& x, bool deep = true)
{
  auto& h = *x.h;
  if (!x.w)
  {
    VF_CHECK(!h && !h.has_parameter() && h.get_name().empty() && !h.parent() && h.get_children().empty(), "a dead handle is not empty");
    VF_CHECK(!raw(h.get_value()).valid() && h.get_unit().empty() && h.get_tags().empty(), "a dead handle has attributes");
    return;
  }
  auto& w = *x.w;
  const auto at = addr(w);
  VF_CHECK(h && h.get_name() == w.get_name() && h.get_address() == at, "the handle of " << at << " is on " << (h ? h.get_address() : "nothing"));
  auto p = w.get_parent();
  auto hp = h.parent();
  VF_CHECK(bool(hp) == bool(p) && (!p || hp.get_address() == addr(*p)), "parent of " << at);
  auto names = [](const std::vector<opp::node>& v) {
    std::vector<std::string> r;
    for (auto& n : v)
      r.push_back(n.get_address());
    return r;
  };
  if (deep)
  {
    std::vector<std::string> ch, all;
    for (auto n : w.children_copy())
      ch.push_back(addr(*n));
    for (auto n : list_all_children(&w))
      all.push_back(addr(*n));
    VF_CHECK(names(h.get_children()) == ch, "children of " << at);
    VF_CHECK(names(h.get_namespace()) == all, "namespace of " << at);
  }

  VF_CHECK(h.get_description() == get_description(w).value_or(""), "description of " << at);
  VF_CHECK(h.get_tags() == get_tags(w).value_or(tags{}), "tags of " << at);
  VF_CHECK(h.get_hidden() == get_hidden(w) && h.get_zombie() == get_zombie(w), "hidden or zombie " << at);
  VF_CHECK(h.get_priority() == get_priority(w).value_or(0), "priority of " << at);
  VF_CHECK(h.get_refresh_rate() == get_refresh_rate(w).value_or(0), "refresh rate of " << at);
  VF_CHECK(h.get_value_step_size() == get_value_step_size(w).value_or(0), "step size of " << at);
  auto ib = get_instance_bounds(w);
  VF_CHECK(h.get_instance_bounds() == (ib ? std::pair<int, int>(ib->min_instances, ib->max_instances) : std::pair<int, int>()),
           "instance bounds of " << at);
  VF_CHECK(same(raw(h.get_default_value()), get_default_value(w).value_or(ossia::value{})), "default value of " << at);
  auto q = w.get_parameter();
  if (!q)
    VF_CHECK(!h.has_parameter(), at << " has no parameter but its handle has");
  if (!q || x.stale)
  {
    // what a handle sees of a parameter replaced through another one is not claimed, but it may be asked
    (void)h.get_value();
    (void)h.get_unit();
    (void)h.get_min();
    return;
  }
  VF_CHECK(h.has_parameter(), "the handle of " << at << " has no parameter");
  VF_CHECK(same(raw(h.get_value()), q->value()), "value of " << at << ": " << gv::show(raw(h.get_value())) << " instead of " << gv::show(q->value()));
  const auto acc = h.get_access();
  VF_CHECK(acc
               == (q->get_access() == ossia::access_mode::GET   ? opp::Get
                   : q->get_access() == ossia::access_mode::SET ? opp::Set
                                                                : opp::Bi),
           "access of " << at);
  VF_CHECK((int)h.get_bounding() == (int)q->get_bounding(), "bounding of " << at);
  VF_CHECK(h.get_unit() == get_pretty_unit_text(q->get_unit()), "unit of " << at);
  VF_CHECK(h.get_repetition_filter() == (q->get_repetition_filter() == ossia::repetition_filter::ON), "repetition filter of " << at);
  VF_CHECK(h.get_muted() == get_muted(w) && h.get_disabled() == get_disabled(w) && h.get_critical() == get_critical(w),
           "muted, disabled or critical " << at);
  const auto d = q->get_domain();
  VF_CHECK(same(raw(h.get_min()), ossia::get_min(d)) && same(raw(h.get_max()), ossia::get_max(d)), "bounds of " << at);
  auto vals = h.get_accepted_values();
  auto wv = ossia::get_values(d);
  VF_CHECK(vals.size() == wv.size(), "accepted values of " << at);
  for (size_t i = 0; i < vals.size(); i++)
    VF_CHECK(same(raw(vals[i]), wv[i]), "accepted value of " << at << ": " << gv::show(raw(vals[i])) << " instead of " << gv::show(wv[i]));
}

static const char* const SEG[] = {"a", "b", "c", "a.1", "foo"};
static std::string gen_path(vf::Case& c)
{
  std::string s;
  for (int i = 0; i == 0 || c.more(i, 3, 1); i++)
    s += std::string("/") + SEG[c.draw(5)];
  return s;
}

static MV small(vf::Case& c, ossia::val_type t)
{
  MV m;
  switch (c.chance(1, 6) ? (ossia::val_type)c.draw(10) : t)
  {
    case ossia::val_type::INT:
      m.t = MV::INT;
      m.i = (int)c.range(-9, 9);
      break;
    case ossia::val_type::STRING:
      m.t = MV::STRING;
      m.s = std::string(1, (char)c.range('a', 'e'));
      break;
    case ossia::val_type::VEC3F:
      m.t = MV::VEC3;
      for (int i = 0; i < 3; i++)
        m.v[i] = (float)c.range(-4, 4);
      break;
    default:
      m.t = MV::FLOAT;
      m.f = (float)c.range(-9, 9) / 2;
  }
  return m;
}

static void attribute(vf::Case& c, handle& x)
{
  auto& h = *x.h;
  auto& w = *x.w;
  auto q = w.get_parameter();
  const bool par = q && !x.stale;
  const int what = (int)c.draw(par ? 16 : 7);
  const bool unset = c.chance(1, 4), on = c.coin();
  VF_NOTE("attribute " << what << (unset ? " unset " : " ") << addr(w));
  switch (what)
  {
    case 0:
    {
      std::string text(c.draw(6), (char)c.range(1, 255));
      h.set_description(text);
      set_description(w, text);
      break;
    }
    case 1:
    {
      tags t;
      for (int i = 0; c.more(i, 4, 2); i++)
        t.push_back(std::string(1 + i, 'x'));
      h.set_tags(t);
      set_tags(w, t);
      break;
    }
    case 2:
      h.set_hidden(on);
      set_hidden(w, on);
      break;
    case 3:
    {
      const float f = (float)c.range(-9, 9) / 2;
      if (unset)
      {
        h.unset_priority();
        set_priority(w, std::nullopt);
      }
      else
      {
        h.set_priority(f);
        set_priority(w, f);
      }
      break;
    }
    case 4:
    {
      const int f = (int)c.range(-5, 500);
      if (unset)
      {
        h.unset_refresh_rate();
        set_refresh_rate(w, std::nullopt);
      }
      else
      {
        h.set_refresh_rate(f);
        set_refresh_rate(w, f);
      }
      break;
    }
    case 5:
    {
      const double f = (double)c.range(-900, 900) / 7;
      if (unset)
      {
        h.unset_value_step_size();
        set_value_step_size(w, std::nullopt);
      }
      else
      {
        h.set_value_step_size(f);
        set_value_step_size(w, f);
      }
      break;
    }
    case 6:
    {
      const int a = (int)c.range(0, 4), b = a + (int)c.range(1, 90);
      if (unset)
      {
        h.unset_instance_bounds();
        set_instance_bounds(w, std::nullopt);
      }
      else
      {
        h.set_instance_bounds(a, b);
        set_instance_bounds(w, instance_bounds{a, b});
      }
      break;
    }
    case 7:
    {
      auto m = small(c, q->get_value_type());
      h.set_default_value(make(c, m));
      set_default_value(w, gv::to_value(m));
      break;
    }
    case 8:
    {
      static const opp::access_mode A[] = {opp::Get, opp::Set, opp::Bi};
      static const ossia::access_mode B[] = {ossia::access_mode::GET, ossia::access_mode::SET, ossia::access_mode::BI};
      const int k = (int)c.draw(3);
      h.set_access(A[k]);
      q->set_access(B[k]);
      break;
    }
    case 9:
    {
      static const opp::bounding_mode A[] = {opp::Free, opp::Clip, opp::Wrap, opp::Fold, opp::Low, opp::High};
      static const ossia::bounding_mode B[] = {ossia::bounding_mode::FREE, ossia::bounding_mode::CLIP, ossia::bounding_mode::WRAP,
                                               ossia::bounding_mode::FOLD, ossia::bounding_mode::LOW,  ossia::bounding_mode::HIGH};
      const int k = (int)c.draw(6);
      h.set_bounding(A[k]);
      q->set_bounding(B[k]);
      break;
    }
    case 10:
    {
      static const char* const U[] = {"distance.m", "color.rgb", "m", "nothing", "gain.db", "position.cart3D", "degree"};
      auto u = U[c.draw(7)];
      h.set_unit(u);
      q->set_unit(ossia::parse_pretty_unit(u));
      break;
    }
    case 11:
      h.set_repetition_filter(on);
      q->set_repetition_filter(on ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF);
      break;
    case 12:
      h.set_muted(on);
      set_muted(w, on);
      break;
    case 13:
      h.set_disabled(on);
      set_disabled(w, on);
      h.set_critical(!on);
      set_critical(w, !on);
      break;
    case 14:
    {
      auto m = small(c, q->get_value_type());
      const auto v = gv::to_value(m);
      VF_NOTE((on ? "min " : "max ") << gv::show(m));
      auto d = q->get_domain();
      if (on)
      {
        h.set_min(make(c, m));
        d ? ossia::set_min(d, v) : void(d = ossia::make_domain(v, ossia::value{}));
      }
      else
      {
        h.set_max(make(c, m));
        d ? ossia::set_max(d, v) : void(d = ossia::make_domain(ossia::value{}, v));
      }
      q->set_domain(d);
      break;
    }
    default:
    {
      std::vector<opp::value> l;
      std::vector<ossia::value> lw;
      for (int i = 0; c.more(i, 4, 2); i++)
      {
        auto m = small(c, q->get_value_type());
        l.push_back(make(c, m));
        lw.push_back(gv::to_value(m));
      }
      VF_NOTE("values " << gv::show(ossia::value{lw}));
      h.set_accepted_values(l);
      auto d = q->get_domain();
      if (d)
        ossia::set_values(d, lw);
      else
        d = ossia::make_domain(lw);
      q->set_domain(d);
    }
  }
}

VF_PROP(histories, 3500, 100000)
{
  static const bool quiet = (std::cerr.setstate(std::ios::failbit), true);
  (void)quiet;
  memweb::network::instance().http.clear();
  oscpack::memnet::instance().queue.clear();
  world x;
  x.srv = std::make_unique<opp::oscquery_server>("dev", 1234, 5678);
  x.twin = std::make_unique<generic_device>(std::make_unique<multiplex_protocol>(), "dev");
  x.add(x.srv->get_root_node(), x.twin.get());
  int changes = 0;
  for (int op = 0; c.more(op, 40, 16); op++)
  {
    const size_t k = c.draw(x.hs.size());
    auto& h = x.hs[k];
    const auto at = h.w ? addr(*h.w) : "(dead)";
    switch (c.draw(14))
    {
      case 0: // a node of a kind
      {
        auto& kd = KINDS[c.draw(std::size(KINDS))];
        auto path = gen_path(c);
        VF_NOTE("create " << kd.name << " " << at << path);
        auto w = h.w;
        auto r = (h.h.get()->*kd.create)(path);
        node_base* n{};
        if (w)
        {
          n = &create_node(*w, path);
          kd.twin(*n);
        }
        changes++;
        x.add(r, n);
        break;
      }
      case 1:
      {
        auto path = gen_path(c);
        const bool v = c.coin();
        VF_NOTE("create " << at << path);
        auto w = h.w;
        auto r = v ? h.h->create_void(path) : h.h->create_child(path);
        x.add(r, w ? &create_node(*w, path) : nullptr);
        changes++;
        break;
      }
      case 2: // a parameter
      {
        auto& kd = KINDS[c.draw(std::size(KINDS))];
        if (h.w && !h.w->get_parent())
          break;
        VF_NOTE("set " << kd.name << " " << at);
        if (h.w)
        {
          if (h.w->get_parameter())
            x.param_gone(h.w, &h);
          else
            x.param_gone(h.w, &h);
        }
        (h.h.get()->*kd.set)();
        if (h.w)
        {
          h.w->remove_parameter();
          kd.twin(*h.w);
          h.stale = false;
        }
        changes++;
        break;
      }
      case 3:
      {
        auto path = gen_path(c);
        VF_NOTE("find " << at << path);
        auto w = h.w;
        auto r = h.h->find_child(path);
        x.add(r, w ? find_node(*w, path) : nullptr);
        break;
      }
      case 4:
      {
        static const char* const P[] = {"/*", "/{a,b}", "/a*", "/?", "/a/*", "/foo"};
        auto path = P[c.draw(6)];
        VF_NOTE("find " << at << path);
        std::vector<std::string> a, b;
        for (auto& n : h.h->find_children(path))
          a.push_back(n.get_address());
        if (h.w)
          for (auto n : find_nodes(*h.w, path))
            b.push_back(addr(*n));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        VF_CHECK(a == b, "find_children " << path);
        break;
      }
      case 5:
      {
        const bool all = c.chance(1, 6);
        auto path = gen_path(c);
        VF_NOTE("remove " << at << (all ? "/*" : path));
        auto w = h.w;
        if (all)
        {
          if (w)
            for (auto n : w->children_copy())
              x.gone(*n);
          h.h->remove_children();
          if (w)
            w->clear_children();
        }
        else
        {
          if (c.chance(1, 8))
            path = "/"; // the device itself is not removed
          auto n = w ? find_node(*w, path) : nullptr;
          if (n && !n->get_parent())
            n = nullptr;
          if (n)
            x.gone(*n);
          h.h->remove_child(path);
          if (n)
            n->get_parent()->remove_child(*n);
        }
        changes++;
        break;
      }
      case 6: // handles
      {
        const size_t j = c.draw(x.hs.size());
        auto& g = x.hs[j];
        VF_NOTE("assign handle " << k << " = " << j);
        switch (c.draw(4))
        {
          case 0:
            *h.h = *g.h;
            h.w = g.w;
            h.stale = g.stale;
            break;
          case 1:
            if (j != k)
            {
              *h.h = std::move(*g.h);
              h.w = g.w;
              h.stale = g.stale;
              // what is left in the moved handle is not specified
              *g.h = opp::node{};
              g.w = nullptr;
              g.stale = false;
            }
            break;
          case 2:
          {
            auto n = std::make_unique<opp::node>(std::move(*g.h));
            *g.h = opp::node{};
            h = handle{std::move(n), g.w, g.stale};
            if (j != k)
            {
              g.w = nullptr;
              g.stale = false;
            }
            break;
          }
          default:
            if (x.hs.size() > 1)
              x.hs.erase(x.hs.begin() + k);
        }
        break;
      }
      case 7:
      case 8:
        if (h.w)
          attribute(c, h);
        break;
      case 9:
      case 10:
        if (h.w && h.w->get_parameter() && !h.stale)
        {
          auto m = gv::gen(c);
          if (m.t == MV::NONE)
            break;
          VF_NOTE("value " << at << " " << gv::show(m));
          h.h->set_value(make(c, m));
          h.w->get_parameter()->push_value(gv::to_value(m));
        }
        break;
      case 11:
        if (h.w && h.w->get_parameter() && !h.stale && x.cbs.size() < 6)
        {
          VF_NOTE("callback " << at);
          const int id = x.ids++;
          x.subs.push_back(std::make_unique<world::sub>(world::sub{&x.logc, id}));
          auto i = h.h->set_value_callback(world::sub::on, x.subs.back().get());
          VF_CHECK(bool(i), "no index for a callback");
          auto l = &x.logw;
          auto j = h.w->get_parameter()->add_callback(
              [l, id](const ossia::value& v) { l->push_back(std::to_string(id) + " " + gv::show(v)); });
          x.cbs.push_back({h.w, i, j});
        }
        else if (!h.w || !h.w->get_parameter())
        {
          auto i = h.h->set_value_callback(world::sub::on, nullptr);
          VF_CHECK(!i, "an index for a callback on nothing");
          alignas(opp::callback_index) unsigned char mem[sizeof(opp::callback_index)];
          memset(mem, 0xff, sizeof mem);
          auto e = new (mem) opp::callback_index(i);
          VF_CHECK(!*e, "a copy of an empty index is not empty");
          h.h->remove_value_callback(*e);
          e->~callback_index();
        }
        break;
      case 12:
        for (size_t i = 0; i < x.cbs.size(); i++)
          if (x.cbs[i].w == h.w && !h.stale)
          {
            VF_NOTE("remove callback " << at);
            auto b = x.cbs[i];
            x.cbs.erase(x.cbs.begin() + i);
            h.h->remove_value_callback(b.i);
            b.w->get_parameter()->remove_callback(b.j);
            break;
          }
        break;
      default:
        if (h.w && h.w->get_parent())
        {
          auto name = SEG[c.draw(5)];
          VF_NOTE("rename " << at << " " << name);
          h.h->set_name(name);
          h.w->set_name(name);
          changes++;
        }
    }
    x.logs("callbacks");
    const bool deep = c.chance(1, 5);
    for (auto& y : x.hs)
      check_handle(y, deep);
  }
  if (changes >= 4)
    c.nontrivial();
  if (c.coin()) // the device goes first
  {
    x.cbs.clear();
    x.srv.reset();
    for (auto& h : x.hs)
    {
      h.w = nullptr;
      check_handle(h);
    }
  }
}

// what the clients of the server ask for is done when, and only when, its callback accepts it
struct asked
{
  std::vector<std::string>* log;
  const char* what;
  bool answer;
  static bool on_add(void* p, const std::string& a, const std::string& b)
  {
    auto& s = *static_cast<asked*>(p);
    s.log->push_back(std::string(s.what) + " " + a + " " + b);
    return s.answer;
  }
  static bool on_remove(void* p, const std::string& a)
  {
    auto& s = *static_cast<asked*>(p);
    s.log->push_back(std::string(s.what) + " " + a);
    return s.answer;
  }
};

static void dump(node_base& n, std::vector<std::string>& out)
{
  auto p = n.get_parameter();
  out.push_back(addr(n) + (p ? " " + std::to_string(int(p->get_value_type())) + (p->get_unit() ? " unit" : "") : ""));
  for (auto x : n.children_copy())
    dump(*x, out);
}

VF_PROP(requests, 2500, 60000)
{
  memweb::network::instance().http.clear();
  oscpack::memnet::instance().queue.clear();
  auto srv = std::make_unique<opp::oscquery_server>("dev", 1234, 5678);
  generic_device twin(std::make_unique<multiplex_protocol>(), "dev");
  auto dev = srv->get_raw_device_pointer();
  std::vector<std::string> log;
  asked A{&log, "add", true}, R{&log, "remove", true}, N{&log, "rename", true};
  bool sa = false, sr = false, sn = false;
  int done = 0;
  for (int op = 0; c.more(op, 24, 12); op++)
  {
    const auto path = gen_path(c);
    const std::string name = SEG[c.draw(5)];
    std::vector<std::string> want;
    auto w = find_node(twin, path);
    switch (c.draw(8))
    {
      case 0:
        A.answer = c.chance(2, 3);
        if ((sa = c.chance(4, 5)))
          srv->set_add_node_callback(asked::on_add, &A);
        else
          srv->remove_add_node_callback();
        break;
      case 1:
        R.answer = c.chance(2, 3);
        if ((sr = c.chance(4, 5)))
          srv->set_remove_node_callback(asked::on_remove, &R);
        else
          srv->remove_remove_node_callback();
        break;
      case 2:
        N.answer = c.chance(2, 3);
        if ((sn = c.chance(4, 5)))
          srv->set_rename_node_callback(asked::on_add, &N);
        else
          srv->remove_rename_node_callback();
        break;
      case 3:
      {
        VF_NOTE("create " << path);
        srv->get_root_node().create_child(path);
        create_node(twin, path);
        break;
      }
      case 4:
      case 5:
      {
        parameter_data d;
        d.name = name;
        static const ossia::val_type T[] = {ossia::val_type::INT, ossia::val_type::FLOAT, ossia::val_type::STRING, ossia::val_type::VEC3F, ossia::val_type::LIST};
        auto t = T[c.draw(5)];
        d.type = t;
        VF_NOTE("ask to add " << path << " " << name << (sa ? A.answer ? "" : " refused" : " no callback"));
        dev->on_add_node_requested(path, d);
        if (sa)
        {
          want.push_back("add " + path + " " + name);
          if (A.answer && w)
          {
            auto f = w->find_child(name);
            auto& n = f ? *f : create_node(*w, name);
            n.remove_parameter();
            n.create_parameter(t);
            done++;
          }
        }
        break;
      }
      case 6:
        VF_NOTE("ask to remove " << path << " " << name << (sr ? R.answer ? "" : " refused" : " no callback"));
        dev->on_remove_node_requested(path, name);
        if (sr)
        {
          want.push_back("remove " + path);
          if (R.answer && w && w->find_child(name))
          {
            w->remove_child(name);
            done++;
          }
        }
        break;
      default:
        VF_NOTE("ask to rename " << path << " " << name << (sn ? N.answer ? "" : " refused" : " no callback"));
        dev->on_rename_node_requested(path, name);
        if (sn)
        {
          want.push_back("rename " + path + " " + name);
          if (N.answer && w && w->get_parent())
          {
            w->set_name(name);
            done++;
          }
        }
    }
    std::string a, b;
    for (auto& x : log)
      a += x + " | ";
    for (auto& x : want)
      b += x + " | ";
    log.clear();
    VF_CHECK(a == b, "the callbacks were given " << a << "instead of " << b);
    std::vector<std::string> p, q;
    dump(dev->get_root_node(), p);
    dump(twin, q);
    if (p != q)
    {
      a = b = "";
      for (auto& x : p)
        a += x + ", ";
      for (auto& x : q)
        b += x + ", ";
      VF_FAIL("the server has " << a << "instead of " << b);
    }
  }
  if (done >= 3)
    c.nontrivial();
}
