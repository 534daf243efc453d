// C20: messages, states, and what is committed at the end of a tick.
#include "gen_value.hpp"
#include "vf.hpp"

#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/typed_value.hpp>
#include <ossia/editor/state/state_element.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>

#include <cmath>

using namespace ossia;
using namespace ossia::net;

const char* const vf::rule
    = "messages with indices and units for parameters of every type, sent one by one, through a flattened state, a "
      "state of states, or through the commit of an execution state; non-trivial: at least two messages for the same "
      "parameter, one of them partial or with another unit";

namespace
{
using vals = std::vector<ossia::value>;

struct sink_protocol : protocol_base
{
  sink_protocol()
      : protocol_base{flags{}}
  {
  }
  int pushes{};
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base&, const ossia::value&) override
  {
    pushes++;
    return true;
  }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return true; }
};

std::vector<double> numbers(const ossia::value& v)
{
  std::vector<double> r;
  switch(v.get_type())
  {
    case val_type::FLOAT: r.push_back(v.get<float>()); break;
    case val_type::VEC2F:
      for(float f : v.get<vec2f>())
        r.push_back(f);
      break;
    case val_type::VEC3F:
      for(float f : v.get<vec3f>())
        r.push_back(f);
      break;
    case val_type::VEC4F:
      for(float f : v.get<vec4f>())
        r.push_back(f);
      break;
    case val_type::LIST:
      for(auto& e : v.get<vals>())
        if(auto f = e.target<float>())
          r.push_back(*f);
      break;
    default: break;
  }
  return r;
}
ossia::value from_numbers(const std::vector<double>& d)
{
  switch(d.size())
  {
    case 1: return (float)d[0];
    case 2: return vec2f{(float)d[0], (float)d[1]};
    case 3: return vec3f{(float)d[0], (float)d[1], (float)d[2]};
    case 4: return vec4f{(float)d[0], (float)d[1], (float)d[2], (float)d[3]};
  }
  return {};
}

enum U
{
  NONE,
  M,
  CM,
  KPH,
  MPS,
  RGB,
  BGR,
  CART3,
  OPENGL,
  ARGB,
  ARGB8,
  RGBA,
  CART2,
  UNITS
};
unit_t make_unit_(int u)
{
  switch(u)
  {
    case M: return meter_u{};
    case CM: return centimeter_u{};
    case KPH: return kilometer_per_hour_u{};
    case MPS: return meter_per_second_u{};
    case RGB: return rgb_u{};
    case BGR: return bgr_u{};
    case ARGB8: return argb8_u{};
    case CART3: return cartesian_3d_u{};
    case OPENGL: return opengl_u{};
    case ARGB: return argb_u{};
    case RGBA: return rgba_u{};
    case CART2: return cartesian_2d_u{};
    default: return {};
  }
}
int arity(int u)
{
  switch(u)
  {
    case M:
    case CM:
    case KPH:
    case MPS: return 1;
    case CART2: return 2;
    case RGB:
    case BGR:
    case CART3:
    case OPENGL: return 3;
    case ARGB:
    case ARGB8:
    case RGBA: return 4;
  }
  return 0;
}
int space(int u)
{
  switch(u)
  {
    case M:
    case CM: return 1;
    case KPH:
    case MPS: return 2;
    case RGB:
    case BGR:
    case ARGB:
    case ARGB8:
    case RGBA: return 3;
    case CART3:
    case OPENGL:
    case CART2: return 4;
  }
  return 0;
}
std::vector<double> to_neutral(int u, std::vector<double> d)
{
  switch(u)
  {
    case CM: d[0] /= 100; break;
    case KPH: d[0] /= 3.6; break;
    case BGR: std::swap(d[0], d[2]); break;
    case ARGB8:
      for(auto& x : d)
        x /= 255.;
      break;
    case OPENGL: d = {d[0], -d[2], d[1]}; break;
    case RGBA: d = {d[3], d[0], d[1], d[2]}; break;
  }
  return d;
}
std::vector<double> from_neutral(int u, std::vector<double> d)
{
  switch(u)
  {
    case CM: d[0] *= 100; break;
    case KPH: d[0] *= 3.6; break;
    case BGR: std::swap(d[0], d[2]); break;
    case ARGB8:
      for(auto& x : d)
        x *= 255.;
      break;
    case OPENGL: d = {d[0], d[2], -d[1]}; break;
    case RGBA: d = {d[1], d[2], d[3], d[0]}; break;
  }
  return d;
}
// only units with the same number of components are mixed
std::vector<int> compatible(int u)
{
  std::vector<int> r;
  for(int k = 1; k < UNITS; k++)
    if(space(k) == space(u) && arity(k) == arity(u) && k != u)
      r.push_back(k);
  return r;
}

struct param_t
{
  val_type type{};
  int unit{};
};
struct msg
{
  int param{};
  int unit{};
  std::vector<int> index;
  ossia::value v;
  int64_t ts{};
};

struct rig
{
  sink_protocol* proto = new sink_protocol;
  generic_device dev{std::unique_ptr<protocol_base>(proto), "dev"};
  std::vector<parameter_base*> p;
  rig(const std::vector<param_t>& params, const std::vector<ossia::value>& init, const std::vector<float>& prio)
  {
    for(std::size_t i = 0; i < params.size(); i++)
    {
      auto& n = ossia::net::create_node(dev, "/p" + std::to_string(i));
      auto q = n.create_parameter(params[i].type);
      if(params[i].unit)
        q->set_unit(make_unit_(params[i].unit));
      if(prio[i] != 0)
        set_priority(n, prio[i]);
      q->push_value(init[i]);
      p.push_back(q);
    }
    proto->pushes = 0;
  }
  message make(const msg& m)
  {
    destination_index idx;
    for(int i : m.index)
      idx.push_back(i);
    return message{destination{*p[m.param], idx, make_unit_(m.unit)}, m.v};
  }
};

std::string show(const msg& m)
{
  std::ostringstream s;
  s << "p" << m.param;
  for(int i : m.index)
    s << "[" << i << "]";
  if(m.unit)
    s << "@" << get_pretty_unit_text(make_unit_(m.unit));
  s << " " << value_to_pretty_string(m.v);
  return s.str();
}

bool close(double a, double b) { return std::abs(a - b) <= 2e-4 * std::max(1., std::max(std::abs(a), std::abs(b))); }
bool same(const ossia::value& a, const ossia::value& b)
{
  if(a.get_type() != b.get_type())
    return false;
  if(auto l = a.target<vals>())
  {
    auto& r = b.get<vals>();
    if(l->size() != r.size())
      return false;
    for(std::size_t i = 0; i < r.size(); i++)
      if(!same((*l)[i], r[i]))
        return false;
    return true;
  }
  auto x = numbers(a), y = numbers(b);
  if(x.empty())
    return a == b;
  for(std::size_t i = 0; i < x.size(); i++)
    if(!close(x[i], y[i]))
      return false;
  return true;
}

struct world
{
  vf::Case& c;
  std::vector<param_t> params;
  std::vector<ossia::value> init;
  std::vector<float> prio;
  // lists: true if the parameter only receives whole values
  std::vector<bool> whole;
  // all the messages give some components of one vector, in the same unit
  bool focus = false;

  explicit world(vf::Case& cc, bool restricted)
      : c(cc)
  {
    focus = c.chance(1, 5);
    const int n = focus ? 1 : (int)c.range(1, 3);
    for(int i = 0; i < n; i++)
    {
      param_t p;
      p.type = c.pick({val_type::VEC3F, val_type::VEC3F, val_type::LIST, val_type::FLOAT, val_type::VEC2F,
                       val_type::VEC4F, val_type::INT, val_type::STRING});
      if(focus)
        p.type = c.pick({val_type::VEC3F, val_type::VEC2F, val_type::VEC4F});
      std::vector<int> us{NONE};
      for(int u = 1; u < UNITS; u++)
        if(arity(u) == ar(p.type))
          us.push_back(u);
      p.unit = us[c.draw(us.size())];
      params.push_back(p);
      init.push_back(value(p.type));
      prio.push_back(c.chance(1, 3) ? c.pick({1.f, 2.f, 0.5f, -1.f}) : 0.f);
      whole.push_back(restricted ? c.coin() : false);
    }
  }
  static int ar(val_type t)
  {
    switch(t)
    {
      case val_type::FLOAT: return 1;
      case val_type::VEC2F: return 2;
      case val_type::VEC3F: return 3;
      case val_type::VEC4F: return 4;
      default: return -1;
    }
  }
  double number() { return (double)c.range(-40, 40) / 8.; }
  ossia::value scalar()
  {
    switch(c.draw(4))
    {
      case 0: return (int)c.range(-5, 5);
      case 1: return (float)number();
      case 2: return std::string(1, (char)('a' + c.draw(5)));
      default: return c.coin();
    }
  }
  ossia::value value(val_type t)
  {
    switch(t)
    {
      case val_type::INT: return (int)c.range(-9, 9);
      case val_type::STRING: return std::string(c.range(0, 3), (char)('a' + c.draw(5)));
      case val_type::LIST: {
        vals v;
        for(int i = 0, N = (int)c.range(0, 4); i < N; i++)
          v.push_back(scalar());
        return v;
      }
      default: {
        std::vector<double> d;
        for(int i = 0; i < ar(t); i++)
          d.push_back(number());
        return from_numbers(d);
      }
    }
  }
  ossia::value floats(int n)
  {
    vals v;
    for(int i = 0; i < n; i++)
      v.push_back((float)number());
    return v;
  }
  msg message(bool units, bool deep)
  {
    msg m;
    m.param = (int)c.draw(params.size());
    auto& p = params[m.param];
    const int N = ar(p.type);
    if(focus)
    {
      m.unit = p.unit;
      m.index.push_back((int)c.range(0, N - 1));
      if(c.chance(1, 4))
        m.v = value(p.type);
      else
        m.v = (float)number();
      m.ts = c.range(0, 3);
      return m;
    }
    if(N >= 1 && units)
    {
      switch(c.draw(8))
      {
        case 0:
        case 1:
        case 2: break;
        case 3:
        case 4: m.unit = p.unit; break;
        case 5: {
          // any unit with the same number of components
          std::vector<int> us;
          for(int u = 1; u < UNITS; u++)
            if(arity(u) == N)
              us.push_back(u);
          m.unit = us[c.draw(us.size())];
          break;
        }
        default: {
          auto us = compatible(p.unit);
          if(p.unit && !us.empty())
            m.unit = us[c.draw(us.size())];
          break;
        }
      }
    }
    if(N >= 2 && c.coin())
    {
      m.index.push_back((int)c.range(0, N - 1 + c.chance(1, 10)));
      if(c.chance(1, 4))
        m.v = value(p.type);
      else if(c.chance(1, 8))
        m.v = floats((int)c.range(0, N));
      else
        m.v = (float)number();
    }
    else if(N >= 2 && (m.unit == NONE || m.unit == p.unit) && c.chance(1, 6))
      m.v = floats(N);
    else if(p.type == val_type::LIST && !whole[m.param])
    {
      if(deep && c.chance(1, 4))
        m.v = value(p.type);
      else
      {
        m.index.push_back((int)c.range(0, 4));
        if(deep && c.chance(1, 3))
          m.index.push_back((int)c.range(0, 3));
        m.v = scalar();
      }
    }
    else
      m.v = value(p.type);
    m.ts = c.range(0, 3);
    return m;
  }
  bool partial(const msg& m) const { return !m.index.empty() || m.unit != params[m.param].unit; }

  // The value after a message
  ossia::value apply(const msg& m, const ossia::value& cur)
  {
    auto& p = params[m.param];
    const int pu = p.unit, mu = m.unit;
    if(m.index.empty())
    {
      if(m.v.target<vals>() && p.type != val_type::LIST)
        return from_numbers(numbers(m.v));
      if(!mu || mu == pu || !pu)
        return m.v;
      if(space(mu) != space(pu))
        return cur;
      return from_numbers(from_neutral(pu, to_neutral(mu, numbers(m.v))));
    }
    if(p.type == val_type::LIST)
    {
      ossia::value r = cur;
      put(r, m.index, 0, m.v);
      return r;
    }
    const int N = ar(p.type);
    const int i = m.index[0];
    if(i >= N)
      return cur;
    auto in = numbers(m.v);
    if(m.v.target<vals>() && (int)in.size() <= i)
      return cur;
    const double x = m.v.target<float>() ? in[0] : in[i];
    auto d = numbers(cur);
    if(!mu || !pu || mu == pu)
    {
      d[i] = x;
      return from_numbers(d);
    }
    if(space(mu) != space(pu))
      return cur;
    d = from_neutral(mu, to_neutral(pu, d));
    d[i] = x;
    return from_numbers(from_neutral(pu, to_neutral(mu, d)));
  }
  static void put(ossia::value& v, const std::vector<int>& index, std::size_t k, const ossia::value& x)
  {
    if(!v.target<vals>())
    {
      if(v.valid() || true)
        v = vals{v};
    }
    auto& l = v.get<vals>();
    const std::size_t i = index[k];
    if(l.size() <= i)
      l.resize(i + 1);
    if(k + 1 < index.size())
      put(l[i], index, k + 1, x);
    else if(auto sub = l[i].target<vals>())
    {
      // a single value goes first in a list
      if(sub->empty())
        sub->push_back(x);
      else
        (*sub)[0] = x;
    }
    else
      l[i] = x;
  }
};

bool interesting(const world& w, const std::vector<msg>& ms)
{
  for(std::size_t i = 0; i < ms.size(); i++)
    for(std::size_t j = i + 1; j < ms.size(); j++)
      if(ms[i].param == ms[j].param && (w.partial(ms[i]) || w.partial(ms[j])))
        return true;
  return false;
}
void compare(vf::Case& c, rig& got, rig& wanted, const char* what)
{
  for(std::size_t k = 0; k < got.p.size(); k++)
  {
    auto a = got.p[k]->value(), b = wanted.p[k]->value();
    VF_CHECK(
        same(a, b), what << ": parameter " << k << " is " << value_to_pretty_string(a) << ", it is "
                         << value_to_pretty_string(b) << " when the messages are sent one by one");
  }
}
}

// What a message does to its parameter
VF_PROP(launch, 30000, 400000)
{
  world w{c, false};
  rig d{w.params, w.init, w.prio};
  std::vector<msg> ms;
  bool part = false;
  std::vector<ossia::value> cur = w.init;
  const bool in_state = c.coin();
  ossia::state st;
  std::vector<ossia::value> wanted = cur;
  for(int i = 0, N = (int)c.range(1, 5); i < N; i++)
  {
    auto m = w.message(true, true);
    VF_NOTE(show(m));
    ms.push_back(m);
    part |= w.partial(m);
    auto mess = d.make(m);
    wanted[m.param] = w.apply(m, wanted[m.param]);
    if(in_state)
      st.add(mess);
    else
    {
      mess.launch();
      auto got = d.p[m.param]->value();
      VF_CHECK(
          same(got, wanted[m.param]), "after " << show(m) << " the parameter is " << value_to_pretty_string(got)
                                               << ", expected " << value_to_pretty_string(wanted[m.param]));
    }
  }
  if(in_state)
  {
    VF_CHECK(st.size() == ms.size(), "messages missing");
    auto copy = st;
    VF_CHECK(copy == st, "a copied state differs");
    copy.launch();
  }
  for(std::size_t k = 0; k < d.p.size(); k++)
  {
    auto got = d.p[k]->value();
    VF_CHECK(
        same(got, wanted[k]), "after the messages parameter " << k << " is " << value_to_pretty_string(got)
                                                            << ", expected " << value_to_pretty_string(wanted[k]));
  }
  c.nontrivial(part && ms.size() > 1);
}

// A flattened state
VF_PROP(flatten, 30000, 400000)
{
  world w{c, true};
  rig one{w.params, w.init, w.prio}, flat{w.params, w.init, w.prio};
  std::vector<msg> ms;
  ossia::state st;
  ossia::state sub;
  const bool merge = c.coin();
  // a merge of lists keeps the elements which are not given again
  if(merge)
    for(std::size_t k = 0; k < w.params.size(); k++)
      w.whole[k] = false;
  int subs = 0;
  auto give = [&](auto&& e) {
    if(merge)
      c.coin() ? merge_flatten_and_filter(st, state_element{e}) : merge_flatten_and_filter(st, static_cast<const state_element&>(state_element{e}));
    else
      c.coin() ? flatten_and_filter(st, state_element{e}) : flatten_and_filter(st, static_cast<const state_element&>(state_element{e}));
  };
  for(int i = 0, N = (int)c.range(1, 8); i < N; i++)
  {
    auto m = w.message(true, false);
    VF_NOTE(show(m));
    ms.push_back(m);
    one.make(m).launch();
    auto mess = flat.make(m);
    if(c.chance(1, 3))
    {
      // through another state, itself flattened or not
      if(c.coin())
        flatten_and_filter(sub, mess);
      else
        sub.add(mess);
      VF_NOTE("  (in a sub-state)");
      if(c.coin())
      {
        give(sub);
        sub.clear();
      }
    }
    else
    {
      if(!sub.empty())
      {
        give(sub);
        sub.clear();
        subs++;
      }
      give(mess);
    }
  }
  if(!sub.empty())
    give(sub);
  // at most one element for each parameter if all the messages have the same unit and can be merged
  st.launch();
  compare(c, flat, one, merge ? "merged" : "flattened");
  c.nontrivial(interesting(w, ms));
}

// What an execution state sends
VF_PROP(commit, 30000, 400000)
{
  world w{c, true};
  const int how = (int)c.draw(4);
  if(how == 3)
    for(std::size_t k = 0; k < w.params.size(); k++)
      w.whole[k] = false;
  rig one{w.params, w.init, w.prio}, com{w.params, w.init, w.prio};
  execution_state st;
  st.register_device(&com.dev);
  std::vector<msg> all;
  for(int t = 0, T = (int)c.range(1, 2); t < T; t++)
  {
    st.begin_tick();
    for(int i = 0, N = (int)c.range(1, 6); i < N; i++)
    {
      auto m = w.message(true, false);
      VF_NOTE(show(m));
      all.push_back(m);
      one.make(m).launch();
      if(c.chance(1, 4))
      {
        // as a state element
        auto mess = com.make(m);
        ossia::state s;
        s.add(mess);
        st.insert(s);
      }
      else
      {
        destination_index idx;
        for(int k : m.index)
          idx.push_back(k);
        ossia::complex_type ty;
        if(m.unit)
          ty = make_unit_(m.unit);
        typed_value tv{m.v, idx, ty};
        tv.timestamp = m.ts;
        st.insert(*com.p[m.param], std::move(tv));
      }
    }
    VF_NOTE("commit " << how);
    switch(how)
    {
      case 0: st.commit(); break;
      case 1: st.commit_ordered(); break;
      case 2: st.commit_priorized(); break;
      case 3: st.commit_merged(); break;
    }
    compare(c, com, one, "committed");
    const int before = com.proto->pushes;
    st.commit();
    VF_CHECK(com.proto->pushes == before, "values are sent again by another commit");
  }
  c.nontrivial(interesting(w, all));
}
